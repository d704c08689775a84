//! Earley recogniser: decides membership without any automaton.
use crate::lalr::{P, S, START};
use std::collections::HashSet;

/// Whether the tokens (numbers as in `lalr`) are derivable from the start symbol.
pub fn derives(prods: &[P], nullable: &[bool], toks: &[usize]) -> bool {
    let n = toks.len();
    let mut sets: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; n + 1];
    let mut seen: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); n + 1];
    sets[0].push((0, 0, 0));
    seen[0].insert((0, 0, 0));
    for i in 0..=n {
        let mut k = 0;
        while k < sets[i].len() {
            let (p, d, from) = sets[i][k];
            k += 1;
            match prods[p].rhs.get(d) {
                Some(S::T(t)) => {
                    if i < n && toks[i] == *t && seen[i + 1].insert((p, d + 1, from)) {
                        sets[i + 1].push((p, d + 1, from));
                    }
                }
                Some(S::N(m)) => {
                    for (q, pr) in prods.iter().enumerate() {
                        if pr.lhs == *m && seen[i].insert((q, 0, i)) {
                            sets[i].push((q, 0, i));
                        }
                    }
                    if nullable[*m] && seen[i].insert((p, d + 1, from)) {
                        sets[i].push((p, d + 1, from));
                    }
                }
                None => {
                    let lhs = prods[p].lhs;
                    let back: Vec<(usize, usize, usize)> = sets[from].iter().copied().filter(|(q, e, _)| prods[*q].rhs.get(*e) == Some(&S::N(lhs))).collect();
                    for (q, e, f) in back {
                        if seen[i].insert((q, e + 1, f)) {
                            sets[i].push((q, e + 1, f));
                        }
                    }
                }
            }
        }
    }
    sets[n].iter().any(|(p, d, f)| prods[*p].lhs == START && *d == 1 && *f == 0)
}
