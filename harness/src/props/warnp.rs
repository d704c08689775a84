//! C27: warnings.
use super::genp::IGNORE;
use super::specp::{any_grammar, run_ok};
use crate::cli::{self, Aug, BOTH};
use crate::gram::{Assoc, PrecRef, Prod, Sym, Tok};
use crate::run::*;
use crate::spec::{self, Style};
use crate::tape::{Src, hash_str, mix};
use std::collections::{BTreeMap, BTreeSet};

/// The name between the first pair of quotes.
fn quoted(line: &str) -> Option<&str> {
    let (_, rest) = line.split_once('"')?;
    Some(rest.split_once('"')?.0)
}

pub fn c27() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let mut g = any_grammar(s, true);
        // more that is not used
        let reserved = |s: &mut Src, name: String| if s.chance(1, 3) { format!("{}{name}", ["aa", "AA", "aA", "a"][s.below(4)]) } else { name };
        for k in 0..s.below(3) {
            let lit = s.chance(1, 2);
            let name = reserved(s, format!("Idle{k}"));
            let text = if lit { format!("idle{k}") } else { format!("(idle[{k}]+)") };
            g.toks.push(Tok { name, lit, text, lexemes: vec![] });
        }
        for k in 0..s.below(3) {
            let name = reserved(s, format!("TAG{k}"));
            let tag = PrecRef::Tag(g.tags.len());
            g.tags.push(name);
            if g.levels.is_empty() || s.chance(1, 2) {
                g.levels.push((*s.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), vec![tag]));
            } else {
                let i = s.below(g.levels.len());
                let j = s.below(g.levels[i].1.len() + 1);
                g.levels[i].1.insert(j, tag);
            }
            if s.chance(1, 4) {
                let with: Vec<usize> = (0..g.prods.len()).filter(|i| !g.prods[*i].rhs.is_empty() && g.prods[*i].prec.is_none()).collect();
                if !with.is_empty() {
                    let i = *s.pick(&with);
                    g.prods[i].prec = Some(tag);
                }
            }
        }
        for k in 0..s.below(3) {
            let lhs = g.nts.len();
            g.nts.push(format!("Loose{k}"));
            for _ in 0..s.range(1, 2) {
                let mut rhs = vec![];
                for _ in 0..s.below(3) {
                    rhs.push(match s.below(4) {
                        0 | 1 => Sym::T(s.below(g.toks.len())),
                        2 => Sym::N(s.below(lhs)),
                        _ => Sym::N(lhs),
                    });
                }
                let at = s.range(1, g.prods.len());
                g.prods.insert(at, Prod { lhs, rhs, prec: None, pred: None });
            }
        }
        for i in 0..g.toks.len() {
            if s.chance(1, 12) {
                g.toks[i].name = format!("{}{}", ["aa", "AA"][s.below(2)], g.toks[i].name);
            }
        }
        let st = Style::random(s, &g);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let w = *s.pick(&BOTH);
        let ps = spec::pieces(&g, &st, w == Aug);
        let laid = spec::lay(&ps, &draws);
        ctx.show(|| laid.text.clone());

        // what has to be said about which name where
        let mut want: BTreeMap<((usize, usize), String), usize> = BTreeMap::new();
        let mut may: BTreeSet<((usize, usize), String)> = BTreeSet::new();
        let place = |role: &str| ps.iter().position(|q| q.role == role).map(|i| laid.at[i]);
        let used: BTreeSet<Sym> = g.prods.iter().flat_map(|p| p.rhs.iter().cloned()).collect();
        let precs: BTreeSet<PrecRef> = g.prods.iter().filter_map(|p| p.prec).collect();
        let odd = |n: &str| n.starts_with("aa") || n.starts_with("AA");
        let mut kinds = vec![];
        for (i, t) in g.toks.iter().enumerate() {
            let key = (place(&format!("token-name {i}")).unwrap(), t.name.clone());
            if odd(&t.name) {
                *want.entry(key.clone()).or_default() += 1;
                kinds.push("token name may clash");
            }
            if !used.contains(&Sym::T(i)) {
                if precs.contains(&PrecRef::Tok(i)) {
                    may.insert(key);
                } else {
                    *want.entry(key).or_default() += 1;
                    kinds.push("unused token");
                }
            }
        }
        for (i, (_, v)) in g.levels.iter().enumerate() {
            for (j, r) in v.iter().enumerate() {
                if let PrecRef::Tag(k) = r {
                    let key = (place(&format!("prec {i} {j}")).unwrap(), g.tags[*k].clone());
                    if odd(&g.tags[*k]) {
                        *want.entry(key.clone()).or_default() += 1;
                        kinds.push("tag name may clash");
                    }
                    if !precs.contains(r) {
                        *want.entry(key).or_default() += 1;
                        kinds.push("unused tag");
                    }
                }
            }
        }
        for (n, name) in g.nts.iter().enumerate() {
            if g.prods[0].lhs == n || used.contains(&Sym::N(n)) {
                continue;
            }
            // the first group of productions
            let Some(i) = (0..g.prods.len()).find(|i| g.prods[*i].lhs == n) else { continue };
            *want.entry((place(&format!("lhs {i}")).unwrap(), name.clone())).or_default() += 1;
            kinds.push("unused nonterminal");
        }

        let o = run_ok(ctx, w, &laid.text, &IGNORE, &[], &|| laid.text.clone())?;
        if !o.done.ok() || o.rs.is_none() || o.states.is_none() {
            return fail("refused", format!("{}: refused with {:?} {} the specification\n{}", w.cmd(), o.done.code, cli::tail(&o.done.stderr), laid.text));
        }
        let label = format!("s.{}:", w.ext());
        let mut got: BTreeMap<((usize, usize), String), usize> = BTreeMap::new();
        for line in o.done.stderr.lines() {
            let parsed = line.strip_prefix(&label).and_then(|r| {
                let mut it = r.splitn(3, ':');
                let at = (it.next()?.parse().ok()?, it.next()?.parse().ok()?);
                let rest = it.next()?;
                rest.to_lowercase().contains("warning").then_some(())?;
                Some((at, quoted(rest)?.to_string()))
            });
            match parsed {
                Some(key) => *got.entry(key).or_default() += 1,
                None if line.trim().is_empty() => {}
                None => return fail("other message", format!("{}: {line:?} about the correct specification\n{}", w.cmd(), laid.text)),
            }
        }
        for (key, n) in &want {
            let m = got.get(key).copied().unwrap_or(0);
            if m < *n || (m > *n && !(may.contains(key) && m == n + 1)) {
                return fail(if m < *n { "missing" } else { "repeated" }, format!("{}: {m} warnings instead of {n} about {:?} at {}:{} in: {} about the specification\n{}", w.cmd(), key.1, key.0.0, key.0.1, cli::tail(&o.done.stderr), laid.text));
            }
        }
        for (key, n) in &got {
            if !want.contains_key(key) && !(may.contains(key) && *n == 1) {
                return fail("unfounded", format!("{}: an unfounded warning about {:?} at {}:{} in: {} about the specification\n{}", w.cmd(), key.1, key.0.0, key.0.1, cli::tail(&o.done.stderr), laid.text));
            }
        }
        kinds.sort();
        kinds.dedup();
        if kinds.is_empty() {
            ctx.class("nothing to warn of");
            ctx.case(None);
        } else {
            for k in kinds {
                ctx.class(k);
            }
            ctx.case(Some(mix(&[hash_str(&laid.text), w as u64])));
        }
        Ok(())
    };
    Prop {
        id: "C27",
        rule: "A case is one random correct specification run through one command, its messages compared as a multiset of (place, name) with those computed from the grammar. Non-trivial if at least one warning is due. Distinct by text.",
        assumptions: vec!["whether a token that only serves as the precedence tag of a production counts as used is left open"],
        suites: vec![suite("warnings", 3000, 50000, f)],
    }
}
