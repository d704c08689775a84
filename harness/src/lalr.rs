//! Reference LALR(1) automaton: LR(0) states with look-aheads computed as a
//! least fixpoint of the propagation rules, and conflict resolution.
use crate::gram::{Assoc, Gram, Sym};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Bits = u128;
/// Token numbers: 0 is the end marker, token i of the grammar is i + 1.
pub const END: usize = 0;
/// Nonterminal numbers: 0 is the start, 1 the error nonterminal, n of the grammar is n + 2.
pub const START: usize = 0;
pub const ERROR: usize = 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum S {
    T(usize),
    N(usize),
}

#[derive(Clone, Debug)]
pub struct P {
    pub lhs: usize,
    pub rhs: Vec<S>,
    pub prec: (Assoc, u16),
    pub pred: Option<u32>,
    pub err_tail: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(usize),
    /// Candidates in declaration order; all but the last have a predicate
    /// (the last may have one too).
    Reduce(Vec<usize>),
    Accept,
    Err,
}

pub type Item = (usize, usize);

#[derive(Clone, Debug, Default)]
pub struct State {
    pub items: BTreeMap<Item, Bits>,
    pub next: BTreeMap<S, usize>,
    /// After conflict resolution.
    pub shifts: BTreeMap<usize, usize>,
    pub red: BTreeMap<usize, Bits>,
    /// Unresolved conflicts, (token, production) and (production, production, tokens).
    pub sr: Vec<(usize, usize)>,
    pub rr: Vec<(usize, usize, Bits)>,
    /// Conflicts before any resolution.
    pub raw_sr: u32,
    pub raw_rr: u32,
    /// Shift/reduce conflicts settled by precedence, by the error rule.
    pub by_prec: u32,
    pub by_err: u32,
}

#[derive(Clone, Debug)]
pub struct Auto {
    pub ntok: usize,
    pub nnt: usize,
    pub prods: Vec<P>,
    pub states: Vec<State>,
    pub nullable: Vec<bool>,
    pub first: Vec<Bits>,
    pub sr: u32,
    pub rr: u32,
    /// Number of times look-aheads flowed into an already complete state.
    pub merges: u32,
}

pub const MAX_STATES: usize = 250;
/// The same for grammars with many productions.
pub const MANY_STATES: usize = 1500;

impl Auto {
    pub fn build(g: &Gram) -> Option<Auto> {
        let mut prods = vec![P { lhs: START, rhs: vec![S::N(g.prods[0].lhs + 2)], prec: (Assoc::Non, 0), pred: None, err_tail: false }];
        for p in &g.prods {
            let rhs: Vec<S> = p
                .rhs
                .iter()
                .map(|s| match s {
                    Sym::T(t) => S::T(t + 1),
                    Sym::N(n) => S::N(n + 2),
                    Sym::Err => S::N(ERROR),
                })
                .collect();
            prods.push(P { lhs: p.lhs + 2, err_tail: rhs.last() == Some(&S::N(ERROR)), rhs, prec: g.prod_prec(p), pred: p.pred });
        }
        if g.uses_error() {
            prods.push(P { lhs: ERROR, rhs: vec![], prec: (Assoc::Non, 0), pred: None, err_tail: false });
        }
        let tprec: Vec<(Assoc, u16)> = std::iter::once((Assoc::Non, 0)).chain((0..g.toks.len()).map(|t| g.prec_of(crate::gram::PrecRef::Tok(t)))).collect();
        let mut a = Auto { ntok: g.toks.len() + 1, nnt: g.nts.len() + 2, prods, states: vec![], nullable: vec![], first: vec![], sr: 0, rr: 0, merges: 0 };
        if a.ntok > 120 {
            return None;
        }
        a.firsts();
        a.lr0()?;
        a.lookaheads();
        a.resolve(&tprec);
        Some(a)
    }

    fn firsts(&mut self) {
        self.nullable = vec![false; self.nnt];
        self.first = vec![0; self.nnt];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let mut f: Bits = 0;
                let mut all = true;
                for s in &p.rhs {
                    match s {
                        S::T(t) => {
                            f |= 1 << t;
                            all = false;
                        }
                        S::N(n) => {
                            f |= self.first[*n];
                            all = self.nullable[*n];
                        }
                    }
                    if !all {
                        break;
                    }
                }
                if all && !self.nullable[p.lhs] {
                    self.nullable[p.lhs] = true;
                    changed = true;
                }
                if self.first[p.lhs] | f != self.first[p.lhs] {
                    self.first[p.lhs] |= f;
                    changed = true;
                }
            }
            if !changed {
                return;
            }
        }
    }

    pub fn first_of(&self, syms: &[S], la: Bits) -> Bits {
        let mut f = 0;
        for s in syms {
            match s {
                S::T(t) => return f | 1 << t,
                S::N(n) => {
                    f |= self.first[*n];
                    if !self.nullable[*n] {
                        return f;
                    }
                }
            }
        }
        f | la
    }

    fn close0(&self, kernel: &BTreeSet<Item>) -> BTreeSet<Item> {
        let mut set = kernel.clone();
        let mut todo: Vec<Item> = kernel.iter().copied().collect();
        while let Some((p, d)) = todo.pop() {
            if let Some(S::N(n)) = self.prods[p].rhs.get(d) {
                for (q, pr) in self.prods.iter().enumerate() {
                    if pr.lhs == *n && set.insert((q, 0)) {
                        todo.push((q, 0));
                    }
                }
            }
        }
        set
    }

    fn lr0(&mut self) -> Option<()> {
        let k0: BTreeSet<Item> = [(0, 0)].into();
        let mut index: HashMap<BTreeSet<Item>, usize> = HashMap::new();
        let mut kernels = vec![k0.clone()];
        index.insert(k0, 0);
        let mut i = 0;
        while i < kernels.len() {
            let set = self.close0(&kernels[i]);
            let mut st = State { items: set.iter().map(|it| (*it, 0)).collect(), ..State::default() };
            let mut by: BTreeMap<S, BTreeSet<Item>> = BTreeMap::new();
            for (p, d) in &set {
                if let Some(s) = self.prods[*p].rhs.get(*d) {
                    by.entry(*s).or_default().insert((*p, d + 1));
                }
            }
            for (s, k) in by {
                let j = *index.entry(k.clone()).or_insert_with(|| {
                    kernels.push(k);
                    kernels.len() - 1
                });
                st.next.insert(s, j);
            }
            self.states.push(st);
            i += 1;
            if kernels.len() > if self.prods.len() > 60 { MANY_STATES } else { MAX_STATES } {
                return None;
            }
        }
        Some(())
    }

    fn lookaheads(&mut self) {
        *self.states[0].items.get_mut(&(0, 0)).unwrap() = 1 << END;
        let mut todo: BTreeSet<usize> = [0].into();
        let mut seen = BTreeSet::new();
        while let Some(i) = todo.pop_first() {
            if !seen.insert(i) {
                self.merges += 1;
            }
            loop {
                let mut changed = false;
                let items: Vec<(Item, Bits)> = self.states[i].items.iter().map(|(k, v)| (*k, *v)).collect();
                for ((p, d), la) in items {
                    if let Some(S::N(n)) = self.prods[p].rhs.get(d) {
                        let f = self.first_of(&self.prods[p].rhs[d + 1..], la);
                        for q in 0..self.prods.len() {
                            if self.prods[q].lhs == *n {
                                let e = self.states[i].items.get_mut(&(q, 0)).unwrap();
                                if *e | f != *e {
                                    *e |= f;
                                    changed = true;
                                }
                            }
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
            let items: Vec<(Item, Bits)> = self.states[i].items.iter().map(|(k, v)| (*k, *v)).collect();
            for ((p, d), la) in items {
                if let Some(s) = self.prods[p].rhs.get(d) {
                    let j = self.states[i].next[s];
                    let e = self.states[j].items.get_mut(&(p, d + 1)).unwrap();
                    if *e | la != *e || !seen.contains(&j) {
                        *e |= la;
                        todo.insert(j);
                    }
                }
            }
        }
    }

    fn resolve(&mut self, tprec: &[(Assoc, u16)]) {
        for st in self.states.iter_mut() {
            st.red = st.items.iter().filter(|((p, d), _)| *d == self.prods[*p].rhs.len()).map(|((p, _), la)| (*p, *la)).collect();
            st.shifts = st.next.iter().filter_map(|(s, j)| if let S::T(t) = s { Some((*t, *j)) } else { None }).collect();
            let before = st.red.clone();
            let pairs: Vec<(usize, usize)> = st.shifts.keys().flat_map(|t| before.iter().filter(move |(_, la)| *la >> t & 1 == 1).map(move |(p, _)| (*t, *p))).collect();
            st.raw_sr = pairs.len() as u32;
            for (t, p) in pairs {
                let (_, tp) = tprec[t];
                let (pa, pp) = self.prods[p].prec;
                let drop_shift = tp < pp || (tp == pp && pa == Assoc::Left);
                if drop_shift {
                    st.shifts.remove(&t);
                    st.by_prec += 1;
                    continue;
                }
                *st.red.get_mut(&p).unwrap() &= !(1 << t);
                if tp > pp || pa == Assoc::Right {
                    st.by_prec += 1;
                } else if self.prods[p].err_tail {
                    st.by_err += 1;
                } else {
                    st.sr.push((t, p));
                }
            }
            let ps: Vec<usize> = st.red.keys().copied().collect();
            for i in 0..ps.len() {
                for j in i + 1..ps.len() {
                    let (a, b) = (ps[i], ps[j]);
                    if before[&a] & before[&b] != 0 {
                        st.raw_rr += 1;
                    }
                    let both = st.red[&a] & st.red[&b];
                    if both == 0 || self.prods[a].pred.is_some() {
                        continue;
                    }
                    if self.prods[a].err_tail && !self.prods[b].err_tail {
                        *st.red.get_mut(&a).unwrap() &= !both;
                        st.by_err += 1;
                    } else if self.prods[b].err_tail {
                        *st.red.get_mut(&b).unwrap() &= !both;
                        st.by_err += 1;
                    } else {
                        *st.red.get_mut(&b).unwrap() &= !both;
                        st.rr.push((a, b, both));
                    }
                }
            }
        }
        self.sr = self.states.iter().map(|s| s.sr.len() as u32).sum();
        self.rr = self.states.iter().map(|s| s.rr.len() as u32).sum();
    }

    pub fn act(&self, s: usize, t: usize) -> Act {
        let st = &self.states[s];
        let reds: Vec<usize> = st.red.iter().filter(|(_, la)| **la >> t & 1 == 1).map(|(p, _)| *p).collect();
        if let Some(j) = st.shifts.get(&t) {
            return Act::Shift(*j);
        }
        if reds == [0] {
            return Act::Accept;
        }
        if reds.is_empty() { Act::Err } else { Act::Reduce(reds) }
    }

    pub fn expected(&self, s: usize) -> BTreeSet<usize> {
        let st = &self.states[s];
        (0..self.ntok).filter(|t| st.shifts.contains_key(t) || st.red.values().any(|la| la >> t & 1 == 1)).collect()
    }

    pub fn goto(&self, s: usize, n: usize) -> Option<usize> {
        self.states[s].next.get(&S::N(n)).copied()
    }

    pub fn viable(&self, s: usize, t: usize) -> bool {
        match self.goto(s, ERROR) {
            Some(j) => self.states[j].red.iter().any(|(p, la)| self.prods[*p].err_tail && la >> t & 1 == 1),
            None => false,
        }
    }

    pub fn raw(&self) -> (u32, u32) {
        (self.states.iter().map(|s| s.raw_sr).sum(), self.states.iter().map(|s| s.raw_rr).sum())
    }

    /// Productions of the grammar (0-based) that lose an unresolved conflict.
    pub fn conflict_prods(&self) -> Vec<usize> {
        let mut v: Vec<usize> = vec![];
        for st in &self.states {
            v.extend(st.sr.iter().map(|c| c.1));
            v.extend(st.rr.iter().map(|c| c.1));
            // a raw conflict settled by precedence or the error rule is fine
        }
        v.sort();
        v.dedup();
        v.retain(|p| *p >= 1);
        let n = self.prods.len();
        let has_err = self.prods.last().is_some_and(|p| p.lhs == ERROR);
        // the error production itself cannot be changed: blame a production using it
        v.iter()
            .map(|p| {
                if has_err && *p == n - 1 {
                    self.prods.iter().rposition(|q| q.rhs.contains(&S::N(ERROR))).unwrap() - 1
                } else {
                    p - 1
                }
            })
            .collect::<BTreeSet<_>>()
            .into_iter()
            .collect()
    }

    /// Shortest terminal string of every symbol that derives one.
    pub fn yields(&self) -> Vec<Option<Vec<usize>>> {
        let mut y: Vec<Option<Vec<usize>>> = vec![None; self.nnt];
        loop {
            let mut changed = false;
            for p in &self.prods {
                let mut v = vec![];
                let mut ok = true;
                for s in &p.rhs {
                    match s {
                        S::T(t) => v.push(*t),
                        S::N(n) => match &y[*n] {
                            Some(w) => v.extend(w),
                            None => ok = false,
                        },
                    }
                }
                if ok && v.len() < 200 && y[p.lhs].as_ref().is_none_or(|w| w.len() > v.len()) {
                    y[p.lhs] = Some(v);
                    changed = true;
                }
            }
            if !changed {
                return y;
            }
        }
    }

    /// For every state the terminal string of a short path to it.
    pub fn access(&self) -> Vec<Option<Vec<usize>>> {
        let y = self.yields();
        let mut best: Vec<Option<Vec<usize>>> = vec![None; self.states.len()];
        best[0] = Some(vec![]);
        loop {
            let mut changed = false;
            for i in 0..self.states.len() {
                let Some(w) = best[i].clone() else { continue };
                for (s, j) in &self.states[i].next {
                    let ext: Option<&[usize]> = match s {
                        S::T(t) => Some(std::slice::from_ref(t)),
                        S::N(n) => y[*n].as_deref(),
                    };
                    if let Some(e) = ext {
                        let len = w.len() + e.len();
                        if best[*j].as_ref().is_none_or(|b| b.len() > len) {
                            best[*j] = Some([&w[..], e].concat());
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                return best;
            }
        }
    }
}
