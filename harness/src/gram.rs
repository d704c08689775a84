//! Grammars: the abstract specification that everything else is derived from.
use crate::tape::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Assoc {
    Left,
    Right,
    Non,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub name: String,
    pub lit: bool,
    /// Text of the literal, or of the expression with its brackets.
    pub text: String,
    /// Some texts that lex as this token.
    pub lexemes: Vec<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym {
    T(usize),
    N(usize),
    Err,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum PrecRef {
    Tag(usize),
    Tok(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Prod {
    pub lhs: usize,
    pub rhs: Vec<Sym>,
    pub prec: Option<PrecRef>,
    /// Identity of the predicate guarding the production.
    pub pred: Option<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gram {
    pub toks: Vec<Tok>,
    pub tags: Vec<String>,
    /// Precedence levels in declaration order.
    pub levels: Vec<(Assoc, Vec<PrecRef>)>,
    pub nts: Vec<String>,
    /// In declaration order; the left-hand side of the first is the start symbol.
    pub prods: Vec<Prod>,
    pub skips: Vec<String>,
    pub sr: u32,
    pub rr: u32,
}

impl Gram {
    pub fn uses_error(&self) -> bool {
        self.prods.iter().any(|p| p.rhs.contains(&Sym::Err))
    }
    pub fn prec_of(&self, r: PrecRef) -> (Assoc, u16) {
        for (i, (a, v)) in self.levels.iter().enumerate() {
            if v.contains(&r) {
                return (*a, i as u16 + 1);
            }
        }
        (Assoc::Non, 0)
    }
    pub fn prod_prec(&self, p: &Prod) -> (Assoc, u16) {
        if let Some(r) = p.prec {
            return self.prec_of(r);
        }
        for s in &p.rhs {
            if let Sym::T(t) = s {
                return self.prec_of(PrecRef::Tok(*t));
            }
        }
        (Assoc::Non, 0)
    }
    pub fn sym_name(&self, s: &Sym) -> String {
        match s {
            Sym::T(t) => self.toks[*t].name.clone(),
            Sym::N(n) => self.nts[*n].clone(),
            Sym::Err => "%error".into(),
        }
    }
    /// How a token prints in messages.
    pub fn tok_display(&self, t: usize) -> String {
        let k = &self.toks[t];
        if k.lit { format!("\"{}\"", k.text) } else { k.name.clone() }
    }
    pub fn describe(&self) -> String {
        let mut o = String::new();
        for (a, v) in &self.levels {
            o += &format!("%{:?}", a).to_lowercase();
            for r in v {
                o += &match r {
                    PrecRef::Tag(t) => format!(" {}", self.tags[*t]),
                    PrecRef::Tok(t) => format!(" {}", self.toks[*t].name),
                };
            }
            o += "; ";
        }
        for p in &self.prods {
            o += &format!("{}:", self.nts[p.lhs]);
            for s in &p.rhs {
                o += &format!(" {}", self.sym_name(s));
            }
            if let Some(k) = p.pred {
                o += &format!(" ?(p{k}?)");
            }
            match p.prec {
                Some(PrecRef::Tag(t)) => o += &format!(" %prec {}", self.tags[t]),
                Some(PrecRef::Tok(t)) => o += &format!(" %prec {}", self.toks[t].name),
                None => (),
            }
            o += ". ";
        }
        if self.sr > 0 || self.rr > 0 {
            o += &format!("(%shift_reduce {} %reduce_reduce {})", self.sr, self.rr);
        }
        o
    }
    /// Shape without names, used to count distinct grammars.
    pub fn key(&self) -> u64 {
        let mut v = vec![self.toks.len() as u64, self.nts.len() as u64];
        for p in &self.prods {
            v.push(1000 + p.lhs as u64);
            for s in &p.rhs {
                v.push(match s {
                    Sym::T(t) => 2000 + *t as u64,
                    Sym::N(n) => 3000 + *n as u64,
                    Sym::Err => 4000,
                });
            }
            v.push(p.pred.map_or(5000, |_| 5001));
            let (a, n) = self.prod_prec(p);
            v.push(6000 + a as u64 * 100 + n as u64);
        }
        for t in 0..self.toks.len() {
            let (a, n) = self.prec_of(PrecRef::Tok(t));
            v.push(7000 + a as u64 * 100 + n as u64);
        }
        crate::tape::mix(&v)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct GOpts {
    pub max_toks: usize,
    pub max_nts: usize,
    pub errors: bool,
    pub precs: bool,
    pub preds: bool,
    /// Make predicates likely (competing productions).
    pub duel: bool,
}

impl Default for GOpts {
    fn default() -> Self {
        GOpts { max_toks: 6, max_nts: 5, errors: false, precs: false, preds: false, duel: false }
    }
}

const TOK_NAMES: [&str; 16] = ["A", "B", "Cat", "Dog", "eel", "Fox", "gnu", "Hen", "Ibex", "Jay", "Koi", "Lynx", "Moth", "Newt", "owl", "Z9"];
const NT_NAMES: [&str; 10] = ["S", "Expr", "List", "tail", "Rest", "Q_1", "Wrap", "item", "Y2", "Opt"];
const LITS: [&str; 16] = ["a", "+", "if", "*", "(", ")", "then", "b", ":=", "c", "d", "<<", "-", "e", "=", "{"];

/// Tokens with distinct names and lexemes; names, texts and order are drawn independently.
pub fn gen_toks(s: &mut Src, n: usize) -> Vec<Tok> {
    let mut names: Vec<&str> = TOK_NAMES.to_vec();
    let mut lits: Vec<&str> = LITS.to_vec();
    let mut res: Vec<(&str, Vec<&str>)> = vec![("([0-9]+)", vec!["7", "12", "305"]), ("([x-z]+)", vec!["x", "zy", "xyz"]), ("(#[0-9]|%[x-z]+)", vec!["#1", "%zx", "#9"]), ("([A-Z][0-9]*|[α-ω]+)", vec!["Q", "R2", "λω"])];
    if s.chance(3, 4) {
        s.shuffle(&mut names[..]);
    }
    (0..n)
        .map(|i| {
            let name = names[i].to_string();
            if !res.is_empty() && s.chance(1, 4) {
                let (r, l) = res.remove(0);
                Tok { name, lit: false, text: r.into(), lexemes: l.iter().map(|x| x.to_string()).collect() }
            } else {
                let l = lits.remove(0);
                Tok { name, lit: true, text: l.into(), lexemes: vec![l.to_string()] }
            }
        })
        .collect()
}

fn p(lhs: usize, rhs: &[Sym]) -> Prod {
    Prod { lhs, rhs: rhs.to_vec(), prec: None, pred: None }
}

/// A list of productions over nonterminals 0.. and tokens 0..nt, by template or at random.
fn shape(s: &mut Src, nt: usize, o: &GOpts) -> Vec<Prod> {
    use Sym::*;
    let t = |i: usize| T(i % nt);
    match s.weighted(&[10, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2]) {
        0 => {
            let nn = s.range(1, o.max_nts);
            let mut v = vec![];
            for n in 0..nn {
                let k = s.weighted(&[3, 4, 3, 1]) + 1;
                for _ in 0..k {
                    let len = s.weighted(&[3, 5, 5, 4, 1]);
                    let rhs = (0..len).map(|_| if s.chance(2, 5) { N(s.below(nn)) } else { T(s.below(nt)) }).collect();
                    v.push(Prod { lhs: n, rhs, prec: None, pred: None });
                }
            }
            v
        }
        // expression over operators
        1 => {
            let mut v = vec![p(0, &[N(0), t(1), N(0)]), p(0, &[T(0)])];
            if s.chance(1, 2) {
                v.push(p(0, &[N(0), t(2), N(0)]));
            }
            if s.chance(1, 2) {
                v.push(p(0, &[t(3), N(0)]));
            }
            if s.chance(1, 3) {
                v.push(p(0, &[N(0), t(4)]));
            }
            v
        }
        // layered expression
        2 => vec![p(0, &[N(0), t(1), N(1)]), p(0, &[N(1)]), p(1, &[N(1), t(2), N(2)]), p(1, &[N(2)]), p(2, &[T(0)]), p(2, &[t(3), N(0), t(4)])],
        // indirect left recursion, possibly nullable
        3 => {
            let mut v = vec![p(0, &[N(1), T(0)]), p(1, &[N(0), t(1)]), p(1, &[t(2)])];
            if s.chance(1, 2) {
                v.push(p(1, &[]));
            }
            if s.chance(1, 2) {
                v.push(p(0, &[N(2)]));
                v.push(p(2, &[N(1), t(3)]));
            }
            v
        }
        // hidden left recursion
        4 => {
            let mut v = vec![p(0, &[N(1), N(0), T(0)]), p(0, &[t(1)]), p(1, &[])];
            if s.chance(1, 2) {
                v.push(p(1, &[t(2)]));
            }
            v
        }
        // chain of nullables
        5 => {
            let k = s.range(2, 4);
            let mut v = vec![Prod { lhs: 0, rhs: (1..=k).map(N).collect(), prec: None, pred: None }];
            for i in 1..=k {
                v.push(p(i, &[]));
                match s.below(3) {
                    0 => v.push(p(i, &[t(i - 1)])),
                    1 => v.push(p(i, &[N(i), t(i - 1)])),
                    _ => v.push(p(i, &[t(i - 1), N(i)])),
                }
            }
            v
        }
        // the classic LALR merging grammar, possibly with longer common parts
        6 => {
            let mut v = vec![p(0, &[T(0), N(1), t(1)]), p(0, &[t(2), N(2), t(1)]), p(0, &[T(0), N(2), t(3)]), p(0, &[t(2), N(1), t(3)])];
            v.push(p(1, &[t(4)]));
            v.push(p(2, &[t(4)]));
            if s.chance(1, 2) {
                v[4].rhs.push(t(5));
                v[5].rhs.push(t(5));
            }
            v
        }
        // states met again with larger look-ahead sets: nested brackets over lists
        7 => {
            let mut v = vec![p(0, &[N(1)]), p(1, &[N(1), N(2)]), p(1, &[N(2)]), p(2, &[T(0), N(1), t(1)]), p(2, &[t(2)])];
            if s.chance(1, 2) {
                v.push(p(2, &[t(3), N(3), t(4)]));
                v.push(p(3, &[N(1)]));
                v.push(p(3, &[]));
            }
            v
        }
        // right recursive list with separator and optional end
        8 => {
            let mut v = vec![p(0, &[N(1), N(2)]), p(1, &[T(0), t(1), N(1)]), p(1, &[T(0)]), p(2, &[])];
            v.push(p(2, &[t(2)]));
            v
        }
        // assignments: lvalue / rvalue
        9 => vec![p(0, &[N(1), T(0), N(2)]), p(0, &[N(2)]), p(1, &[t(1), N(2)]), p(1, &[t(2)]), p(2, &[N(1)])],
        // if / then / else
        10 => vec![p(0, &[T(0), t(1), N(0)]), p(0, &[T(0), t(1), N(0), t(2), N(0)]), p(0, &[t(3)])],
        // statement list
        11 => {
            let mut v = vec![p(0, &[]), p(0, &[N(0), N(1)]), p(1, &[T(0), t(1), N(2), t(2)]), p(2, &[t(3)]), p(2, &[N(2), t(4), t(3)])];
            if s.chance(1, 2) {
                v.push(p(1, &[t(5), N(0), t(2)]));
            }
            v
        }
        // nested unit productions sharing a terminal
        _ => {
            let mut v = vec![p(0, &[N(1), t(1)]), p(0, &[N(2), t(2)]), p(1, &[N(3)]), p(2, &[N(4)]), p(3, &[T(0)]), p(4, &[t(3)])];
            if s.chance(1, 2) {
                v.push(p(4, &[T(0)]));
            }
            v
        }
    }
}

pub fn grammar(s: &mut Src, o: &GOpts) -> Gram {
    use Sym::*;
    let nt = s.range(2, o.max_toks);
    let mut prods = shape(s, nt, o);
    // mutations
    for _ in 0..s.weighted(&[4, 3, 2, 1]) {
        let nn = prods.iter().map(|p| p.lhs).max().unwrap() + 1;
        let i = s.below(prods.len());
        match s.below(5) {
            0 => {
                let mut q = prods[i].clone();
                let at = s.below(q.rhs.len() + 1);
                q.rhs.insert(at, if s.chance(1, 2) { N(s.below(nn)) } else { T(s.below(nt)) });
                prods[i] = q;
            }
            1 => {
                if !prods[i].rhs.is_empty() {
                    let at = s.below(prods[i].rhs.len());
                    prods[i].rhs.remove(at);
                }
            }
            2 => {
                let mut q = prods[i].clone();
                q.lhs = s.below(nn);
                prods.push(q);
            }
            3 => {
                let len = s.below(4);
                let rhs = (0..len).map(|_| if s.chance(2, 5) { N(s.below(nn)) } else { T(s.below(nt)) }).collect();
                prods.push(Prod { lhs: s.below(nn), rhs, prec: None, pred: None });
            }
            _ => {
                if !prods[i].rhs.is_empty() {
                    let at = s.below(prods[i].rhs.len());
                    prods[i].rhs[at] = if s.chance(1, 3) { N(s.below(nn)) } else { T(s.below(nt)) };
                }
            }
        }
    }
    if o.errors {
        let nn = prods.iter().map(|p| p.lhs).max().unwrap() + 1;
        for _ in 0..s.range(1, 3) {
            let lhs = s.below(nn);
            let rhs: Vec<Sym> = match s.weighted(&[4, 3, 2, 2, 1, 1]) {
                0 => vec![Err],
                1 => vec![T(s.below(nt)), Err],
                2 => vec![Err, T(s.below(nt))],
                3 => vec![T(s.below(nt)), Err, T(s.below(nt))],
                4 => vec![N(s.below(nn)), Err],
                _ => vec![Err, N(s.below(nn))],
            };
            let at = s.below(prods.len() + 1);
            prods.insert(at, Prod { lhs, rhs, prec: None, pred: None });
        }
    }
    if o.duel {
        // competing productions: the same right-hand side for another nonterminal (or the same one)
        let nn = prods.iter().map(|p| p.lhs).max().unwrap() + 1;
        let (n, one) = (s.range(1, 2), s.chance(1, 10));
        let only = s.below(prods.len());
        for _ in 0..if one { 2 + s.below(9) } else { n } {
            let i = if one { only } else { s.below(prods.len()) };
            let mut q = prods[i].clone();
            q.lhs = s.below(nn);
            let longer = q.clone();
            let at = s.range(i + 1, prods.len());
            prods.insert(at, q);
            if s.chance(1, 3) {
                // and something to shift instead
                let mut q = longer;
                if q.rhs.last() != Some(&Err) {
                    q.rhs.push(T(s.below(nt)));
                    q.lhs = s.below(nn);
                    let at = s.below(prods.len() + 1);
                    prods.insert(at, q);
                }
            }
        }
    }
    // the start symbol is the left-hand side of the first production, which
    // need not be nonterminal 0; every nonterminal needs a production
    let mut order: Vec<usize> = vec![];
    for q in &prods {
        for n in std::iter::once(q.lhs).chain(q.rhs.iter().filter_map(|x| if let N(n) = x { Some(*n) } else { None })) {
            if !order.contains(&n) {
                order.push(n);
            }
        }
    }
    let ren = |n: usize| order.iter().position(|x| *x == n).unwrap();
    for q in prods.iter_mut() {
        q.lhs = ren(q.lhs);
        for x in q.rhs.iter_mut() {
            if let N(n) = x {
                *n = ren(*n);
            }
        }
    }
    for n in 0..order.len() {
        if !prods.iter().any(|q| q.lhs == n) {
            let t = s.below(nt);
            prods.push(p(n, &[T(t)]));
        }
    }
    let mut names: Vec<&str> = NT_NAMES.to_vec();
    if s.chance(1, 2) {
        s.shuffle(&mut names[..]);
    }
    let nts: Vec<String> = (0..order.len()).map(|i| if i < names.len() { names[i].to_string() } else { format!("N{i}") }).collect();
    let toks = gen_toks(s, nt);
    let mut g = Gram { toks, tags: vec![], levels: vec![], nts, prods, skips: vec![r"(\s+)".into()], sr: 0, rr: 0 };
    if o.precs {
        gen_precs(s, &mut g);
    }
    if o.preds {
        let n = g.prods.len();
        for i in 0..n {
            if s.chance(1, 3) {
                g.prods[i].pred = Some(i as u32);
            }
        }
    }
    g
}

pub fn gen_precs(s: &mut Src, g: &mut Gram) {
    let nlev = match s.weighted(&[3, 9, 9, 6, 2]) {
        4 => s.range(4, 12),
        n => n,
    };
    if nlev == 0 {
        return;
    }
    g.levels = (0..nlev).map(|_| (*s.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), vec![])).collect();
    for t in 0..g.toks.len() {
        if s.chance(2, 3) {
            let l = s.below(nlev);
            g.levels[l].1.push(PrecRef::Tok(t));
        }
    }
    for k in 0..s.below(3) {
        g.tags.push(["UMINUS", "low", "Tag3"][k].into());
        let l = s.below(nlev);
        g.levels[l].1.push(PrecRef::Tag(k));
    }
    g.levels.retain(|l| !l.1.is_empty());
    for i in 0..g.prods.len() {
        // the specification language allows %prec only after at least one symbol
        if !g.prods[i].rhs.is_empty() && s.chance(1, 4) {
            let nt = g.tags.len();
            g.prods[i].prec = Some(if nt > 0 && s.chance(2, 3) { PrecRef::Tag(s.below(nt)) } else { PrecRef::Tok(s.below(g.toks.len())) });
        }
    }
}

/// Removes conflicts by putting tokens in front of conflicting productions;
/// None if that does not succeed.
pub fn repair(g: Gram) -> Option<Gram> {
    repair_in(g, 14, 7)
}

pub fn repair_in(mut g: Gram, rounds: usize, len: usize) -> Option<Gram> {
    for round in 0..rounds {
        let a = crate::lalr::Auto::build(&g)?;
        let culprits = a.conflict_prods();
        let Some(&k) = culprits.last() else {
            return Some(g);
        };
        let t = (round * 7 + k * 3) % g.toks.len();
        if round % 3 == 2 {
            g.prods[k].rhs.push(Sym::T(t));
        } else {
            g.prods[k].rhs.insert(0, Sym::T(t));
        }
        if g.prods[k].rhs.len() > len {
            return None;
        }
    }
    None
}

/// Many nonterminals, many of them nullable, in long chains.
pub fn nullable_heavy(s: &mut Src, o: &GOpts) -> Gram {
    use Sym::*;
    let nt = s.range(3, o.max_toks);
    let nn = s.range(3, o.max_nts);
    let mut prods = vec![];
    for n in 0..nn {
        let k = s.weighted(&[0, 3, 3, 2]).max(1);
        for i in 0..k {
            if n > 0 && i == 0 && s.chance(1, 2) {
                prods.push(p(n, &[]));
                continue;
            }
            let len = s.weighted(&[0, 3, 4, 4, 2]);
            let rhs: Vec<Sym> = (0..len)
                .map(|_| match s.weighted(&[5, 2, 3]) {
                    // mostly downwards, so that grammars stay productive
                    0 if n + 1 < nn => N(s.range(n + 1, nn - 1)),
                    1 => N(s.below(nn)),
                    _ => T(s.below(nt)),
                })
                .collect();
            prods.push(Prod { lhs: n, rhs, prec: None, pred: None });
        }
    }
    // every nonterminal has a production already; unreachable ones are fine
    let mut names: Vec<&str> = NT_NAMES.to_vec();
    if s.chance(1, 2) {
        s.shuffle(&mut names[..]);
    }
    let nts: Vec<String> = (0..nn).map(|i| names[i].to_string()).collect();
    let toks = gen_toks(s, nt);
    Gram { toks, tags: vec![], levels: vec![], nts, prods, skips: vec![r"(\s+)".into()], sr: 0, rr: 0 }
}

const WORDS: [&str; 44] = [
    "in", "int", "into", "if", "else", "elseif", "end", "do", "done", "for", "fork", "let", "set", "get", "def", "default", "as", "is", "island", "or", "not", "nothing", "=", "==", "===", "=>", "<", "<=", "<<", "<<=", ">", ">=", "+", "++", "+=", "-", "->", "*", "**", ".", "..", "...", "::", ":",
];

/// Grammars of the size of small programming languages.
pub fn large(s: &mut Src, o: &GOpts) -> Gram {
    let (nt, nn) = (s.range(10, 44), s.range(5, 22));
    large_of(s, o, nt, nn)
}

/// Grammars with hundreds of states, productions and nonterminals.
pub fn huge(s: &mut Src, o: &GOpts) -> Gram {
    let (nt, nn) = (s.range(60, 120), s.range(60, 130));
    large_of(s, o, nt, nn)
}

fn large_of(s: &mut Src, o: &GOpts, nt: usize, nn: usize) -> Gram {
    use Sym::*;
    let mut fresh: Vec<usize> = (0..nt).collect();
    s.shuffle(&mut fresh[..]);
    let mut prods: Vec<Prod> = vec![];
    let mut binary: Vec<usize> = vec![];
    for n in 0..nn {
        let tok = |s: &mut Src, fresh: &mut Vec<usize>| if fresh.is_empty() || s.chance(1, 8) { T(s.below(nt)) } else { T(fresh.pop().unwrap()) };
        let down = |s: &mut Src, fresh: &mut Vec<usize>| if n + 1 < nn { N(if s.chance(1, 2) { n + 1 } else { s.range(n + 1, nn - 1) }) } else { tok(s, fresh) };
        let any = |s: &mut Src, fresh: &mut Vec<usize>| match s.weighted(&[5, 2, 4]) {
            0 => down(s, fresh),
            1 => N(s.below(nn)),
            _ => T(s.below(nt)),
        };
        let mut add = |s: &mut Src, rhs: Vec<Sym>| {
            let at = if s.chance(1, 6) && !prods.is_empty() { s.range(1, prods.len()) } else { prods.len() };
            prods.insert(at, Prod { lhs: n, rhs, prec: None, pred: None });
        };
        match s.weighted(&[5, 3, 2, 2, 2, 2, 2, 1]) {
            0 => {
                for _ in 0..s.range(1, 4) {
                    let mut v = vec![tok(s, &mut fresh)];
                    for _ in 0..s.below(5) {
                        v.push(any(s, &mut fresh));
                    }
                    add(s, v);
                }
            }
            1 => {
                let x = down(s, &mut fresh);
                if s.chance(1, 2) {
                    let sep = tok(s, &mut fresh);
                    add(s, vec![N(n), sep, x]);
                    add(s, vec![x]);
                } else {
                    add(s, vec![N(n), x]);
                    let v = if s.chance(1, 2) { vec![] } else { vec![x] };
                add(s, v);
                }
            }
            2 => {
                let x = down(s, &mut fresh);
                let sep = tok(s, &mut fresh);
                add(s, vec![x, sep, N(n)]);
                let v = if s.chance(1, 2) { vec![] } else { vec![x] };
                add(s, v);
            }
            3 => {
                let v = vec![tok(s, &mut fresh), down(s, &mut fresh)];
                add(s, v);
                add(s, vec![]);
            }
            4 => {
                let x = down(s, &mut fresh);
                for _ in 0..s.range(1, 3) {
                    let v = vec![N(n), tok(s, &mut fresh), x];
                    add(s, v);
                }
                add(s, vec![x]);
                if s.chance(1, 2) {
                    let v = vec![tok(s, &mut fresh), N(n), tok(s, &mut fresh)];
                    add(s, v);
                }
            }
            5 if o.precs => {
                for _ in 0..s.range(1, 6) {
                    let t = tok(s, &mut fresh);
                    if let T(t) = t {
                        binary.push(t);
                    }
                    add(s, vec![N(n), t, N(n)]);
                }
                if s.chance(1, 2) {
                    let t = tok(s, &mut fresh);
                    if let T(t) = t {
                        binary.push(t);
                    }
                    add(s, vec![t, N(n)]);
                }
                let x = down(s, &mut fresh);
                add(s, vec![x]);
            }
            5 | 6 => {
                for _ in 0..s.range(1, 4) {
                    let v = vec![down(s, &mut fresh)];
                    add(s, v);
                }
                let v = vec![tok(s, &mut fresh)];
                add(s, v);
            }
            _ => {
                let mut v = vec![tok(s, &mut fresh)];
                for _ in 0..s.range(7, 13) {
                    v.push(any(s, &mut fresh));
                }
                add(s, v);
                if s.chance(1, 2) {
                    let v = vec![tok(s, &mut fresh)];
                    add(s, v);
                }
            }
        }
        if o.errors && s.chance(1, 5) {
            let v = match s.below(3) {
                0 => vec![Err],
                1 => vec![Err, tok(s, &mut fresh)],
                _ => vec![tok(s, &mut fresh), Err],
            };
            add(s, v);
        }
    }
    // the start symbol is nonterminal 0
    let k = prods.iter().position(|q| q.lhs == 0).unwrap();
    let q = prods.remove(k);
    prods.insert(0, q);
    let mut names: Vec<String> = (0..nn).map(|i| format!("{}{}", ["N", "n_", "Node", "N1"][s.below(4)], i)).collect();
    s.shuffle(&mut names[..]);
    for i in 0..nn {
        if names.iter().skip(i + 1).any(|x| *x == names[i]) {
            names[i] = format!("M{i}");
        }
    }
    let more: Vec<String> = (WORDS.len()..nt).map(|i| format!("w{}", i * 7)).collect();
    let mut lits: Vec<&str> = WORDS.iter().copied().chain(more.iter().map(|x| x.as_str())).collect();
    s.shuffle(&mut lits[..]);
    let mut res: Vec<(&str, Vec<&str>)> = vec![("([0-9]+)", vec!["7", "12", "305"]), ("([x-z]+)", vec!["x", "zy", "xyz"]), ("(#[0-9]|%[x-z]+)", vec!["#1", "%zx", "#9"]), ("([A-Z][0-9]*|[α-ω]+)", vec!["Q", "R2", "λω"])];
    let mut toks: Vec<Tok> = (0..nt)
        .map(|i| {
            if !res.is_empty() && s.chance(1, 8) {
                let (r, l) = res.remove(0);
                Tok { name: format!("R{i}"), lit: false, text: r.into(), lexemes: l.iter().map(|x| x.to_string()).collect() }
            } else {
                let l = lits.pop().unwrap();
                Tok { name: format!("{}{i}", ["T", "t", "T1", "Tok_"][s.below(4)]), lit: true, text: l.into(), lexemes: vec![l.to_string()] }
            }
        })
        .collect();
    for i in 0..nt {
        if toks.iter().skip(i + 1).any(|x| x.name == toks[i].name) {
            toks[i].name = format!("U{i}");
        }
    }
    let mut g = Gram { toks, tags: vec![], levels: vec![], nts: names, prods, skips: vec![r"(\s+)".into()], sr: 0, rr: 0 };
    if o.precs {
        let nlev = s.range(1, 12);
        g.levels = (0..nlev).map(|_| (*s.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]), vec![])).collect();
        for t in 0..nt {
            if binary.contains(&t) && s.chance(9, 10) || s.chance(1, 6) {
                let l = s.below(nlev);
                g.levels[l].1.push(PrecRef::Tok(t));
            }
        }
        for k in 0..s.below(5) {
            g.tags.push(format!("Level{k}"));
            let l = s.below(nlev);
            g.levels[l].1.push(PrecRef::Tag(k));
        }
        g.levels.retain(|l| !l.1.is_empty());
        for i in 0..g.prods.len() {
            if !g.prods[i].rhs.is_empty() && s.chance(1, 8) {
                let nt = g.tags.len();
                g.prods[i].prec = Some(if nt > 0 && s.chance(2, 3) { PrecRef::Tag(s.below(nt)) } else { PrecRef::Tok(s.below(g.toks.len())) });
            }
        }
    }
    if o.preds {
        for i in 0..g.prods.len() {
            if s.chance(1, 8) {
                g.prods[i].pred = Some(i as u32);
            }
        }
    }
    g
}

/// Grammars with hundreds of conflicts: operators without precedence, productions for the same text.
pub fn conflicting(s: &mut Src) -> Gram {
    let nops = s.range(2, 24);
    let same = if s.chance(1, 2) { s.range(2, 28) } else { 0 };
    let lit = |i: usize| Tok { name: format!("T{i}"), lit: true, text: format!("{i}."), lexemes: vec![format!("{i}.")] };
    let mut g = Gram { toks: (0..nops + 2).map(lit).collect(), tags: vec![], levels: vec![], nts: vec!["E".into()], prods: vec![], skips: vec![r"(\s+)".into()], sr: 0, rr: 0 };
    let p = |lhs: usize, rhs: Vec<Sym>| Prod { lhs, rhs, prec: None, pred: None };
    for i in 0..nops {
        g.prods.push(p(0, vec![Sym::N(0), Sym::T(i), Sym::N(0)]));
    }
    g.prods.push(p(0, vec![Sym::T(nops)]));
    for i in 0..same {
        g.nts.push(format!("N{i}"));
        g.prods.push(p(0, if s.chance(1, 2) { vec![Sym::N(i + 1)] } else { vec![Sym::N(i + 1), Sym::T(s.below(nops + 2))] }));
    }
    for i in 0..same {
        g.prods.push(p(i + 1, vec![Sym::T(nops + 1)]));
    }
    s.shuffle(&mut g.prods[1..]);
    if s.chance(1, 2) {
        gen_precs(s, &mut g);
    }
    g
}

/// Mostly small grammars, now and then a large one.
pub fn mixed(s: &mut Src, o: &GOpts) -> Gram {
    if s.chance(1, 25) { large(s, o) } else { grammar(s, o) }
}
