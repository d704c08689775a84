//! Reading generated parsers: just enough of the language to turn the
//! generated functions into tables. What it cannot read is left to the
//! compiled path, which also has the last word on every difference.
use crate::gram::Gram;
use crate::sim::{Act, Tab};
use crate::td::LexSpec;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Num(u64),
    Str(String),
    P(char),
    Other,
}

pub fn lex(src: &str) -> Option<Vec<T>> {
    let c: Vec<char> = src.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && c.get(i + 1) == Some(&'*') {
            let mut depth = 0;
            while i < c.len() {
                if c[i] == '/' && c.get(i + 1) == Some(&'*') {
                    depth += 1;
                    i += 2;
                } else if c[i] == '*' && c.get(i + 1) == Some(&'/') {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if x == 'r' && matches!(c.get(i + 1), Some('"') | Some('#')) {
            let mut j = i + 1;
            let mut n = 0;
            while c.get(j) == Some(&'#') {
                n += 1;
                j += 1;
            }
            if c.get(j) != Some(&'"') {
                return None;
            }
            j += 1;
            let start = j;
            loop {
                if j >= c.len() {
                    return None;
                }
                if c[j] == '"' && (1..=n).all(|k| c.get(j + k) == Some(&'#')) {
                    break;
                }
                j += 1;
            }
            v.push(T::Str(c[start..j].iter().collect()));
            i = j + 1 + n;
        } else if x == '"' {
            let mut o = String::new();
            i += 1;
            loop {
                match c.get(i)? {
                    '"' => break,
                    '\\' => {
                        i += 1;
                        match c.get(i)? {
                            'n' => o.push('\n'),
                            't' => o.push('\t'),
                            'r' => o.push('\r'),
                            '0' => o.push('\0'),
                            '\\' => o.push('\\'),
                            '"' => o.push('"'),
                            '\'' => o.push('\''),
                            'u' => {
                                let end = c[i..].iter().position(|x| *x == '}')? + i;
                                let h: String = c[i + 2..end].iter().collect();
                                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                                i = end;
                            }
                            _ => return None,
                        }
                        i += 1;
                    }
                    y => {
                        o.push(*y);
                        i += 1;
                    }
                }
            }
            i += 1;
            v.push(T::Str(o));
        } else if x == '\'' {
            // character or lifetime
            if c.get(i + 2) == Some(&'\'') && c.get(i + 1) != Some(&'\\') {
                i += 3;
                v.push(T::Other);
            } else if c.get(i + 1) == Some(&'\\') {
                let end = c[i + 2..].iter().position(|x| *x == '\'')? + i + 2;
                i = end + 1;
                v.push(T::Other);
            } else {
                i += 1;
                v.push(T::Other);
            }
        } else if x.is_alphabetic() || x == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            v.push(T::Id(c[s..i].iter().collect()));
        } else if x.is_ascii_digit() {
            let mut n = 0u64;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '_') {
                if c[i] != '_' {
                    n = n.checked_mul(10)?.checked_add(c[i] as u64 - 48)?;
                }
                i += 1;
            }
            if i < c.len() && (c[i].is_alphabetic()) {
                // suffix
                while i < c.len() && c[i].is_alphanumeric() {
                    i += 1;
                }
            }
            v.push(T::Num(n));
        } else {
            v.push(T::P(x));
            i += 1;
        }
    }
    Some(v)
}

#[derive(Clone, Debug)]
enum E {
    Match(Vec<(Vec<Pat>, E)>),
    If(Vec<T>, Box<E>, Box<E>),
    Leaf(Vec<T>),
}

#[derive(Clone, Debug, PartialEq)]
enum Pat {
    Num(u64),
    Name(String),
    Any,
}

struct Cur<'a> {
    t: &'a [T],
    i: usize,
}

impl Cur<'_> {
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn is(&self, ch: char) -> bool {
        self.peek() == Some(&T::P(ch))
    }
    fn eat(&mut self, ch: char) -> Option<()> {
        if self.is(ch) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(T::Id(x)) if x == s)
    }
    /// Tokens up to (not including) one of the characters outside brackets.
    fn until(&mut self, stop: &[char]) -> Option<Vec<T>> {
        let mut depth = 0;
        let s = self.i;
        loop {
            match self.peek()? {
                T::P(x) if depth == 0 && stop.contains(x) => return Some(self.t[s..self.i].to_vec()),
                T::P('(' | '[' | '{') => depth += 1,
                T::P(')' | ']' | '}') => {
                    depth -= 1;
                    if depth < 0 {
                        return None;
                    }
                }
                _ => (),
            }
            self.i += 1;
        }
    }
    /// A block starting at `{`: leading `use` and `let` are passed over.
    fn block(&mut self) -> Option<E> {
        self.eat('{')?;
        while self.id("use") || self.id("let") {
            self.until(&[';'])?;
            self.eat(';')?;
        }
        let e = if self.is('}') { E::Leaf(vec![]) } else { self.expr(true)? };
        self.eat('}')?;
        Some(e)
    }
    fn expr(&mut self, in_block: bool) -> Option<E> {
        if self.id("match") {
            self.i += 1;
            self.until(&['{'])?;
            self.eat('{')?;
            let mut arms = vec![];
            while !self.is('}') {
                let p = self.until(&['='])?;
                self.eat('=')?;
                self.eat('>')?;
                let block = self.is('{');
                let e = self.expr(false)?;
                if !self.is('}') && (!block || self.is(',')) {
                    self.eat(',')?;
                }
                arms.push((pats(&p)?, e));
            }
            self.eat('}')?;
            return Some(E::Match(arms));
        }
        if self.id("if") {
            self.i += 1;
            let c = self.until(&['{'])?;
            let a = self.block()?;
            if !self.id("else") {
                return None;
            }
            self.i += 1;
            let b = if self.id("if") { self.expr(in_block)? } else { self.block()? };
            return Some(E::If(c, Box::new(a), Box::new(b)));
        }
        if self.is('{') {
            return self.block();
        }
        let v = self.until(&[',', '}'])?;
        if v.contains(&T::P(';')) {
            return None;
        }
        Some(E::Leaf(v))
    }
}

fn pats(t: &[T]) -> Option<Vec<Pat>> {
    t.split(|x| *x == T::P('|'))
        .map(|p| match p.last()? {
            T::Num(n) if p.len() == 1 => Some(Pat::Num(*n)),
            T::Id(s) if s == "_" => Some(Pat::Any),
            // a path; a lower case name alone would be a binding
            T::Id(s) => Some(Pat::Name(s.clone())),
            _ => None,
        })
        .collect()
}

impl E {
    /// The alternative for a state and a symbol, as far as matches go.
    fn eval(&self, n: u64, s: &str) -> Option<&E> {
        match self {
            E::Match(arms) => {
                for (ps, e) in arms {
                    if ps.iter().any(|p| match p {
                        Pat::Num(k) => *k == n,
                        Pat::Name(x) => x == s,
                        Pat::Any => true,
                    }) {
                        return e.eval(n, s);
                    }
                }
                None
            }
            _ => Some(self),
        }
    }
    fn nums(&self, out: &mut BTreeSet<u64>) {
        match self {
            E::Match(arms) => {
                for (ps, e) in arms {
                    for p in ps {
                        if let Pat::Num(n) = p {
                            out.insert(*n);
                        }
                    }
                    e.nums(out);
                }
            }
            E::If(_, a, b) => {
                a.nums(out);
                b.nums(out);
            }
            E::Leaf(_) => (),
        }
    }
}

fn is_panic(t: &[T]) -> bool {
    t.iter().any(|x| matches!(x, T::Id(s) if s == "panic" || s == "unreachable" || s == "unimplemented"))
}

fn find(t: &[T], pat: &[&str]) -> Option<usize> {
    let m = |a: &T, b: &str| match a {
        T::Id(s) => s == b,
        T::P(c) => b.len() == 1 && b.starts_with(*c),
        _ => false,
    };
    (0..t.len().saturating_sub(pat.len() - 1)).find(|i| pat.iter().enumerate().all(|(k, p)| m(&t[i + k], p)))
}

/// Body of a function.
fn body(t: &[T], name: &str) -> Option<E> {
    let i = find(t, &["fn", name])?;
    let mut c = Cur { t, i };
    // signature: up to the body, allowing for brackets
    c.until(&['{'])?;
    c.block()
}

/// Elements of a bracketed list starting at `open`.
fn list(t: &[T]) -> Option<Vec<Vec<T>>> {
    let open = t.first()?;
    if !matches!(open, T::P('[') | T::P('(')) {
        return None;
    }
    let mut c = Cur { t, i: 1 };
    let mut v = vec![];
    loop {
        if matches!(c.peek()?, T::P(']') | T::P(')')) {
            return Some(v);
        }
        let mut depth = 0;
        let s = c.i;
        loop {
            match c.peek()? {
                T::P(',') if depth == 0 => break,
                T::P('(' | '[' | '{') => depth += 1,
                T::P(')' | ']' | '}') => {
                    if depth == 0 {
                        break;
                    }
                    depth -= 1;
                }
                _ => (),
            }
            c.i += 1;
        }
        v.push(c.t[s..c.i].to_vec());
        if c.is(',') {
            c.i += 1;
        }
    }
}

fn end_of(t: &[T], i: usize) -> Option<usize> {
    let mut depth = 0;
    for (k, x) in t.iter().enumerate().skip(i) {
        match x {
            T::P('(' | '[' | '{') => depth += 1,
            T::P(')' | ']' | '}') => {
                depth -= 1;
                if depth == 0 {
                    return Some(k);
                }
            }
            _ => (),
        }
    }
    None
}

/// A generated parser as tables, with the numbering of `lalr`.
#[derive(Clone, Debug)]
pub struct Read {
    pub tab: Tab,
    pub rank: Vec<usize>,
    pub lex: LexSpec,
}

pub fn read(src: &str, g: &Gram) -> Option<Read> {
    let t = lex(src)?;
    // tokens
    let i = find(&t, &["enum", "AATerminal"])?;
    let e = list_braces(&t, i + 2)?;
    let mut names: Vec<String> = vec![];
    for x in e {
        match &x[..] {
            [T::Id(s)] => names.push(s.clone()),
            _ => return None,
        }
    }
    let tag = |s: &str| -> Option<usize> {
        if s == "AAEnd" {
            return Some(0);
        }
        g.toks.iter().position(|t| t.name == s).map(|k| k + 1)
    };
    let nt = |s: &str| -> Option<usize> {
        match s {
            "AAStart" => Some(0),
            "AAError" => Some(1),
            _ => g.nts.iter().position(|t| t == s).map(|k| k + 2),
        }
    };
    if names.len() != g.toks.len() + 1 {
        return None;
    }
    let mut rank = vec![usize::MAX; names.len()];
    for (r, n) in names.iter().enumerate() {
        rank[tag(n)?] = r;
    }
    if rank.contains(&usize::MAX) {
        return None;
    }
    // displays
    let i = find(&t, &["Display", "for", "AATerminal"])?;
    let d = body(&t[i..], "fmt")?;
    let mut shows = vec![String::new(); names.len()];
    for n in &names {
        let E::Leaf(v) = d.eval(u64::MAX, n)? else { return None };
        let strs: Vec<&String> = v.iter().filter_map(|x| if let T::Str(s) = x { Some(s) } else { None }).collect();
        let s = strs[..].first()?;
        if strs.len() != 1 || !matches!(v.first(), Some(T::Id(w)) if w == "write") {
            return None;
        }
        let un = s.replace("{{", "\u{1}").replace("}}", "\u{2}");
        if un.contains(['{', '}']) {
            return None;
        }
        shows[tag(n)?] = un.replace('\u{1}', "{").replace('\u{2}', "}");
    }
    // the lexical analyzer
    let i = find(&t, &["LexicalAnalyzer", ":", ":", "new", "("])? + 4;
    let args = list(&t[i..=end_of(&t, i)?])?;
    if args.len() != 4 {
        return None;
    }
    let inner = |a: &[T]| -> Option<Vec<Vec<T>>> {
        if a.first() != Some(&T::P('&')) {
            return None;
        }
        list(&a[1..])
    };
    let pair = |a: &[T]| -> Option<(usize, String)> {
        let v = list(a)?;
        match (&v.first()?[..], &v.get(1)?[..]) {
            ([.., T::Id(n)], [T::Str(s)]) => Some((tag(n)?, s.clone())),
            _ => None,
        }
    };
    let mut lx = LexSpec::default();
    for a in inner(&args[0])? {
        lx.lits.push(pair(&a)?);
    }
    for a in inner(&args[1])? {
        lx.res.push(pair(&a)?);
    }
    for a in inner(&args[2])? {
        match &a[..] {
            [T::Str(s)] => lx.skips.push(s.clone()),
            _ => return None,
        }
    }
    match args[3].last()? {
        T::Id(n) => lx.end = tag(n)?,
        _ => return None,
    }
    // tables
    let na = body(&t, "next_action")?;
    let mut states = BTreeSet::new();
    na.nums(&mut states);
    let ns = *states.last()? as usize + 1;
    if states.len() != ns {
        return None;
    }
    fn action(e: &E) -> Option<Act> {
        match e {
            E::Leaf(v) => {
                let num = || match v.iter().rev().find(|x| matches!(x, T::Num(_))) {
                    Some(T::Num(n)) => Some(*n as usize),
                    _ => None,
                };
                let has = |s: &str| v.iter().any(|x| matches!(x, T::Id(y) if y == s));
                if has("Shift") {
                    Some(Act::Shift(num()?))
                } else if has("Reduce") {
                    Some(Act::Reduce(num()?))
                } else if has("Accept") {
                    Some(Act::Accept)
                } else if has("SyntaxError") {
                    Some(Act::Err)
                } else {
                    None
                }
            }
            E::If(c, a, b) => {
                // a text of the right length first
                let c = match &c[..] {
                    [T::Str(x), T::P('.'), T::Id(l), T::P('('), T::P(')'), T::P('='), T::P('='), T::Num(n), T::P('&'), T::P('&'), rest @ ..] if l == "len" && x.len() as u64 == *n => rest,
                    c => c,
                };
                let i = find(c, &["pred", "("])? + 1;
                if !c[..i].iter().all(|x| matches!(x, T::P(':')) || matches!(x, T::Id(s) if s == "vrt" || s == "pred")) || end_of(c, i)? + 1 != c.len() {
                    return None;
                }
                let v = list(&c[i..])?;
                let [T::Num(k)] = &v.first()?[..] else { return None };
                let a2 = v.get(1)?;
                if a2.first() != Some(&T::P('&')) {
                    return None;
                }
                let mut pos = vec![];
                for x in list(&a2[1..])? {
                    let j = find(&x, &["at_len_minus_n", "("])?;
                    match (&x[j + 2], x.len() - j) {
                        (T::Num(n), 4) => pos.push(*n as usize),
                        _ => return None,
                    }
                }
                // the third argument must be the tag of the waiting token
                if !v.get(2)?.iter().any(|x| matches!(x, T::Id(s) if s.contains("tag"))) {
                    return None;
                }
                Some(Act::If(*k as u32, pos, Box::new(action(a)?), Box::new(action(b)?)))
            }
            E::Match(_) => None,
        }
    }
    let byname = |n: usize| -> &str { names[rank[n]].as_str() };
    let ntok = names.len();
    let mut act = vec![];
    for s in 0..ns {
        let mut row = vec![];
        for k in 0..ntok {
            row.push(action(na.eval(s as u64, byname(k))?)?);
        }
        act.push(row);
    }
    let ids = |v: &[T]| -> Option<Vec<usize>> {
        // ordered_set![A, B]
        let i = v.iter().position(|x| *x == T::P('['))?;
        list(&v[i..])?
            .iter()
            .map(|x| match x.last()? {
                T::Id(s) => tag(s),
                T::Num(n) => Some(*n as usize),
                _ => None,
            })
            .collect()
    };
    let leaf = |e: &E, n: u64, s: &str| -> Option<Option<Vec<T>>> {
        match e.eval(n, s) {
            None => Some(None),
            Some(E::Leaf(v)) if is_panic(v) => Some(None),
            Some(E::Leaf(v)) => Some(Some(v.clone())),
            Some(_) => None,
        }
    };
    let las = body(&t, "look_ahead_set")?;
    let mut la = vec![];
    for s in 0..ns {
        let mut v = match leaf(&las, s as u64, "")? {
            Some(v) => ids(&v)?,
            None => return None,
        };
        v.sort_by_key(|x| rank[*x]);
        v.dedup();
        la.push(v);
    }
    let vb = body(&t, "viable_error_recovery_states")?;
    let mut viable = vec![];
    for k in 0..ntok {
        let v = leaf(&vb, u64::MAX, byname(k))??;
        let i = v.iter().position(|x| *x == T::P('['))?;
        let mut set = BTreeSet::new();
        for x in list(&v[i..])? {
            match &x[..] {
                [T::Num(n)] => set.insert(*n as usize),
                _ => return None,
            };
        }
        viable.push(set);
    }
    let num_leaf = |v: Option<Vec<T>>| -> Option<Option<usize>> {
        match v {
            None => Some(None),
            Some(v) => match &v[..] {
                [T::Num(n)] => Some(Some(*n as usize)),
                _ => None,
            },
        }
    };
    let mut err_goto = vec![None; ns];
    if let Some(eg) = body(&t, "error_goto_state") {
        for (s, e) in err_goto.iter_mut().enumerate() {
            *e = num_leaf(leaf(&eg, s as u64, "")?)?;
        }
    }
    let gt = body(&t, "goto_state")?;
    let nts: Vec<String> = std::iter::once("AAStart".to_string()).chain(std::iter::once("AAError".to_string())).chain(g.nts.iter().cloned()).collect();
    let mut gotos = vec![BTreeMap::new(); ns];
    for (s, m) in gotos.iter_mut().enumerate() {
        for n in &nts {
            if let Some(j) = num_leaf(leaf(&gt, s as u64, n)?)? {
                m.insert(nt(n)?, j);
            }
        }
    }
    let pd = body(&t, "production_data")?;
    let mut pn = BTreeSet::new();
    pd.nums(&mut pn);
    let np = *pn.last()? as usize + 1;
    if pn.len() != np {
        return None;
    }
    let marks = markers(&t)?;
    let mut prods = vec![];
    for k in 0..np {
        let v = leaf(&pd, k as u64, "")??;
        let p = list(&v)?;
        match (p.first()?.last()?, p.get(1)?.last()?) {
            (T::Id(n), T::Num(len)) => prods.push((nt(n)?, *len as usize, marks.get(&(k as u64)).copied())),
            _ => return None,
        }
    }
    Some(Read { tab: Tab { names: shows, act, gotos, err_goto, viable, la, prods, acts: BTreeMap::new(), scale: 0 }, rank, lex: lx })
}

fn list_braces(t: &[T], i: usize) -> Option<Vec<Vec<T>>> {
    if t.get(i)? != &T::P('{') {
        return None;
    }
    let e = end_of(t, i)?;
    let v = t[i + 1..e].split(|x| *x == T::P(',')).filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect();
    Some(v)
}

/// Which marker the action of every production carries. The arms of the
/// action function contain arbitrary code, so only `N => … red(K` is looked for.
fn markers(t: &[T]) -> Option<BTreeMap<u64, u32>> {
    let i = find(t, &["fn", "do_semantic_action"])?;
    let mut c = Cur { t, i };
    c.until(&['{'])?;
    let end = end_of(t, c.i)?;
    let b = &t[c.i..=end];
    let m = find(b, &["match"])?;
    let mut c = Cur { t: b, i: m };
    c.until(&['{'])?;
    let close = end_of(b, c.i)?;
    c.i += 1;
    let mut out = BTreeMap::new();
    while c.i < close {
        let p = c.until(&['='])?;
        c.eat('=')?;
        c.eat('>')?;
        let s = c.i;
        if c.is('{') {
            c.i = end_of(b, c.i)? + 1;
        } else {
            c.until(&[',', '}'])?;
        }
        let arm = &b[s..c.i];
        if c.is(',') {
            c.i += 1;
        }
        for q in pats(&p)? {
            if let Pat::Num(n) = q
                && let Some(j) = find(arm, &["red", "("])
                && let Some(T::Num(k)) = arm.get(j + 2)
            {
                out.insert(n, *k as u32);
            }
        }
    }
    Some(out)
}
