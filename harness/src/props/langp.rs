//! C30: the specification language.
use super::crashp::near_text;
use crate::cli::{self, Aug, BOTH, LIMIT, Which};
use crate::run::*;
use crate::tape::{Src, hash_str, mix};
use std::collections::BTreeSet;

/// The kinds of tokens.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum T {
    Fixed(&'static str),
    Ident,
    Literal,
    Regex,
    Number,
    Action,
    Predicate,
    Code,
    End,
}
use T::*;

const FIXED: [&str; 16] = ["%reduce_reduce", "%shift_reduce", "%nonassoc", "%target", "%inject", "%token", "%right", "%error", "%attr", "%left", "%prec", "%skip", "%%", ":", "|", "."];

/// One of the alternatives of a nonterminal.
#[derive(Clone, Copy, Debug)]
enum X {
    N(&'static str),
    T(T),
}

fn grammar(aug: bool) -> Vec<(&'static str, Vec<X>)> {
    let text = "
        Spec > Pre Conf %% Defs %% Rules
        Pre >
        Pre > code
        Conf > Attr Target Conflicts
        Conf > Target Attr Conflicts
        Attr > %attr ident
        Target > %target ident
        Conflicts >
        Conflicts > RR
        Conflicts > SR
        Conflicts > RR SR
        Conflicts > SR RR
        RR > %reduce_reduce number
        SR > %shift_reduce number
        Defs > Toks Skips Precs
        Toks > Tok
        Toks > Toks Tok
        Tok > %token ident literal
        Tok > %token ident regex
        Skips >
        Skips > Skips %skip regex
        Precs >
        Precs > Precs Assoc Tags
        Assoc > %left
        Assoc > %right
        Assoc > %nonassoc
        Tags > Name
        Tags > Tags Name
        Name > ident
        Name > literal
        Rules > Group
        Rules > Rules Group
        Group > ident : Tails .
        Tails > Tail
        Tails > Tails | Tail
        Tail > OptAct
        Tail > Pred OptAct
        Tail > Syms OptPred OptPrec OptAct
        OptPred >
        OptPred > Pred
        Pred > predicate
        OptPrec >
        OptPrec > %prec Name
        OptAct >
        OptAct > action
        Syms > Sym
        Syms > Syms Sym
        Sym > Name
        Sym > %error";
    let mut g = vec![];
    for l in text.lines().filter(|l| !l.trim().is_empty()) {
        let (lhs, rhs) = l.split_once('>').unwrap();
        let rhs: Vec<X> = rhs
            .split_whitespace()
            .map(|w| match w {
                "ident" => X::T(Ident),
                "literal" => X::T(Literal),
                "regex" => X::T(Regex),
                "number" => X::T(Number),
                "action" => X::T(Action),
                "predicate" => X::T(Predicate),
                "code" => X::T(Code),
                w => match FIXED.iter().find(|f| **f == w) {
                    Some(f) => X::T(Fixed(f)),
                    None => X::N(w),
                },
            })
            .collect();
        // only the one generator has predicates
        if aug || !rhs.iter().any(|x| matches!(x, X::T(Predicate))) {
            g.push((lhs.trim(), rhs));
        }
    }
    g
}

struct Lang {
    /// Nonterminals as numbers, 0 the start.
    prods: Vec<(usize, Vec<Result<T, usize>>)>,
}

impl Lang {
    fn new(aug: bool) -> Lang {
        let g = grammar(aug);
        let mut names: Vec<&'static str> = vec![];
        for (l, _) in &g {
            if !names.contains(l) {
                names.push(l);
            }
        }
        // what is never defined (predicates of the plain generator) has no alternative
        for (_, r) in &g {
            for x in r {
                if let X::N(n) = x
                    && !names.contains(n)
                {
                    names.push(n);
                }
            }
        }
        let no = |n: &str| names.iter().position(|m| *m == n).unwrap();
        let prods = g.iter().map(|(l, r)| (no(l), r.iter().map(|x| if let X::N(n) = x { Err(no(n)) } else if let X::T(t) = x { Ok(*t) } else { unreachable!() }).collect())).collect();
        Lang { prods }
    }
    fn of(w: Which) -> &'static Lang {
        use std::sync::OnceLock;
        static L: OnceLock<(Lang, Lang)> = OnceLock::new();
        let l = L.get_or_init(|| (Lang::new(false), Lang::new(true)));
        if w == Aug { &l.1 } else { &l.0 }
    }
    /// The first of the tokens that cannot continue any sentence; the last one has to be the end.
    fn offending(&self, toks: &[T]) -> Option<usize> {
        type Item = (usize, usize, usize);
        let mut sets: Vec<Vec<Item>> = vec![];
        let mut cur: Vec<Item> = self.prods.iter().enumerate().filter(|(_, p)| p.0 == 0).map(|(i, _)| (i, 0, 0)).collect();
        for (i, t) in toks.iter().enumerate() {
            let mut seen: BTreeSet<Item> = cur.iter().copied().collect();
            let mut next = vec![];
            let mut ends = false;
            let mut k = 0;
            let mut empty: BTreeSet<usize> = BTreeSet::new();
            while k < cur.len() {
                let (p, d, from) = cur[k];
                k += 1;
                let mut add = |it: Item, cur: &mut Vec<Item>| {
                    if seen.insert(it) {
                        cur.push(it);
                    }
                };
                match self.prods[p].1.get(d) {
                    Some(Ok(x)) => {
                        if x == t {
                            next.push((p, d + 1, from));
                        }
                    }
                    Some(Err(n)) => {
                        for (q, pr) in self.prods.iter().enumerate() {
                            if pr.0 == *n {
                                add((q, 0, i), &mut cur);
                            }
                        }
                        if empty.contains(n) {
                            add((p, d + 1, from), &mut cur);
                        }
                    }
                    None => {
                        let n = self.prods[p].0;
                        if n == 0 {
                            ends = true;
                        }
                        let back: Vec<Item> = if from == i { cur.clone() } else { sets[from].clone() };
                        if from == i {
                            empty.insert(n);
                        }
                        for (q, e, f) in back {
                            if self.prods[q].1.get(e) == Some(&Err(n)) {
                                add((q, e + 1, f), &mut cur);
                            }
                        }
                    }
                }
            }
            if *t == End {
                return (!ends).then_some(i);
            }
            if next.is_empty() {
                return Some(i);
            }
            sets.push(std::mem::replace(&mut cur, next));
        }
        None
    }
    /// A random sentence.
    fn sentence(&self, s: &mut Src, n: usize, budget: &mut usize, out: &mut Vec<T>) {
        let alts: Vec<&Vec<Result<T, usize>>> = self.prods.iter().filter(|p| p.0 == n && p.1.iter().all(|x| x.is_ok_and(|_| true) || x.is_err_and(|m| self.prods.iter().any(|q| q.0 == m)))).map(|p| &p.1).collect();
        let a = if *budget == 0 {
            alts.iter().copied().filter(|a| !a.contains(&Err(n))).min_by_key(|a| a.len()).unwrap()
        } else {
            *budget -= 1;
            *s.pick(&alts)
        };
        for x in a {
            match x {
                Ok(t) => out.push(*t),
                Err(m) => self.sentence(s, *m, budget, out),
            }
        }
    }
}

/// A token of the text: its kind, if it is one, where it begins.
struct Read {
    toks: Vec<T>,
    at: Vec<usize>,
    /// Where there is no token although there is text.
    stuck: Option<usize>,
}

fn after(text: &str, from: usize, end: &str) -> Option<usize> {
    text[from..].find(end).map(|i| from + i + end.len())
}

/// The end of the literal that begins at `from`: a quote mark after a backslash is part of it, unless
/// no other one ends it on its line.
fn literal(b: &[u8], from: usize) -> Option<usize> {
    // what there is to go back to
    let mut back = vec![];
    let mut i = from + 1;
    loop {
        let again = match b.get(i) {
            Some(b'"') => return Some(i + 1),
            Some(b'\\') if b.get(i + 1) == Some(&b'"') => {
                back.push(i + 1);
                i += 2;
                false
            }
            None | Some(b'\t' | b'\r' | b'\n' | 0x0b | 0x0c) => true,
            Some(_) => {
                i += 1;
                false
            }
        };
        if again {
            i = back.pop()?;
        }
    }
}

fn token(text: &str, i: usize, aug: bool) -> Option<(T, usize)> {
    let b = text.as_bytes();
    let r = &text[i..];
    if let Some(f) = FIXED.iter().filter(|f| r.starts_with(**f)).max_by_key(|f| f.len()) {
        return Some((Fixed(f), i + f.len()));
    }
    match b[i] {
        b'%' if r.starts_with("%{") => after(text, i + 2, "%}").map(|e| (Code, e)),
        b'!' if r.starts_with("!{") => after(text, i + 2, "!}").map(|e| (Action, e)),
        b'?' if aug && r.starts_with("?(") => after(text, i + 2, "?)").map(|e| (Predicate, e)),
        b'"' => literal(b, i).map(|e| (Literal, e)),
        b'(' => {
            let line = r.split('\n').next().unwrap();
            let close = line.rfind(')')?;
            (close > 1).then_some((Regex, i + close + 1))
        }
        c if c.is_ascii_alphabetic() => Some((Ident, i + r.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(r.len()))),
        c if c.is_ascii_digit() => Some((Number, i + r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()))),
        _ => None,
    }
}

fn read(text: &str, aug: bool) -> Read {
    let (mut toks, mut at) = (vec![], vec![]);
    let mut i = 0;
    loop {
        let r = &text[i..];
        if r.is_empty() {
            toks.push(End);
            at.push(i);
            return Read { toks, at, stuck: None };
        }
        if let Some(c) = r.chars().next().filter(|c| c.is_whitespace()) {
            i += c.len_utf8();
        } else if let Some(e) = r.starts_with("/*").then(|| after(text, i + 2, "*/")).flatten() {
            i = e;
        } else if r.starts_with("//") {
            i += r.find(['\n', '\r']).unwrap_or(r.len());
        } else if let Some((t, e)) = token(text, i, aug) {
            toks.push(t);
            at.push(i);
            i = e;
        } else {
            return Read { toks, at, stuck: Some(i) };
        }
    }
}

fn place(text: &str, i: usize) -> (usize, usize) {
    let before = &text[..i];
    (before.matches('\n').count() + 1, i - before.rfind('\n').map_or(0, |n| n + 1) + 1)
}

fn written(s: &mut Src, t: T) -> String {
    const NAMES: [&str; 12] = ["A", "B", "S", "Expr", "x", "y9", "a_b", "VAttr", "UMINUS", "aa1", "AAb", "Z_"];
    match t {
        Fixed(f) => f.to_string(),
        Ident => s.pick(&NAMES).to_string(),
        Literal => s.pick(&["\"a\"", "\"+\"", "\"b\"", "\"\\\"\"", "\"a\\\"b\"", "\"\\\\\"", "\"//\"", "\"/*\"", "\"%%\"", "\" \"", "\"é\"", "\"\""]).to_string(),
        Regex => format!("{}\n", s.pick(&["([a-z])", "([0-9]+)", "(a|b)", "(x(y))", "( )", "(\")", "(//)", "([)", "(a) (b)", "(%%.)"])),
        Number => s.pick(&["0", "1", "2", "17", "4294967295", "4294967296"]).to_string(),
        Action => s.pick(&["!{!}", "!{ $$ = $1.clone(); !}", "!{\n // %%\n!}", "!{ { } !}", "!{ . | !}", "!{ !{ !}"]).to_string(),
        Predicate => s.pick(&["?(true?)", "?( $1 == $2 ?)", "?(\n?)", "?( ( ) ?)", "?(.?)"]).to_string(),
        Code => s.pick(&["%{%}", "%{ use x; %}", "%{\n%%\n%}", "%{ /* %{ %}"]).to_string(),
        End => String::new(),
    }
}

/// Text that looks like a token of a kind, and may be one.
fn nearly(s: &mut Src, t: T) -> String {
    let inside = *s.pick(&["\t", "\u{b}", "\u{c}", "\n", "\r", "\\", "\"", "\\\\", "\u{a0}", "_", "é", "-", "?", "'", "#", "0", "x", "%", "/", "*", "(", ")"]);
    let mut text = match t {
        End => "@".to_string(),
        t => written(s, t),
    };
    let ends: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
    let i = *s.pick(&ends);
    match s.below(4) {
        0 => text.insert_str(i, inside),
        1 => text.insert_str(0, inside),
        2 => text.push_str(inside),
        _ => {
            text = text.chars().enumerate().map(|(j, c)| if s.chance(1, 8) || ends[j] == i { if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } else { c }).collect();
        }
    }
    text
}

fn any_token(s: &mut Src) -> T {
    const KINDS: [T; 7] = [Ident, Literal, Regex, Number, Action, Predicate, Code];
    if s.chance(1, 2) {
        *s.pick(&KINDS)
    } else {
        // no inclusion
        loop {
            let f = *s.pick(&FIXED);
            if f != "%inject" {
                return Fixed(f);
            }
        }
    }
}

fn sentence(s: &mut Src, w: Which) -> String {
    let l = Lang::of(w);
    let mut v = vec![];
    let mut budget = *s.pick(&[30, 60, 120, 300]);
    l.sentence(s, 0, &mut budget, &mut v);
    for _ in 0..s.weighted(&[4, 5, 2, 1]) {
        let i = s.below(v.len());
        match s.below(6) {
            0 => {
                v.remove(i);
            }
            1 | 2 => v.insert(i, any_token(s)),
            3 => v[i] = any_token(s),
            4 => {
                let j = s.below(v.len());
                v.swap(i, j);
            }
            _ => {
                let t = v[i];
                v.insert(i, t);
            }
        }
        if v.is_empty() {
            v.push(any_token(s));
        }
    }
    // what is nearly a token
    let odd = s.chance(1, 4).then(|| s.below(v.len()));
    let mut t = String::new();
    for (i, k) in v.into_iter().enumerate() {
        if odd == Some(i) {
            t += &nearly(s, k);
            t += *s.pick(&["", " ", "\n"]);
            continue;
        }
        t += &written(s, k);
        t += match s.below(18) {
            0..8 => " ",
            16 => "// | %%\r",
            17 => "/***/ /*//*/\u{2028}",
            8 => "\n",
            9 => "\t",
            10 => "\r\n",
            11 => " // .\n",
            12 => " /* | \n * %% **/",
            13 => "\u{a0}\u{b}",
            14 => "\u{c}",
            _ => "",
        };
    }
    t
}

pub fn c30() -> Prop {
    let f = |ctx: &mut Ctx, text: &str| -> R {
        ctx.show(|| text.to_string());
        let d = cli::fresh_dir(ctx)?;
        std::fs::write(d.join("s"), text).map_err(|e| Stop::Error(e.to_string()))?;
        std::fs::write(d.join("plan"), "thread\nplain\tparse\ts\t-\naug\tparse\ts\t-\n").map_err(|e| Stop::Error(e.to_string()))?;
        let e = cli::exec(&std::env::current_exe().unwrap(), &["worker", "plan"], &d, LIMIT).map_err(Stop::Error)?;
        if let Some(c) = e.crash() {
            return fail("crash", format!("{c} on reading the specification\n{text}"));
        }
        let mut kinds = BTreeSet::new();
        for (k, w) in BOTH.into_iter().enumerate() {
            let r = read(text, w == Aug);
            // what is included is another matter (C21), and what follows it
            let included = r.toks.iter().position(|t| *t == Fixed("%inject"));
            let n = included.unwrap_or(r.toks.len());
            let off = Lang::of(w).offending(&r.toks[..n]).map(|i| r.at[i]);
            let want = match (off, included, r.stuck) {
                (Some(i), _, _) => format!("refused at {}:{}", place(text, i).0, place(text, i).1),
                (None, Some(_), _) => {
                    kinds.insert("includes something");
                    continue;
                }
                (None, None, Some(i)) => format!("no token at {}:{}", place(text, i).0, place(text, i).1),
                (None, None, None) => "read".to_string(),
            };
            kinds.insert(if want == "read" { "a specification" } else if off.is_some() { "a token that cannot continue" } else { "text that is no token" });
            let head = format!("0.{k} ");
            let Some(got) = e.stdout.lines().find_map(|l| l.strip_prefix(&head)) else {
                return err(format!("no outcome from the worker: {}", cli::tail(&e.stderr)));
            };
            if got != want {
                return fail(if want == "read" { "refused" } else if got == "read" { "accepted" } else { "elsewhere" }, format!("{}: {got:?} instead of {want:?} for the text\n{text}", w.cmd()));
            }
        }
        for k in &kinds {
            ctx.class(k);
        }
        if kinds.iter().all(|k| *k == "includes something") {
            ctx.case(None);
        } else {
            ctx.case(Some(mix(&[hash_str(text)])));
        }
        Ok(())
    };
    let g = move |s: &mut Src, ctx: &mut Ctx| -> R {
        let w = *s.pick(&BOTH);
        let text = sentence(s, w);
        f(ctx, &text)
    };
    let h = move |s: &mut Src, ctx: &mut Ctx| -> R {
        let w = *s.pick(&BOTH);
        let text = near_text(s, w);
        f(ctx, &text)
    };
    Prop {
        id: "C30",
        rule: "A case is one text, read by the specification readers of both libraries; what they say is compared with an Earley recogniser of the specification language over a scanner written by hand: a specification, or else the first place where the text cannot go on being one. Non-trivial unless the text is only decidable up to an inclusion in both languages. Distinct by text.",
        assumptions: vec!["texts are compared up to the first %inject (C21 deals with inclusion)", "the language is that described by the comments and productions of parser.laps and parser.alaps, restated by hand"],
        suites: vec![suite("sentences", 6000, 120000, g), suite("damaged specifications", 3000, 60000, h)],
    }
}
