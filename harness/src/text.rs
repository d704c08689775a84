//! Input texts for parsers, as token sequences with junk, and their reading by the tokeniser.
use crate::gram::{Gram, Sym};
use crate::lalr::Auto;
use crate::sim::{In, Stream};
use crate::tape::Src;
use crate::td::LexSpec;

#[derive(Clone, Debug, PartialEq)]
pub enum TI {
    /// Token number (1-based) and which of its lexemes.
    Tok(usize, usize),
    /// Text no pattern matches.
    Junk(usize),
}

pub const JUNK: [&str; 4] = ["@", "~~", "é", "\u{feff}!@"];

/// Writes the items separated by blanks (`sep` chooses which) and reads them back.
pub fn write(g: &Gram, items: &[TI], seps: &[usize], label: &str) -> (String, Stream) {
    let mut text = String::new();
    let mut out = vec![];
    let (mut line, mut off) = (1usize, 1usize);
    let put = |s: &str, text: &mut String, line: &mut usize, off: &mut usize| {
        text.push_str(s);
        for b in s.bytes() {
            if b == b'\n' {
                *line += 1;
                *off = 1;
            } else {
                *off += 1;
            }
        }
    };
    let lab = if label.is_empty() { String::new() } else { format!("{label}:") };
    for (i, it) in items.iter().enumerate() {
        let k = seps.get(i).copied().unwrap_or(0);
        let sep = if i == 0 { ["", " ", "\n"][k % 3] } else { [" ", "\n", "  ", "\r\n", "\t"][k % 5] };
        put(sep, &mut text, &mut line, &mut off);
        let loc = format!("{lab}{line}:{off}");
        match it {
            TI::Tok(t, l) => {
                let v = &g.toks[t - 1].lexemes;
                let x = &v[l % v.len()];
                put(x, &mut text, &mut line, &mut off);
                out.push(In::Tok { tag: *t, lexeme: x.clone(), loc });
            }
            TI::Junk(k) => {
                let x = JUNK[k % JUNK.len()];
                put(x, &mut text, &mut line, &mut off);
                out.push(In::Bad { msg: format!("Unexpected text {x} at  {loc}") });
            }
        }
    }
    if seps.len() > items.len() {
        put(["", "\n", " \n\n "][seps[items.len()] % 3], &mut text, &mut line, &mut off);
    }
    (text, Stream { items: out, end_loc: format!("{lab}{line}:{off}") })
}

pub fn lexspec(g: &Gram) -> LexSpec {
    let mut l = LexSpec { end: 0, ..LexSpec::default() };
    for (i, t) in g.toks.iter().enumerate() {
        if t.lit {
            l.lits.push((i + 1, t.text.clone()));
        } else {
            l.res.push((i + 1, t.text.clone()));
        }
    }
    l.skips = g.skips.clone();
    l
}

/// Token displays and print ranks (end marker first, then by name).
pub fn names(g: &Gram) -> (Vec<String>, Vec<usize>) {
    let mut n = vec!["AAEnd".to_string()];
    n.extend((0..g.toks.len()).map(|t| g.tok_display(t)));
    let mut order: Vec<usize> = (0..g.toks.len()).collect();
    order.sort_by(|a, b| g.toks[*a].name.cmp(&g.toks[*b].name));
    let mut rank = vec![0; g.toks.len() + 1];
    for (r, t) in order.iter().enumerate() {
        rank[t + 1] = r + 1;
    }
    (n, rank)
}

/// Random sentence of the grammar (token numbers), if the start symbol derives one.
pub fn sentence(s: &mut Src, g: &Gram, yields: &[Option<Vec<usize>>], budget: usize) -> Option<Vec<usize>> {
    yields[2 + g.prods[0].lhs].as_ref()?;
    let mut out = vec![];
    let mut fuel = budget;
    // left to right expansion; when the fuel is gone shortest yields are used
    let mut stack = vec![Sym::N(g.prods[0].lhs)];
    while let Some(x) = stack.pop() {
        match x {
            Sym::T(t) => out.push(t + 1),
            Sym::Err => (),
            Sym::N(n) => {
                if fuel == 0 || out.len() > 40 {
                    out.extend(yields[n + 2].as_ref()?);
                    continue;
                }
                fuel -= 1;
                let ps: Vec<usize> = (0..g.prods.len()).filter(|i| g.prods[*i].lhs == n && g.prods[*i].rhs.iter().all(|y| if let Sym::N(m) = y { yields[m + 2].is_some() } else { true })).collect();
                let p = *s.pick(&ps);
                for y in g.prods[p].rhs.iter().rev() {
                    stack.push(*y);
                }
            }
        }
    }
    if out.len() > 200 { None } else { Some(out) }
}

/// A sentence of about `size` tokens: one recursion of the grammar taken very often.
pub fn pumped(s: &mut Src, g: &Gram, yields: &[Option<Vec<usize>>], size: usize) -> Option<Vec<usize>> {
    yields[2 + g.prods[0].lhs].as_ref()?;
    let fits = |p: &crate::gram::Prod| p.rhs.iter().all(|y| if let Sym::N(m) = y { yields[m + 2].is_some() } else { true });
    let of = |x: &[Sym]| -> Vec<usize> {
        x.iter()
            .flat_map(|y| match y {
                Sym::T(t) => vec![t + 1],
                Sym::Err => vec![],
                Sym::N(n) => yields[n + 2].clone().unwrap(),
            })
            .collect()
    };
    // a walk down the grammar: symbol, what it writes on either side
    let mut walk: Vec<(usize, Vec<usize>, Vec<usize>)> = vec![];
    let mut at = g.prods[0].lhs;
    for _ in 0..24 {
        let ways: Vec<(usize, usize)> = g.prods.iter().enumerate().filter(|(_, p)| p.lhs == at && fits(p)).flat_map(|(i, p)| p.rhs.iter().enumerate().filter(|(_, y)| matches!(y, Sym::N(_))).map(move |(j, _)| (i, j))).collect();
        if ways.is_empty() {
            return None;
        }
        let (i, j) = *s.pick(&ways);
        let rhs = &g.prods[i].rhs;
        walk.push((at, of(&rhs[..j]), of(&rhs[j + 1..])));
        let Sym::N(n) = rhs[j] else { unreachable!() };
        at = n;
        let Some(b) = walk.iter().position(|w| w.0 == at) else { continue };
        let (head, lap) = walk.split_at(b);
        let one: usize = lap.iter().map(|w| w.1.len() + w.2.len()).sum();
        if one == 0 {
            continue;
        }
        let k = size / one;
        let mut out: Vec<usize> = head.iter().flat_map(|w| w.1.clone()).collect();
        let (u, v): (Vec<usize>, Vec<usize>) = (lap.iter().flat_map(|w| w.1.clone()).collect(), lap.iter().rev().flat_map(|w| w.2.clone()).collect());
        (0..k).for_each(|_| out.extend(&u));
        out.extend(yields[at + 2].as_ref().unwrap());
        (0..k).for_each(|_| out.extend(&v));
        out.extend(head.iter().rev().flat_map(|w| w.2.clone()));
        return Some(out);
    }
    None
}

/// Texts for a grammar: every state with every token, sentences, broken sentences, noise.
/// The first part needs no choices.
pub fn texts(s: &mut Src, g: &Gram, a: &Auto, cover: usize, random: usize, junk: bool) -> Vec<Vec<TI>> {
    let mut out: Vec<Vec<TI>> = vec![];
    let y = a.yields();
    let nt = g.toks.len();
    let acc = a.access();
    let tail = y[2 + g.prods[0].lhs].clone().unwrap_or_default();
    let mut n = 0;
    let offset = if a.states.len() * (nt + 1) > cover { s.below(97) } else { 0 };
    let acc: &[_] = if cover == 0 { &[] } else { &acc };
    'c: for (si, w) in acc.iter().enumerate() {
        let Some(w) = w else { continue };
        for t in 0..=nt {
            if a.states.len() * (nt + 1) > cover && (si * 31 + t * 17 + offset) % (a.states.len() * (nt + 1) / cover + 1) != 0 {
                continue;
            }
            let mut v: Vec<TI> = w.iter().map(|t| TI::Tok(*t, 0)).collect();
            if t > 0 {
                v.push(TI::Tok(t, 0));
                if (si + t) % 3 == 0 {
                    v.extend(w.iter().rev().take(2).map(|t| TI::Tok(*t, 0)));
                } else if (si + t) % 3 == 1 {
                    v.extend(tail.iter().take(3).map(|t| TI::Tok(*t, 0)));
                }
            }
            out.push(v);
            n += 1;
            if n >= cover {
                break 'c;
            }
        }
    }
    for _ in 0..random {
        let b = s.range(1, 12);
        let mut v: Vec<TI> = match sentence(s, g, &y, b) {
            Some(v) => v.into_iter().map(|t| TI::Tok(t, 0)).collect(),
            None => (0..s.below(6)).map(|_| TI::Tok(s.range(1, nt), 0)).collect(),
        };
        for x in v.iter_mut() {
            if let TI::Tok(t, l) = x
                && g.toks[*t - 1].lexemes.len() > 1
            {
                *l = s.below(3);
            }
        }
        for _ in 0..s.weighted(&[3, 3, 2, 1]) {
            let at = s.below(v.len() + 1);
            match s.below(if junk { 5 } else { 4 }) {
                0 => v.insert(at, TI::Tok(s.range(1, nt), s.below(3))),
                1 => {
                    if at < v.len() {
                        v.remove(at);
                    }
                }
                2 => {
                    if at < v.len() {
                        v[at] = TI::Tok(s.range(1, nt), s.below(3));
                    }
                }
                3 => v.truncate(at),
                _ => v.insert(at, TI::Junk(s.below(4))),
            }
        }
        out.push(v);
    }
    out
}

pub fn show(g: &Gram, items: &[TI]) -> String {
    let v: Vec<String> = items
        .iter()
        .map(|i| match i {
            TI::Tok(t, l) => g.toks[t - 1].lexemes[l % g.toks[t - 1].lexemes.len()].clone(),
            TI::Junk(k) => JUNK[k % JUNK.len()].into(),
        })
        .collect();
    format!("`{}`", v.join(" "))
}
