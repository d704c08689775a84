//! C26: the report of states against the generated parser and the automaton.
use super::genp::{IGNORE, tkey};
use super::specp::{any_grammar, run_ok};
use crate::cli::{Aug, BOTH};
use crate::gram::{Assoc, Gram, PrecRef};
use crate::lalr::{Auto, Bits, ERROR, P, S, START};
use crate::pipe::{self, Ref};
use crate::run::*;
use crate::rust;
use crate::sim::{Act, Tab};
use crate::spec::{self, Style};
use crate::tape::{Src, hash_str, mix};
use crate::text;
use std::collections::{BTreeMap, BTreeSet};

fn nt_name(g: &Gram, n: usize) -> String {
    match n {
        START => "AAStart".into(),
        ERROR => "AAError".into(),
        _ => g.nts[n - 2].clone(),
    }
}

fn tok_name(g: &Gram, t: usize) -> String {
    if t == 0 { "AAEnd".into() } else { g.tok_display(t - 1) }
}

fn sym_name(g: &Gram, s: &S) -> String {
    match s {
        S::T(t) => tok_name(g, *t),
        S::N(n) => nt_name(g, *n),
    }
}

/// `lhs: symbols`, with a dot if asked for.
fn plain(g: &Gram, p: &P, dot: Option<usize>) -> String {
    let mut v: Vec<String> = p.rhs.iter().map(|s| sym_name(g, s)).collect();
    if v.is_empty() {
        v.push("<empty>".into());
    }
    if let Some(d) = dot {
        v.insert(d, ".".into());
    }
    format!("{}: {}", nt_name(g, p.lhs), v.join(" "))
}

/// The text before the precedence of a production or item, with single blanks.
fn head(l: &str) -> String {
    l.split(" #(").next().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ")
}

/// The precedence of a production or item.
fn prec(l: &str) -> String {
    l.rfind(" #(").and_then(|i| l[i + 3..].find(')').map(|j| l[i + 3..i + 3 + j].to_string())).unwrap_or_default()
}

fn prec_name((a, n): (Assoc, u16)) -> String {
    let a = match a {
        Assoc::Left => "Left",
        Assoc::Right => "Right",
        Assoc::Non => "NonAssoc",
    };
    format!("{a}, {n}")
}

fn bits(b: Bits, n: usize) -> Vec<usize> {
    (0..n).filter(|t| b >> t & 1 == 1).collect()
}

/// The list of symbols.
fn symbols(g: &Gram, a: &Auto, rep: &Report) -> Result<(), String> {
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut add = |sect: &str, line: String| want.entry(format!("Symbols: {sect}:")).or_default().push(line);
    add("Tokens", format!("AAEnd(): #({})", prec_name((Assoc::Non, 0))));
    for (i, t) in g.toks.iter().enumerate() {
        let text = if t.lit { format!("\"{}\"", t.text) } else { t.text.clone() };
        add("Tokens", format!("{}({text}): #({})", t.name, prec_name(g.prec_of(PrecRef::Tok(i)))));
    }
    for (i, t) in g.tags.iter().enumerate() {
        if g.levels.iter().any(|l| l.1.contains(&PrecRef::Tag(i))) {
            add("Tags", format!("{t}: #({})", prec_name(g.prec_of(PrecRef::Tag(i)))));
        }
    }
    for v in want.values_mut() {
        v.sort();
    }
    for (sect, v) in &want {
        let mut got = rep.symbols.get(sect).cloned().unwrap_or_default();
        got.sort();
        if got != *v {
            return Err(format!("lists under {sect:?} {got:?} instead of {v:?}"));
        }
    }
    let mut seen = BTreeSet::new();
    for l in rep.symbols.get("Symbols: Non Terminal Symbols:").into_iter().flatten() {
        let bad = || format!("{l:?} in the list of symbols");
        let (name, x) = l.split_once(": TokenSet{").ok_or_else(bad)?;
        let (x, e) = x.rsplit_once("}:(").ok_or_else(bad)?;
        let n = (0..g.nts.len() + 2).find(|n| nt_name(g, *n) == name && (*n != ERROR || g.uses_error())).ok_or_else(bad)?;
        let mut first = tokens(g, x).ok_or_else(bad)?;
        first.sort();
        let nullable = e == "true)";
        if first != bits(a.first[n], a.ntok) || nullable != a.nullable[n] {
            return Err(format!("says {l:?}, but the first tokens are {:?}, and that it can be empty is {}", bits(a.first[n], a.ntok).iter().map(|t| tok_name(g, *t)).collect::<Vec<_>>(), a.nullable[n]));
        }
        seen.insert(n);
    }
    let used: BTreeSet<usize> = a.prods.iter().map(|p| p.lhs).collect();
    if seen != used {
        return Err(format!("lists the nonterminals {seen:?} instead of {used:?}"));
    }
    Ok(())
}

/// Precedence and look-ahead of every item.
fn notes(g: &Gram, a: &Auto, rep: &Report) -> Result<(), String> {
    let key = |v: &Vec<String>| {
        let mut v = v.clone();
        v.sort();
        v
    };
    let key_of = |v: &Vec<usize>| {
        let mut v = v.clone();
        v.sort();
        v
    };
    let text = |(p, d): (usize, usize)| plain(g, &a.prods[p], Some(if a.prods[p].rhs.is_empty() { 0 } else { d }));
    let mut by: BTreeMap<Vec<String>, &crate::lalr::State> = BTreeMap::new();
    for st in &a.states {
        by.insert(key(&st.items.keys().map(|k| text(*k)).collect()), st);
    }
    for st in &rep.states {
        let Some(w) = by.get(&key(&st.items)) else { return Err(format!("describes a state with the items {:?}, which the automaton does not have", st.items)) };
        // productions that differ in nothing but predicates have equal items
        let mut want: Vec<(String, String, Vec<usize>)> = vec![];
        for (k, la) in &w.items {
            let done = k.1 >= a.prods[k.0].rhs.len();
            want.push((text(*k), prec_name(a.prods[k.0].prec), bits(if done { w.red.get(&k.0).copied().unwrap_or(0) } else { *la }, a.ntok)));
        }
        let mut got: Vec<(String, String, Vec<usize>)> = st.items.iter().zip(&st.notes).map(|(t, (p, la))| (t.clone(), p.clone(), key_of(la))).collect();
        want.sort();
        got.sort();
        if let Some((x, y)) = got.iter().zip(&want).find(|(x, y)| x != y) {
            return Err(format!("gives the item {} the precedence {} and the look-ahead {:?}, where {} {} {:?} is right, in state {}", x.0, x.1, x.2, y.0, y.1, y.2, st.id));
        }
    }
    Ok(())
}

fn no_dot(l: &str) -> String {
    head(l).split(' ').filter(|x| *x != ".").collect::<Vec<_>>().join(" ")
}

/// Names of tokens separated by commas or bars.
fn tokens(g: &Gram, s: &str) -> Option<Vec<usize>> {
    let mut v = vec![];
    let mut rest = s.trim();
    while !rest.is_empty() {
        let i = match rest.strip_prefix('"') {
            Some(r) => r.find('"')? + 2,
            None => rest.find([',', ' ', '|']).unwrap_or(rest.len()),
        };
        let n = &rest[..i];
        v.push((0..=g.toks.len()).find(|t| tok_name(g, *t) == n)?);
        rest = rest[i..].trim_start();
        rest = rest.strip_prefix([',', '|']).unwrap_or(rest).trim_start();
    }
    Some(v)
}

fn token_set(g: &Gram, s: &str) -> Option<Vec<usize>> {
    tokens(g, s.trim().strip_prefix("TokenSet{")?.strip_suffix('}')?)
}

fn state_no(s: &str) -> Option<usize> {
    s.trim().strip_prefix("State<")?.trim_end_matches(':').strip_suffix('>')?.parse().ok()
}

#[derive(Clone, Debug, Default)]
struct St {
    id: usize,
    items: Vec<String>,
    /// Precedence and look-ahead of the items.
    notes: Vec<(String, Vec<usize>)>,
    /// Tokens on which a production ending in the error symbol is complete.
    tail: Vec<usize>,
    shifts: Vec<(usize, usize)>,
    /// Tokens, text of the action.
    reds: Vec<(Vec<usize>, String)>,
    gotos: Vec<(String, usize)>,
    recovery: Option<usize>,
    la: Vec<usize>,
    sr: Vec<(usize, Option<usize>, String)>,
    rr: Vec<(Vec<usize>, String, String)>,
}

#[derive(Clone, Debug, Default)]
struct Report {
    /// Subsections of the list of symbols and their lines.
    symbols: BTreeMap<String, Vec<String>>,
    prods: Vec<String>,
    states: Vec<St>,
}

/// Reads a report or the description of states in a refusal; Err is the line not understood.
fn parse(g: &Gram, text: &str) -> Result<Report, String> {
    let mut r = Report::default();
    let mut sect = String::new();
    let mut rr_set: Vec<usize> = vec![];
    let mut rr_first: Option<String> = None;
    let mut sr_tok = 0;
    let mut sr_to = None;
    for line in text.lines() {
        let l = line.trim();
        let bad = || format!("{line:?} in section {sect:?}");
        if l.is_empty() {
            continue;
        }
        if !line.starts_with(' ') {
            if let Some(i) = state_no(l) {
                r.states.push(St { id: i, ..St::default() });
                sect = "state".into();
            } else {
                sect = l.to_string();
            }
            continue;
        }
        if sect == "Symbols:" || sect.starts_with("Symbols: ") {
            if line.starts_with("    ") {
                r.symbols.entry(sect.clone()).or_default().push(l.to_string());
            } else {
                sect = format!("Symbols: {l}");
            }
            continue;
        }
        if sect == "Productions:" {
            r.prods.push(l.to_string());
            continue;
        }
        let Some(st) = r.states.last_mut() else { continue };
        if let Some(x) = l.strip_prefix("Error Recovery State:") {
            st.recovery = state_no(x);
            if st.recovery.is_none() && x.trim() != "<none>" {
                return Err(bad());
            }
            sect = "recovery".into();
            continue;
        }
        if let ("Grammar Items:" | "Parser Action Table:" | "Shifts:" | "Reductions:" | "Go To Table:" | "Shift/Reduce Conflicts:" | "Reduce/Reduce Conflicts:", _) = (l, 0) {
            sect = l.to_string();
            continue;
        }
        match sect.as_str() {
            "Grammar Items:" => {
                let h = head(l);
                if h.ends_with(" AAError .") {
                    let (_, x) = l.rsplit_once(": TokenSet{").ok_or_else(bad)?;
                    st.tail.extend(tokens(g, x.strip_suffix('}').ok_or_else(bad)?).ok_or_else(bad)?);
                }
                let (_, x) = l.rsplit_once(": TokenSet{").ok_or_else(bad)?;
                st.notes.push((prec(l), tokens(g, x.strip_suffix('}').ok_or_else(bad)?).ok_or_else(bad)?));
                st.items.push(h);
            }
            "Shifts:" => {
                let (t, s) = l.rsplit_once(" -> ").ok_or_else(bad)?;
                let t = tokens(g, t).filter(|v| v.len() == 1).ok_or_else(bad)?[0];
                st.shifts.push((t, state_no(s).ok_or_else(bad)?));
            }
            "Reductions:" => {
                let i = l.find(": reduce ").or_else(|| l.find(": accept ")).ok_or_else(bad)?;
                st.reds.push((tokens(g, &l[..i]).ok_or_else(bad)?, l[i + 2..].to_string()));
            }
            "Go To Table:" => {
                if l != "<empty>" {
                    let (n, s) = l.rsplit_once(" -> ").ok_or_else(bad)?;
                    st.gotos.push((n.to_string(), state_no(s).ok_or_else(bad)?));
                }
            }
            "Parser Action Table:" if l == "<empty>" => (),
            "recovery" => {
                let x = l.strip_prefix("Look Ahead:").ok_or_else(bad)?;
                st.la = token_set(g, x).ok_or_else(bad)?;
            }
            "Shift/Reduce Conflicts:" => {
                if let Some(x) = l.strip_prefix("shift -> ") {
                    sr_to = state_no(x);
                } else if let Some(x) = l.strip_prefix("reduce ") {
                    st.sr.push((sr_tok, sr_to, no_dot(x)));
                } else {
                    sr_tok = tokens(g, l.strip_suffix(':').ok_or_else(bad)?).filter(|v| v.len() == 1).ok_or_else(bad)?[0];
                }
            }
            "Reduce/Reduce Conflicts:" => {
                if l.starts_with("TokenSet{") {
                    rr_set = token_set(g, l).ok_or_else(bad)?;
                    rr_first = None;
                } else if let Some(x) = l.strip_prefix("reduce ") {
                    match rr_first.take() {
                        None => rr_first = Some(no_dot(x)),
                        Some(f) => st.rr.push((rr_set.clone(), f, no_dot(x))),
                    }
                } else {
                    return Err(bad());
                }
            }
            _ => return Err(bad()),
        }
    }
    Ok(r)
}

/// The tables the report describes; productions are numbered as in its list.
fn table(g: &Gram, r: &Ref, rep: &Report) -> Result<Tab, String> {
    let n = rep.states.len();
    let ntok = g.toks.len() + 1;
    let mut t = Tab { names: r.tab.names.clone(), prods: r.tab.prods.clone(), viable: vec![BTreeSet::new(); ntok], ..Tab::default() };
    for (i, st) in rep.states.iter().enumerate() {
        if st.id != i {
            return Err(format!("state {} in the place of state {i}", st.id));
        }
        let mut row = vec![Act::Err; ntok];
        for (k, to) in &st.shifts {
            if *to >= n {
                return Err(format!("state {i} leads to {to}, which is not listed"));
            }
            if row[*k] != Act::Err {
                return Err(format!("state {i} has two actions on {}", tok_name(g, *k)));
            }
            row[*k] = Act::Shift(*to);
        }
        let mut chains: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (toks, what) in &st.reds {
            let (verb, text) = what.split_once(' ').unwrap_or(("", ""));
            let Some(p) = rep.prods.iter().position(|x| x == text) else { return Err(format!("state {i} reduces {text}, which is not in the list of productions")) };
            for k in toks {
                if verb == "accept" {
                    if p != 0 || row[*k] != Act::Err {
                        return Err(format!("state {i} accepts with {text}"));
                    }
                    row[*k] = Act::Accept;
                } else {
                    chains.entry(*k).or_default().push(p);
                }
            }
        }
        for (k, ps) in chains {
            if row[k] != Act::Err {
                return Err(format!("state {i} has two actions on {}", tok_name(g, k)));
            }
            let mut out = Act::Err;
            for (j, p) in ps.iter().enumerate().rev() {
                let pr = &r.a.prods[*p];
                out = match pr.pred {
                    None if j + 1 < ps.len() => return Err(format!("state {i} has several reductions on {}", tok_name(g, k))),
                    None => Act::Reduce(*p),
                    Some(q) => Act::If(q, (1..=pr.rhs.len()).rev().collect(), Box::new(Act::Reduce(*p)), Box::new(out)),
                };
            }
            row[k] = out;
        }
        let mut la: Vec<usize> = (0..ntok).filter(|k| row[*k] != Act::Err).collect();
        // with predicates a token may have an action although it may come to nothing
        la.sort_by_key(|k| r.rank[*k]);
        t.act.push(row);
        t.la.push(la);
        let mut gt = BTreeMap::new();
        for (name, to) in &st.gotos {
            let Some(nt) = (0..g.nts.len() + 2).find(|x| nt_name(g, *x) == *name) else { return Err(format!("state {i} goes to {to} by {name}")) };
            if *to >= n || gt.insert(nt, *to).is_some() {
                return Err(format!("state {i} goes to {to} by {name}"));
            }
        }
        t.err_goto.push(gt.get(&ERROR).copied());
        if let Some(j) = st.recovery {
            if gt.get(&ERROR) != Some(&j) {
                return Err(format!("state {i} recovers in {j} but goes to {:?} by AAError", gt.get(&ERROR)));
            }
            let Some(to) = rep.states.get(j) else { return Err(format!("state {i} recovers in {j}, which is not listed")) };
            for k in &to.tail {
                t.viable[*k].insert(i);
            }
        }
        t.gotos.push(gt);
    }
    for (i, st) in rep.states.iter().enumerate() {
        if let Some(j) = st.recovery {
            let mut la = st.la.clone();
            la.sort_by_key(|k| r.rank[*k]);
            if la != t.la[j] {
                return Err(format!("state {i} recovers in {j} looking for {la:?} instead of {:?}", t.la[j]));
            }
        }
    }
    Ok(t)
}

/// Production numbers replaced by those of the first production of the same text.
fn canon(a: &Act, c: &[usize]) -> Act {
    match a {
        Act::Reduce(p) => Act::Reduce(c.get(*p).copied().unwrap_or(*p)),
        Act::If(k, v, x, y) => Act::If(*k, v.clone(), Box::new(canon(x, c)), Box::new(canon(y, c))),
        x => x.clone(),
    }
}

fn report(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = any_grammar(s, true);
    let r = pipe::reference(&g)?;
    let w = if g.prods.iter().any(|p| p.pred.is_some()) { Aug } else { *s.pick(&BOTH) };
    let text = if s.chance(1, 2) {
        let st = Style::random(s, &g);
        spec::lay(&spec::pieces(&g, &st, w == Aug), &[]).text
    } else {
        spec::text(&g, w == Aug)
    };
    ctx.show(|| text.clone());
    let o = run_ok(ctx, w, &text, &IGNORE, &[], &|| text.clone())?;
    let (Some(rs), Some(states), true) = (&o.rs, &o.states, o.done.ok()) else {
        return fail("no report", format!("{}: status {:?}, parser {}, report {} for\n{text}", w.cmd(), o.done.code, o.rs.is_some(), o.states.is_some()));
    };
    let rep = parse(&g, states).map_err(|e| Stop::Fail { sig: "not understood".into(), msg: format!("{}: the report has {e} for\n{text}", w.cmd()) })?;
    let want: Vec<String> = r.a.prods.iter().map(|p| plain(&g, p, None)).collect();
    let got: Vec<String> = rep.prods.iter().map(|l| head(l)).collect();
    if want != got {
        return fail("productions", format!("{}: the report lists productions {got:?} instead of {want:?} for\n{text}", w.cmd()));
    }
    for (p, l) in r.a.prods.iter().zip(&rep.prods) {
        if p.pred.is_some() != l.contains("?(") {
            return fail("predicates", format!("{}: the report shows production {l} for\n{text}", w.cmd()));
        }
        if prec(l) != prec_name(p.prec) {
            return fail("precedences", format!("{}: the report shows production {l} instead of with precedence {} for\n{text}", w.cmd(), prec_name(p.prec)));
        }
    }
    symbols(&g, &r.a, &rep).map_err(|e| Stop::Fail { sig: "symbols".into(), msg: format!("{}: the report {e} for\n{text}", w.cmd()) })?;
    let tab = table(&g, &r, &rep).map_err(|e| Stop::Fail { sig: "inconsistent".into(), msg: format!("{}: the report is inconsistent: {e} for\n{text}", w.cmd()) })?;
    let first: Vec<usize> = rep.prods.iter().map(|x| rep.prods.iter().position(|y| x == y).unwrap()).collect();
    let twins = first.iter().enumerate().any(|(i, j)| i != *j);
    if !twins {
        notes(&g, &r.a, &rep).map_err(|e| Stop::Fail { sig: "items".into(), msg: format!("{}: the report {e} for\n{text}", w.cmd()) })?;
    }
    let mut read = false;
    if let Some(rd) = rust::read(rs, &g) {
        read = true;
        let u = &rd.tab;
        if u.act.len() != tab.act.len() {
            return fail("states", format!("{}: the report has {} states, the parser {} for\n{text}", w.cmd(), tab.act.len(), u.act.len()));
        }
        for i in 0..tab.act.len() {
            for k in 0..tab.names.len() {
                let (x, y) = (canon(&tab.act[i][k], &first), canon(&u.act[i][k], &first));
                if x != y {
                    return fail("action", format!("{}: state {i}, token {}: the report says {x:?}, the parser does {y:?} for\n{text}", w.cmd(), tok_name(&g, k)));
                }
                if tab.viable[k].contains(&i) != u.viable[k].contains(&i) {
                    return fail("recovery", format!("{}: state {i}, token {}: the report and the parser disagree on recovery for\n{text}", w.cmd(), tok_name(&g, k)));
                }
            }
            let (mut x, mut y) = (tab.gotos[i].clone(), u.gotos[i].clone());
            let (ex, ey) = (x.remove(&ERROR), y.remove(&ERROR).or(u.err_goto[i]));
            if x != y || (ex != ey && tab.viable.iter().any(|v| v.contains(&i))) {
                return fail("goto", format!("{}: state {i}: the report says {x:?} {ex:?}, the parser does {y:?} {ey:?} for\n{text}", w.cmd()));
            }
        }
    }
    if !twins {
        let lists = text::texts(s, &g, &r.a, 60, 10, true);
        let ps = pipe::probes(&g, &tab, lists, &[]);
        pipe::check(ctx, w, &g, rs, &ps, &pipe::exact, !read, "behaviour")?;
        for p in &ps {
            ctx.case((p.stats.reductions > 0).then(|| tkey(&g, &p.items)));
        }
    } else {
        ctx.class("with equal productions");
    }
    if r.a.sr + r.a.rr > 0 {
        ctx.class("with conflicts");
        conflicts(&g, &r.a, &rep, true, true).map_err(|e| Stop::Fail { sig: "conflicts".into(), msg: format!("{}: the report {e} for\n{text}", w.cmd()) })?;
    }
    for t in &tab.viable {
        if !t.is_empty() {
            ctx.class("with recovery states");
            break;
        }
    }
    ctx.case(Some(hash_str(&text)));
    Ok(())
}

type Clash = (Vec<String>, Vec<(usize, String)>, Vec<(Vec<usize>, String, String)>);

/// Compares the conflicts listed with those of the automaton; states without
/// those asked for may be missing, but what is listed has to be right.
fn conflicts(g: &Gram, a: &Auto, rep: &Report, sr: bool, rr: bool) -> Result<(), String> {
    let mut want: Vec<Clash> = vec![];
    for st in &a.states {
        let mut items: Vec<String> = st.items.keys().map(|(p, d)| plain(g, &a.prods[*p], Some(if a.prods[*p].rhs.is_empty() { 0 } else { *d }))).collect();
        items.sort();
        let mut v: Vec<(usize, String)> = st.sr.iter().map(|(t, p)| (*t, plain(g, &a.prods[*p], None))).collect();
        v.sort();
        let mut u: Vec<(Vec<usize>, String, String)> = st.rr.iter().map(|(p, q, b)| ((0..a.ntok).filter(|t| b >> t & 1 == 1).collect(), plain(g, &a.prods[*p], None), plain(g, &a.prods[*q], None))).collect();
        u.sort();
        want.push((items, v, u));
    }
    let mut shown: BTreeSet<Vec<String>> = BTreeSet::new();
    for st in &rep.states {
        let mut items = st.items.clone();
        items.sort();
        let Some(w) = want.iter().find(|w| w.0 == items) else { return Err(format!("describes a state with the items {items:?}, which the automaton does not have")) };
        let mut v: Vec<(usize, String)> = st.sr.iter().map(|(t, _, p)| (*t, p.clone())).collect();
        v.sort();
        let mut u: Vec<(Vec<usize>, String, String)> = st
            .rr
            .iter()
            .map(|(t, p, q)| {
                let mut t = t.clone();
                t.sort();
                (t, p.clone(), q.clone())
            })
            .collect();
        u.sort();
        if v != w.1 {
            return Err(format!("has the shift/reduce conflicts {v:?} instead of {:?} in the state with the items {items:?}", w.1));
        }
        if u != w.2 {
            return Err(format!("has the reduce/reduce conflicts {u:?} instead of {:?} in the state with the items {items:?}", w.2));
        }
        if !shown.insert(items.clone()) {
            return Err(format!("describes the state with the items {items:?} twice"));
        }
    }
    for w in &want {
        if ((sr && !w.1.is_empty()) || (rr && !w.2.is_empty())) && !shown.contains(&w.0) {
            return Err(format!("does not describe the state with the items {:?}, which has conflicts", w.0));
        }
    }
    Ok(())
}

fn refusal(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = any_grammar(s, true);
    let r = pipe::reference(&g)?;
    let keys: BTreeSet<Vec<(usize, usize)>> = r.a.states.iter().map(|s| s.items.keys().copied().collect()).collect();
    if keys.len() != r.a.states.len() {
        return Err(Stop::Discard("states alike"));
    }
    let (sr, rr) = (r.a.sr, r.a.rr);
    if sr + rr == 0 {
        return Err(Stop::Discard("no conflicts"));
    }
    // declared correctly, except for one of the two
    let by_sr = if sr > 0 && rr > 0 { s.chance(1, 2) } else { sr > 0 };
    (g.sr, g.rr) = (sr, rr);
    if by_sr {
        g.sr = if s.chance(1, 2) { 0 } else { sr + 1 };
    } else {
        g.rr = if s.chance(1, 2) { 0 } else { rr + 1 };
    }
    let w = if g.prods.iter().any(|p| p.pred.is_some()) { Aug } else { *s.pick(&BOTH) };
    let text = spec::text(&g, w == Aug);
    ctx.show(|| text.clone());
    let o = run_ok(ctx, w, &text, &[], &[], &|| text.clone())?;
    if o.done.ok() {
        return fail("accepted", format!("{}: accepted although there are {sr} and {rr} conflicts:\n{text}", w.cmd()));
    }
    // warnings come before the states
    let said: String = o.done.stderr.lines().skip_while(|l| state_no(l).is_none()).take_while(|l| !l.starts_with("Unexpected")).map(|l| format!("{l}\n")).collect();
    let rep = parse(&g, &said).map_err(|e| Stop::Fail { sig: "not understood".into(), msg: format!("{}: the refusal has {e} for\n{text}", w.cmd()) })?;
    conflicts(&g, &r.a, &rep, by_sr, !by_sr).map_err(|e| Stop::Fail { sig: "conflicts".into(), msg: format!("{}: the refusal {e} for\n{text}", w.cmd()) })?;
    ctx.class(if by_sr { "shift/reduce" } else { "reduce/reduce" });
    ctx.case(Some(mix(&[hash_str(&text), w as u64])));
    Ok(())
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "A case is one text for the parser generated from a random specification, compared with the tables the report describes (which are also compared entry by entry with those of the generated code), or one refusal for conflicts whose description is compared with the conflicts of a reference automaton. Non-trivial: the text makes the parser reduce, or the refusal describes a state. Distinct by grammar and text.",
        assumptions: vec!["productions whose text is equal cannot be told apart in the report"],
        suites: vec![suite("report", 1800, 30000, report), suite("refusal", 1500, 25000, refusal)],
    }
}
