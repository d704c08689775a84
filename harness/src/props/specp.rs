//! C18, C19, C21, C23, C25: specifications as texts and files.
use super::genp::IGNORE;
use crate::cli::{self, Aug, BOTH, Out, Which};
use crate::defect;
use crate::gram::{self, GOpts, Gram};
use crate::pipe::{self, Side};
use crate::text;
use crate::run::*;
use crate::spec::{self, Style};
use crate::tape::{Src, hash_str, mix};

pub fn any_grammar(s: &mut Src, preds: bool) -> Gram {
    let o = GOpts { errors: s.chance(1, 3), precs: s.chance(2, 3), preds: preds && s.chance(1, 3), duel: s.chance(1, 4), ..GOpts::default() };
    let mut g = gram::mixed(s, &o);
    if s.chance(1, 2) {
        g.sr = s.below(4) as u32;
        g.rr = s.below(3) as u32;
    }
    g
}

/// A run that must not crash.
pub fn run_ok(ctx: &Ctx, w: Which, text: &str, opts: &[&str], files: &[(String, Vec<u8>)], what: &dyn Fn() -> String) -> R<Out> {
    let d = cli::fresh_dir(ctx)?;
    for (n, b) in files {
        let p = d.join(n);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        if let Err(e) = std::fs::write(p, b) {
            return err(format!("{n}: {e}"));
        }
    }
    let o = cli::generate_in(&d, w, text, opts)?;
    let _ = std::fs::remove_dir_all(&d);
    if let Some(c) = o.done.crash() {
        return fail("crash", format!("{}: {c} on {}", w.cmd(), what()));
    }
    Ok(o)
}

pub fn c19() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = any_grammar(s, true);
        let mut st = Style::random(s, &g);
        st.counts |= s.chance(1, 2);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let w = *s.pick(&BOTH);
        let base = spec::pieces(&g, &st, w == Aug);
        let mut d = None;
        for _ in 0..6 {
            let kind = s.below(defect::KINDS);
            if kind + 1 == defect::KINDS && !draws.is_empty() {
                // a comment may contain the end of an action
                continue;
            }
            d = defect::plant(s, &g, &base, kind);
            if d.is_some() {
                break;
            }
        }
        let Some(d) = d else { return Err(Stop::Discard("no place for the defect")) };
        let good = spec::lay(&base, &draws).text;
        let bad = spec::lay(&d.pieces, &draws);
        let at = defect::blame(&d, &bad);
        ctx.show(|| format!("{} at {}:{} in\n{}", d.what, at.0, at.1, bad.text));
        let o = run_ok(ctx, w, &good, &IGNORE, &[], &|| good.clone())?;
        if !o.done.ok() || o.rs.is_none() {
            return fail("good refused", format!("{}: refused with {:?} {} the specification\n{good}", w.cmd(), o.done.code, cli::tail(&o.done.stderr)));
        }
        let o = run_ok(ctx, w, &bad.text, &IGNORE, &d.files, &|| bad.text.clone())?;
        let kind: String = d.what.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').collect::<String>().trim().to_string();
        if o.done.ok() {
            return fail(format!("accepted {kind}"), format!("{}: accepted ({}) the specification\n{}", w.cmd(), d.what, bad.text));
        }
        if o.rs.is_some() || o.states.is_some() {
            return fail("written", format!("{}: refused ({}), but wrote a parser, for the specification\n{}", w.cmd(), d.what, bad.text));
        }
        let label = format!("s.{}", w.ext());
        if !defect::located(&o.done.stderr, &label, at) {
            return fail(format!("location {kind}"), format!("{}: no error at {label}:{}:{} ({}), but: {} for the specification\n{}", w.cmd(), at.0, at.1, d.what, cli::tail(&o.done.stderr), bad.text));
        }
        ctx.class(&kind);
        ctx.case(Some(mix(&[hash_str(&bad.text), w as u64])));
        Ok(())
    };
    let several = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = any_grammar(s, true);
        let mut st = Style::random(s, &g);
        st.counts |= s.chance(1, 2);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let w = *s.pick(&BOTH);
        let mut ps = spec::pieces(&g, &st, w == Aug);
        let mut kinds = vec![0, 2, *s.pick(&[6, 9]), *s.pick(&[4, 5]), 13, 15, s.range(16, 18), 12];
        s.shuffle(&mut kinds);
        kinds.truncate(s.range(2, 4));
        let mut whats = vec![];
        let mut files = vec![];
        for k in &kinds {
            if let Some(d) = defect::plant(s, &g, &ps, *k) {
                ps = d.pieces;
                ps[d.at.unwrap()].role = format!("blamed {}", whats.len());
                whats.push(d.what);
                files.extend(d.files);
            }
        }
        if whats.len() < 2 {
            return Err(Stop::Discard("no place for two defects"));
        }
        let bad = spec::lay(&ps, &draws);
        ctx.show(|| format!("{whats:?} in\n{}", bad.text));
        let o = run_ok(ctx, w, &bad.text, &IGNORE, &files, &|| bad.text.clone())?;
        if o.done.ok() || o.rs.is_some() {
            return fail("accepted several", format!("{}: accepted ({whats:?}) the specification\n{}", w.cmd(), bad.text));
        }
        let label = format!("s.{}", w.ext());
        for (k, what) in whats.iter().enumerate() {
            let at = bad.at[defect::all(&ps, &format!("blamed {k}"))[0]];
            if !defect::located(&o.done.stderr, &label, at) {
                return fail("several locations", format!("{}: no error at {label}:{}:{} ({what} among {whats:?}), but: {} for the specification\n{}", w.cmd(), at.0, at.1, cli::tail(&o.done.stderr), bad.text));
            }
        }
        ctx.case(Some(mix(&[hash_str(&bad.text), w as u64])));
        Ok(())
    };
    Prop {
        id: "C19",
        rule: "A case is one random specification, accepted without and refused with one planted defect (suite several: with two to four of them), by one of the commands. Every case is non-trivial (both runs are made). Distinct by text.",
        assumptions: vec!["the kinds of defects are those listed in harness/src/defect.rs; for syntax errors the blamed token is the first one that cannot continue the specification"],
        suites: vec![suite("defects", 5000, 80000, f), suite("several", 2000, 30000, several)],
    }
}

/// A specification spread over several files.
#[derive(Default)]
struct Split {
    files: Vec<(String, String)>,
    /// File, line and offset of every piece.
    at: Vec<(String, (usize, usize))>,
    depth: usize,
    /// Included files that begin with a directive.
    twice: usize,
}

impl Split {
    /// Whether two directives in a row are allowed before the piece.
    fn twice(ps: &[spec::Piece], i: usize) -> bool {
        let before = |w: &[&str]| ps[..i].iter().filter(|p| w.contains(&p.text.as_str())).count();
        let precs = ["%left", "%right", "%nonassoc"];
        match ps[i].text.as_str() {
            "%token" => before(&["%token"]) >= 2,
            "%skip" => before(&["%skip"]) >= 1,
            x if precs.contains(&x) => before(&precs) >= 1,
            _ => false,
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn go(&mut self, s: &mut Src, ps: &[spec::Piece], lo: usize, hi: usize, label: &str, depth: usize, stacked: usize, draws: &[usize]) -> String {
        let mut mine: Vec<spec::Piece> = vec![];
        let mut which: Vec<Option<usize>> = vec![];
        self.depth = self.depth.max(depth);
        let mut i = lo;
        while i < hi {
            let again = depth > 0 && i == lo;
            let may = ps[i].inj && (!again || (stacked == 1 && Self::twice(ps, i))) && depth < 4;
            if may && s.chance(1, if depth == 0 { 4 } else { 3 }) {
                let mut ends: Vec<usize> = (i + 1..hi).filter(|j| ps[*j].inj).collect();
                ends.push(hi);
                // the token after the directive has to be one that may follow an include
                let j = *s.pick(&ends);
                let name = format!("{}{}.{}", *s.pick(&["inc", "part_", "sub/x", "./y", "a b"]), self.files.len(), *s.pick(&["laps", "txt", "inc"]));
                self.files.push((name.clone(), String::new()));
                let k = self.files.len() - 1;
                self.twice += again as usize;
                let text = self.go(s, ps, i, j, &name, depth + 1, if again { stacked + 1 } else { 1 }, draws);
                self.files[k].1 = text;
                for (t, kind) in [("%inject".to_string(), spec::K::Word), (format!("\"{name}\""), spec::K::Punct), (".".to_string(), spec::K::Punct)] {
                    mine.push(spec::Piece { text: t, kind, inj: false, nl: kind == spec::K::Word, role: "include".into() });
                    which.push(None);
                }
                i = j;
            } else {
                mine.push(ps[i].clone());
                which.push(Some(i));
                i += 1;
            }
        }
        let l = spec::lay(&mine, draws);
        for (w, at) in which.iter().zip(&l.at) {
            if let Some(i) = w {
                self.at[*i] = (label.to_string(), *at);
            }
        }
        l.text
    }
    fn show(&self, text: &str) -> String {
        let mut o = format!("{text}\n");
        for (n, t) in &self.files {
            o += &format!("==== {n}\n{t}\n");
        }
        o
    }
    fn bytes(&self) -> Vec<(String, Vec<u8>)> {
        self.files.iter().map(|(n, t)| (n.clone(), t.clone().into_bytes())).collect()
    }
}

pub fn c21() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = any_grammar(s, true);
        let st = Style::random(s, &g);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let w = *s.pick(&BOTH);
        let base = spec::pieces(&g, &st, w == Aug);
        let whole = spec::lay(&base, &draws).text;
        let mut sp = Split { at: vec![Default::default(); base.len()], ..Split::default() };
        let text = sp.go(s, &base, 0, base.len(), "", 0, 0, &draws);
        if sp.files.is_empty() {
            return Err(Stop::Discard("no part moved"));
        }
        ctx.show(|| sp.show(&text));
        let opts: &[&str] = if s.chance(1, 2) { &IGNORE } else { &[] };
        let a = run_ok(ctx, w, &whole, opts, &[], &|| whole.clone())?;
        let b = run_ok(ctx, w, &text, opts, &sp.bytes(), &|| sp.show(&text))?;
        let n = |r: &Option<String>| r.as_ref().map_or("no parser".to_string(), |t| format!("a parser of {} bytes", t.len()));
        if a.done.code != b.done.code || a.rs != b.rs || a.states != b.states {
            return fail(
                "differs",
                format!("{}: {:?} with {} for the whole, {:?} with {} for the parts: {}\n{}", w.cmd(), a.done.code, n(&a.rs), b.done.code, n(&b.rs), cli::tail(&b.done.stderr), sp.show(&text)),
            );
        }
        ctx.class(if a.done.ok() { "accepted" } else { "refused for conflicts" });
        ctx.class(&format!("nested {} deep", sp.depth));
        if sp.twice > 0 {
            ctx.class("directives directly following each other");
        }
        ctx.case(Some(hash_str(&sp.show(&text))));
        Ok(())
    };
    let e = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = any_grammar(s, true);
        let mut st = Style::random(s, &g);
        st.counts |= s.chance(1, 3);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let w = *s.pick(&BOTH);
        let base = spec::pieces(&g, &st, w == Aug);
        let kind = s.below(defect::KINDS - 1);
        let Some(mut d) = defect::plant(s, &g, &base, kind) else { return Err(Stop::Discard("no place for the defect")) };
        if let Some(i) = d.at
            && d.syntax
        {
            // an include there would be the first thing out of place
            d.pieces[i].inj = false;
            d.pieces[i.saturating_sub(1)].inj = false;
        }
        let Some(at) = d.at else { return Err(Stop::Discard("blamed on the end")) };
        let mut sp = Split { at: vec![Default::default(); d.pieces.len()], ..Split::default() };
        let main = format!("s.{}", w.ext());
        let text = sp.go(s, &d.pieces, 0, d.pieces.len(), &main, 0, 0, &draws);
        let mut files = sp.bytes();
        files.extend(d.files.clone());
        ctx.show(|| sp.show(&text));
        let o = run_ok(ctx, w, &text, &IGNORE, &files, &|| sp.show(&text))?;
        if o.done.ok() || o.rs.is_some() {
            return fail("accepted", format!("{}: accepted ({}) the specification\n{}", w.cmd(), d.what, sp.show(&text)));
        }
        let (label, at) = &sp.at[at];
        let label = if label.contains(' ') { format!("\"{label}\"") } else { label.clone() };
        if !defect::located(&o.done.stderr, &label, *at) {
            return fail("location", format!("{}: no error at {label}:{}:{} ({}), but: {} for the specification\n{}", w.cmd(), at.0, at.1, d.what, cli::tail(&o.done.stderr), sp.show(&text)));
        }
        ctx.case((label != main).then(|| hash_str(&sp.show(&text))));
        Ok(())
    };
    let c = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = any_grammar(s, false);
        let st = Style::random(s, &g);
        let w = *s.pick(&BOTH);
        let base = spec::pieces(&g, &st, w == Aug);
        let slots: Vec<usize> = defect::all(&base, "token-kw").into_iter().filter(|i| base[*i].inj).collect();
        let i = *s.pick(&slots);
        let depth = s.range(1, 5);
        let to = s.below(depth);
        let n = |k: usize| format!("c{k}.inc");
        let inc = |k: usize| format!("%inject \"{}\" .", n(k));
        let mut v = base.clone();
        v.insert(i, spec::Piece { text: inc(0), kind: spec::K::Code, inj: false, nl: true, role: "include".into() });
        let text = spec::lay(&v, &[]).text;
        let mut files: Vec<(String, Vec<u8>)> = (0..depth).map(|k| (n(k), format!("%token Cyc{k} \"cyc{k}\"\n{}", inc(if k + 1 == depth { to } else { k + 1 })).into_bytes())).collect();
        let itself = s.chance(1, 6);
        if itself {
            // the specification includes itself
            files[depth - 1].1 = format!("%token Cyc \"cyc\"\n%inject \"s.{}\" .", w.ext()).into_bytes();
        }
        ctx.show(|| format!("includes {depth} deep lead back to {} {text}", if itself { "the specification".to_string() } else { n(to) }));
        let o = run_ok(ctx, w, &text, &IGNORE, &files, &|| text.clone())?;
        let label = n(depth - 1);
        if o.done.ok() || o.rs.is_some() {
            return fail("cycle accepted", format!("{}: accepted includes {depth} deep that lead back to {}", w.cmd(), n(to)));
        }
        if !o.done.stderr.contains(&format!("{label}:2:9")) {
            return fail("cycle location", format!("{}: includes {depth} deep lead back to {}: no error at {label}:2:9, but {}", w.cmd(), n(to), cli::tail(&o.done.stderr)));
        }
        ctx.case(Some(mix(&[hash_str(&text), depth as u64, to as u64, itself as u64])));
        Ok(())
    };
    Prop {
        id: "C21",
        rule: "A case is one random specification with some of its parts (possibly nested) moved to included files, run as a whole and in parts; or one with a planted defect, in parts, whose error has to be located in the right file; or one with circular includes. Non-trivial: at least one part is moved (suite errors: the defect is in an included file). Distinct by texts.",
        assumptions: vec!["an include directive is put only where the specification grammar has room for one: between two declarations or production groups, once", "paths are relative to the working directory of the command"],
        suites: vec![suite("inclusion", 2500, 40000, f), suite("errors", 3000, 50000, e), suite("cycles", 400, 4000, c)],
    }
}

/// What the diagnostics say, apart from what has to differ.
fn said(o: &Out, label: &str) -> Vec<String> {
    let mut v: Vec<String> = o
        .done
        .stderr
        .lines()
        .map(|l| {
            let l = l.replace(label, "SPEC");
            match l.find(" expected ") {
                Some(i) if l.contains(" error: ") => l[..i].to_string(),
                _ => l,
            }
        })
        .collect();
    v.sort();
    v
}

pub fn c24() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 2), precs: s.chance(1, 2), duel: s.chance(1, 3), ..GOpts::default() };
        let mut g = gram::mixed(s, &o);
        let r = pipe::reference(&g)?;
        if s.chance(1, 2) {
            (g.sr, g.rr) = (r.a.sr, r.a.rr);
        } else {
            (g.sr, g.rr) = (s.below(3) as u32, s.below(3) as u32);
        }
        let st = Style::random(s, &g);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let text = spec::lay(&spec::pieces(&g, &st, false), &draws).text;
        let mut opts = vec![];
        if s.chance(1, 2) {
            opts.push(IGNORE[0]);
        }
        if s.chance(1, 2) {
            opts.push(IGNORE[1]);
        }
        ctx.show(|| text.clone());
        let a = run_ok(ctx, cli::Plain, &text, &opts, &[], &|| text.clone())?;
        let b = run_ok(ctx, Aug, &text, &opts, &[], &|| text.clone())?;
        let key = hash_str(&text);
        if a.done.code != b.done.code || a.rs.is_some() != b.rs.is_some() || said(&a, "s.laps") != said(&b, "s.alaps") {
            let (x, y) = (said(&a, "s.laps"), said(&b, "s.alaps"));
            return fail("outcome", format!("plain {:?}, augmented {:?}; {} for the specification\n{text}", a.done.code, b.done.code, pipe::difference(&x, &y)));
        }
        let (Some(ra), Some(rb)) = (a.rs, b.rs) else {
            ctx.class("refused");
            ctx.case(Some(key));
            return Ok(());
        };
        let lists = text::texts(s, &g, &r.a, 60, 20, true);
        let ps = pipe::probes(&g, &r.tab, lists, &[]);
        pipe::alike(ctx, Side { which: cli::Plain, g: &g, rs: &ra }, Side { which: Aug, g: &g, rs: &rb }, &ps, &|l| l.to_string(), pipe::share(&g, 60), "behaviour", &|| format!("the parsers differ for the specification\n{text}"))?;
        for p in &ps {
            ctx.case((p.items.len() > 1).then(|| super::genp::tkey(&g, &p.items)));
        }
        ctx.classn("texts with errors", ps.iter().filter(|p| p.stats.errors > 0).count() as u64);
        Ok(())
    };
    let d = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = any_grammar(s, false);
        let mut st = Style::random(s, &g);
        st.counts |= s.chance(1, 2);
        let draws = if s.chance(1, 2) { spec::draws(s) } else { vec![] };
        let base = spec::pieces(&g, &st, false);
        let kind = s.below(defect::KINDS);
        let Some(d) = defect::plant(s, &g, &base, kind) else { return Err(Stop::Discard("no place for the defect")) };
        let bad = spec::lay(&d.pieces, &draws).text;
        ctx.show(|| bad.clone());
        let a = run_ok(ctx, cli::Plain, &bad, &IGNORE, &d.files, &|| bad.clone())?;
        let b = run_ok(ctx, Aug, &bad, &IGNORE, &d.files, &|| bad.clone())?;
        let (x, y) = (said(&a, "s.laps"), said(&b, "s.alaps"));
        if a.done.code != b.done.code || a.rs.is_some() != b.rs.is_some() || x != y {
            return fail("refusal", format!("plain {:?}, augmented {:?}; {} for the specification\n{bad}", a.done.code, b.done.code, pipe::difference(&x, &y)));
        }
        ctx.class("planted defects");
        ctx.case(Some(hash_str(&bad)));
        Ok(())
    };
    Prop {
        id: "C24",
        rule: "A case is one random specification without predicates with a text for both parsers, or one refused by both (conflicts or a planted defect). Non-trivial: refused, or the text has at least two tokens. Distinct by specification or by grammar shape and text.",
        assumptions: vec!["the two commands' diagnostics are compared up to the file extension and the lists of expected tokens, in which the augmented language has one more"],
        suites: vec![suite("behaviour", 2500, 40000, f), suite("refusals", 2500, 40000, d)],
    }
}

/// Renames nonterminals, tags and (if asked for) literal tokens.
fn rename(s: &mut Src, g: &Gram, toks: bool) -> Gram {
    const POOL: [&str; 24] = ["zeta", "Alpha", "m", "N0", "Kappa_1", "b2", "Yy", "omega", "C_c", "Delta", "x9", "e_", "Phi", "g", "Hh", "iota", "Jot", "L_L_", "Mu", "nu2", "Oo", "p", "Q", "Rho"];
    let mut names: Vec<String> = POOL.iter().map(|n| n.to_string()).filter(|n| !g.toks.iter().any(|t| t.name == *n)).collect();
    s.shuffle(&mut names[..]);
    let mut h = g.clone();
    let mut extra = 0;
    for n in h.nts.iter_mut().chain(h.tags.iter_mut()) {
        *n = names.pop().unwrap_or_else(|| format!("{}_v{extra}", ["z", "A", "k", "N"][extra % 4]));
        extra += 1;
    }
    if toks {
        for t in h.toks.iter_mut().filter(|t| t.lit) {
            if let Some(n) = names.pop() {
                t.name = n;
            }
        }
    }
    h
}

/// A trace line with its expected tokens in an order that does not depend on names.
fn unordered(l: &str) -> String {
    match l.rfind(" expected ") {
        Some(i) => {
            let (a, b) = l.split_at(i + 10);
            let mut v: Vec<&str> = b.trim_end_matches('.').split(", ").collect();
            v.sort();
            format!("{a}{}", v.join(", "))
        }
        None => l.to_string(),
    }
}

pub fn c25() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let errors = s.chance(1, 3);
        let o = GOpts { errors, precs: s.chance(2, 3), preds: s.chance(1, 4), duel: s.chance(1, 3), ..GOpts::default() };
        let mut g = gram::mixed(s, &o);
        let r = pipe::reference(&g)?;
        if s.chance(1, 2) {
            (g.sr, g.rr) = (r.a.sr, r.a.rr);
        }
        let preds = g.prods.iter().any(|p| p.pred.is_some());
        // names of tokens show in predicates and error attributes
        let h = if s.chance(2, 3) { rename(s, &g, !preds && !g.uses_error()) } else { g.clone() };
        let w = if preds { Aug } else { *s.pick(&BOTH) };
        let one = spec::text(&g, w == Aug);
        let st = Style::random(s, &h);
        let draws = if s.chance(2, 3) { spec::draws(s) } else { vec![] };
        let two = spec::lay(&spec::pieces(&h, &st, w == Aug), &draws).text;
        if one == two {
            return Err(Stop::Discard("nothing changed"));
        }
        let opts: &[&str] = if s.chance(1, 2) { &IGNORE } else { &[] };
        ctx.show(|| format!("{one}\n==== and\n{two}"));
        let both = || format!("\n{one}\n==== and\n{two}");
        let a = run_ok(ctx, w, &one, opts, &[], &|| one.clone())?;
        let b = run_ok(ctx, w, &two, opts, &[], &|| two.clone())?;
        let counts = |o: &Out| -> Vec<String> { o.done.stderr.lines().filter(|l| l.starts_with("Unexpected") || l.starts_with("Too many") || l.starts_with("Undefined")).map(|l| l.to_string()).collect() };
        if a.done.code != b.done.code || a.rs.is_some() != b.rs.is_some() || counts(&a) != counts(&b) {
            return fail("outcome", format!("{}: {:?} {:?} and {:?} {:?} {} for{}", w.cmd(), a.done.code, counts(&a), b.done.code, counts(&b), cli::tail(&b.done.stderr), both()));
        }
        let (Some(ra), Some(rb)) = (a.rs, b.rs) else {
            ctx.class("refused for conflicts");
            ctx.case(Some(mix(&[hash_str(&one), hash_str(&two)])));
            return Ok(());
        };
        let lists = text::texts(s, &g, &r.a, 60, 20, true);
        let ps = pipe::probes(&g, &r.tab, lists, &[]);
        pipe::alike(ctx, Side { which: w, g: &g, rs: &ra }, Side { which: w, g: &h, rs: &rb }, &ps, &unordered, pipe::share(&g, 60), "behaviour", &|| format!("{}: the parsers differ for{}", w.cmd(), both()))?;
        for p in &ps {
            ctx.case((p.items.len() > 1).then(|| mix(&[super::genp::tkey(&g, &p.items), hash_str(&two)])));
        }
        if h.nts != g.nts {
            ctx.class("renamed");
        }
        if !draws.is_empty() {
            ctx.class("layout and comments changed");
        }
        Ok(())
    };
    Prop {
        id: "C25",
        rule: "A case is one text for the parsers made from two renderings of one random grammar: different layout and comments, order of token and skip declarations and of directives, literals or names, grouping, and names of nonterminals, tags and literal tokens. Non-trivial: the text has at least two tokens, or both are refused for the same conflicts. Distinct by texts.",
        assumptions: vec!["expected tokens are compared as sets, since they are printed in the order of names", "token names are left alone in grammars with predicates or error productions, whose attributes show them"],
        suites: vec![suite("renderings", 3000, 50000, f)],
    }
}
