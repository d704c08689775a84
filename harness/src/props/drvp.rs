//! C06-C09: the parse drivers against the reference driver, on the tables of
//! generated grammars.
use crate::gram::{self, GOpts, Gram};
use crate::lalr::Auto;
use crate::run::*;
use crate::sim::{self, Plan, Stats, Stream, Tab};
use crate::tape::{Src, hash_str, mix};
use crate::td::{LexSpec, Td};
use crate::text::{self, TI};

pub const FUEL: usize = 30_000;
pub const STEPS: usize = 3_000;

pub struct Rig {
    pub g: Gram,
    pub a: Auto,
    pub tab: Tab,
    pub rank: Vec<usize>,
    pub lex: LexSpec,
    pub td: Td,
}

pub fn rig_with(g: Gram, edit: impl FnOnce(&mut Tab)) -> R<Rig> {
    let Some(a) = Auto::build(&g) else { return Err(Stop::Discard("too many states")) };
    let (names, rank) = text::names(&g);
    let mut tab = sim::tab_of(&a, &names, &rank);
    edit(&mut tab);
    tab.scale = [1, 1, 1, 256, 65536, 7][g.key() as usize % 6];
    let lex = text::lexspec(&g);
    let td = match Td::new(tab.clone(), rank.clone(), &lex) {
        Ok(t) => t,
        Err(e) => return fail("analyzer", format!("building the lexical analyzer failed: {e}")),
    };
    Ok(Rig { g, a, tab, rank, lex, td })
}

pub fn diff(want: &[String], got: &[String]) -> Option<String> {
    if want == got {
        return None;
    }
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let f = |v: &[String]| v.get(i).cloned().unwrap_or_else(|| "(nothing)".into());
    Some(format!("step {i}: expected [{}], got [{}]", f(want), f(got)))
}

type InjPlan = Vec<(usize, Vec<(Vec<TI>, String)>)>;

/// Runs one text everywhere; the statistics are those of the reference.
pub fn one(r: &mut Rig, items: &[TI], seps: &[usize], plan: &InjPlan, plain: bool) -> R<(Stats, Vec<String>)> {
    one_in(r, items, seps, plan, plain, STEPS, FUEL)
}

fn one_in(r: &mut Rig, items: &[TI], seps: &[usize], plan: &InjPlan, plain: bool, steps: usize, fuel: usize) -> R<(Stats, Vec<String>)> {
    let (txt, stream) = text::write(&r.g, items, seps, "t");
    let rp = Plan { at: plan.iter().map(|(n, v)| (*n, v.iter().map(|(x, l)| text::write(&r.g, x, &[], l).1).collect::<Vec<Stream>>())).collect() };
    let sp: Vec<(usize, Vec<(String, String)>)> = plan.iter().map(|(n, v)| (*n, v.iter().map(|(x, l)| (text::write(&r.g, x, &[], l).0, l.clone())).collect())).collect();
    let (want, st) = sim::run(&r.tab, &stream, &rp, steps);
    if st.endless {
        return Ok((st, want));
    }
    let show = |r: &Rig| {
        let t = text::show(&r.g, items);
        if t.len() > 4000 { format!("grammar {} text of {} tokens {} ... {}", r.g.describe(), items.len(), t.chars().take(300).collect::<String>(), t.chars().skip(t.chars().count() - 300).collect::<String>()) } else { format!("grammar {} text {t}", r.g.describe()) }
    };
    if plain {
        let got = r.td.lalr1(&txt, "t", sp.clone(), fuel);
        if let Some(d) = diff(&want, &got) {
            return fail("lalr1 driver", format!("lalr1: {}: {d}", show(r)));
        }
    }
    let got = r.td.alalr1(&txt, "t", sp, fuel);
    if let Some(d) = diff(&want, &got) {
        return fail("alalr1 driver", format!("alalr1: {}: {d}", show(r)));
    }
    Ok((st, want))
}

fn seps(s: &mut Src, n: usize) -> Vec<usize> {
    if s.chance(1, 3) { (0..n + 2).map(|_| s.below(5)).collect() } else { vec![] }
}

fn tkey(g: &Gram, items: &[TI]) -> u64 {
    mix(&[g.key(), hash_str(&format!("{items:?}"))])
}

pub fn c06() -> Prop {
    let drive = |s: &mut Src, ctx: &mut Ctx, preds: bool| -> R {
        let o = GOpts { errors: s.chance(1, 3), precs: s.chance(1, 2), preds, duel: preds, ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let mut r = rig_with(g, |_| ())?;
        ctx.show(|| r.g.describe());
        let ts = text::texts(s, &r.g, &r.a, 40, 8, true);
        for t in &ts {
            let sp = seps(s, t.len());
            let (st, _) = one(&mut r, t, &sp, &vec![], !preds)?;
            if st.endless {
                ctx.class("still going at the step limit (not compared)");
                continue;
            }
            let nontrivial = st.reductions >= 2 && st.shifts >= 2 && (!preds || st.preds > 0);
            ctx.case(nontrivial.then(|| tkey(&r.g, t)));
            if st.accepted && st.errors == 0 {
                ctx.class("accepted");
            }
            if st.preds > 0 {
                ctx.class("predicate evaluated");
            }
        }
        Ok(())
    };
    Prop {
        id: "C06",
        rule: "A case is one text parsed by both drivers (the augmented one only where predicates occur) with the tables of one random grammar; texts reach every table state with every token, or are random sentences, perturbed sentences, or (deep) one recursion taken thousands of times. Non-trivial: at least two shifts and two reductions (and a predicate evaluation in the predicate suite, 800 shifts in the deep one). Distinct by grammar shape and text.",
        assumptions: vec!["the reference automaton supplies the tables, the reference driver the expected trace"],
        suites: vec![suite("traces", 6000, 60000, move |s, c| drive(s, c, false)), suite("predicates", 3000, 30000, move |s, c| drive(s, c, true)), suite("long texts", 1500, 15000, long), suite("deep", 1000, 10000, |s, c| deep(s, c, false))],
    }
}

/// A few long texts: stacks and attribute lists far deeper than in the other suites.
fn long(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = GOpts { precs: s.chance(1, 2), ..GOpts::default() };
    let Some(g) = gram::repair(gram::grammar(s, &o)) else { return Err(Stop::Discard("conflicts")) };
    let mut r = rig_with(g, |_| ())?;
    let y = r.a.yields();
    let mut best: Vec<usize> = vec![];
    for _ in 0..6 {
        if let Some(v) = text::sentence(s, &r.g, &y, 80)
            && v.len() > best.len()
        {
            best = v;
        }
    }
    if best.len() < 20 {
        return Err(Stop::Discard("no long sentence"));
    }
    let items: Vec<TI> = best.iter().map(|t| TI::Tok(*t, 0)).collect();
    ctx.show(|| format!("{} {}", r.g.describe(), text::show(&r.g, &items)));
    let (st, _) = one(&mut r, &items, &[], &vec![], true)?;
    if !st.endless {
        ctx.case(Some(tkey(&r.g, &items)));
    }
    Ok(())
}

/// Tens of thousands of tokens: stacks as deep, attribute lists as long.
fn deep(s: &mut Src, ctx: &mut Ctx, recover: bool) -> R {
    let o = GOpts { errors: recover || s.chance(1, 4), precs: s.chance(1, 3), ..GOpts::default() };
    let Some(g) = gram::repair(gram::grammar(s, &o)) else { return Err(Stop::Discard("conflicts")) };
    let widen = recover && s.chance(2, 3);
    let draws: Vec<usize> = if widen { (0..16).map(|_| s.below(256)).collect() } else { vec![] };
    let mut r = rig_with(g, |t| {
        if widen {
            more_viable(t, &draws);
        }
    })?;
    let y = r.a.yields();
    let size = if recover { *s.pick(&[300, 900, 3000, 9000]) } else { *s.pick(&[300, 1500, 9000, 30000, 70000]) };
    let Some(v) = text::pumped(s, &r.g, &y, size) else { return Err(Stop::Discard("nothing to pump")) };
    ctx.show(|| format!("{} tokens: {}", v.len(), r.g.describe()));
    for _ in 0..if recover { 6 } else { 1 } {
        let mut items: Vec<TI> = v.iter().map(|t| TI::Tok(*t, 0)).collect();
        // something wrong in the middle or near the end: a deep stack to look for recovery in
        if recover || s.chance(1, 2) {
            let (n, t) = (items.len(), 1 + s.below(r.g.toks.len()));
            let i = if s.chance(1, 3) { n / 2 + s.below(n.min(12)) / 2 } else { n - 1 - s.below(n.min(12)) };
            match s.below(4) {
                0 => items[i] = TI::Tok(t, 0),
                1 => items.insert(i, TI::Tok(t, 0)),
                2 => items[i] = TI::Junk(0),
                _ => items.truncate(i + 1),
            }
            items.truncate(i + 200);
            for _ in 0..s.below(4) {
                items.push(TI::Tok(1 + s.below(r.g.toks.len()), 0));
            }
        }
        let steps = items.len() * 12 + 2000;
        let (st, _) = one_in(&mut r, &items, &[], &vec![], true, steps, steps * 10)?;
        if st.endless {
            ctx.class("still going at the step limit (not compared)");
            continue;
        }
        let big = if recover { st.recoveries > 0 && st.shifts >= 100 } else { items.len() >= 1000 && st.shifts >= 800 };
        ctx.case(big.then(|| tkey(&r.g, &items)));
        if st.recoveries > 0 {
            ctx.class("recovered");
        }
        if st.popped > 100 {
            ctx.class("recovery took off more than 100 symbols");
        }
        if st.accepted && st.errors == 0 {
            ctx.class("accepted");
        }
    }
    Ok(())
}

pub fn c07() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 2), precs: s.chance(1, 3), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let arbitrary = s.chance(1, 4);
        let mut draws: Vec<usize> = vec![];
        if arbitrary {
            draws = (0..32).map(|_| s.below(1 << 8)).collect();
        }
        // the drivers must report whatever the tables say is expected
        let mut r = rig_with(g, |t| {
            if arbitrary {
                for (i, la) in t.la.iter_mut().enumerate() {
                    let m = draws[i % draws.len()];
                    if m & 3 == 0 {
                        la.retain(|x| m >> (2 + x % 6) & 1 == 1);
                    }
                }
            }
        })?;
        ctx.show(|| r.g.describe());
        let ts = text::texts(s, &r.g, &r.a, 40, 12, true);
        for t in &ts {
            let sp = seps(s, t.len());
            let (st, tr) = one(&mut r, t, &sp, &vec![], true)?;
            if st.endless {
                ctx.class("still going at the step limit (not compared)");
                continue;
            }
            // the reference itself must satisfy the statement
            let errs: Vec<&String> = tr.iter().filter(|e| e.starts_with("E ")).collect();
            let ok = tr.last().unwrap() == "OK";
            if ok != errs.is_empty() || (!ok && tr.last().unwrap()[5..] != errs.last().unwrap()[2..]) {
                return err("reference driver: result and reports disagree");
            }
            ctx.case((st.errors > 0).then(|| tkey(&r.g, t)));
            match st.errors {
                0 => (),
                1 => ctx.class("one error"),
                _ => ctx.class("several errors"),
            }
            if tr.iter().any(|e| e.starts_with("E Lex")) {
                ctx.class("lexical error");
            }
        }
        Ok(())
    };
    let ambiguous = |s: &mut Src, ctx: &mut Ctx| -> R {
        let e = s.chance(1, 2);
        let mut g = gram::grammar(s, &GOpts { errors: e, max_toks: 4, ..GOpts::default() });
        let n = g.toks.len();
        for (name, re) in [("Qone", r"(\?+)"), ("Qtwo", r"(\?[?]*)")] {
            g.toks.push(crate::gram::Tok { name: name.into(), lit: false, text: re.into(), lexemes: vec!["??".into()] });
        }
        let r = rig_with(g, |_| ())?;
        let mut r = r;
        ctx.show(|| r.g.describe());
        let ts = text::texts(s, &r.g, &r.a, 20, 8, true);
        for t in &ts {
            // a token number beyond the grammar's stands for the ambiguous text
            let (txt, mut st) = text::write(&r.g, t, &[], "t");
            let mut amb = false;
            for it in st.items.iter_mut() {
                if let sim::In::Tok { tag, lexeme, loc } = it
                    && *tag > n
                {
                    amb = true;
                    *it = sim::In::Bad { msg: format!("Unexpected text [[Qone, Qtwo]] {lexeme} at  {loc}") };
                }
            }
            let (want, stats) = sim::run(&r.tab, &st, &Plan { at: vec![] }, STEPS);
            if stats.endless {
                continue;
            }
            let norm = |v: Vec<String>| -> Vec<String> { v.into_iter().map(|x| x.replace("[[Qtwo, Qone]]", "[[Qone, Qtwo]]")).collect() };
            for (which, got) in [("lalr1", r.td.lalr1(&txt, "t", vec![], FUEL)), ("alalr1", r.td.alalr1(&txt, "t", vec![], FUEL))] {
                if let Some(d) = diff(&want, &norm(got)) {
                    return fail("ambiguous text", format!("{which}: grammar {} text {txt:?}: {d}", r.g.describe()));
                }
            }
            ctx.case(amb.then(|| tkey(&r.g, t)));
        }
        Ok(())
    };
    let default = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(2, 3), ..GOpts::default() };
        let mut g = gram::mixed(s, &o);
        let amb = s.chance(1, 4);
        if amb {
            for (name, re) in [("Qone", r"(\?+)"), ("Qtwo", r"(\?[?]*)")] {
                g.toks.push(crate::gram::Tok { name: name.into(), lit: false, text: re.into(), lexemes: vec!["??".into()] });
            }
        }
        let long = s.chance(1, 3);
        if long {
            // a token of several lines
            g.toks.push(crate::gram::Tok { name: "Qlong".into(), lit: false, text: r"(<[^>]*>)".into(), lexemes: vec!["<\n>".into(), "<>".into(), "<a\nb\r\nc>".into()] });
        }
        let r = rig_with(g, |_| ())?;
        ctx.show(|| r.g.describe());
        let mut told = r.td.clone();
        let mut dflt = r.td.by_default();
        let is_amb = |e: &String| e.starts_with("E Lex") && e.contains("[[");
        for t in &text::texts(s, &r.g, &r.a, 10, 8, true) {
            let (txt, _) = text::write(&r.g, t, &seps(s, t.len()), "t");
            for plain in [true, false] {
                let want = if plain { told.lalr1(&txt, "t", vec![], FUEL) } else { told.alalr1(&txt, "t", vec![], FUEL) };
                if want.last().is_some_and(|e| e.starts_with("PANIC")) {
                    ctx.class("still going at the step limit (not compared)");
                    continue;
                }
                // nothing is asked of a parse that meets an ambiguity, except that what came before it was told
                let stop = want.iter().position(is_amb);
                let upto = &want[..stop.unwrap_or(want.len())];
                let quiet: Vec<String> = upto.iter().filter(|e| !e.starts_with("E ")).cloned().collect();
                let msgs: Vec<&str> = upto.iter().filter_map(|e| e.strip_prefix("E ")).collect();
                let mut last = String::new();
                // something else may have written, too, so a difference has to show again
                for _ in 0..2 {
                    let (got, said) = written(ctx, || if plain { dflt.lalr1(&txt, "t", vec![], FUEL) } else { dflt.alalr1(&txt, "t", vec![], FUEL) })?;
                    last.clear();
                    let same = if stop.is_some() { got.get(..quiet.len()) == Some(&quiet[..]) } else { got == quiet };
                    if !same {
                        last = format!("expected {quiet:?}, got {got:?}");
                    }
                    let mut rest = said.as_str();
                    for m in &msgs {
                        match rest.strip_prefix(m) {
                            Some(r) => rest = r.trim_start(),
                            None => last = format!("written {said:?}, expected {msgs:?}"),
                        }
                    }
                    if !rest.is_empty() && stop.is_none() {
                        last = format!("written {said:?}, expected {msgs:?}");
                    }
                    if last.is_empty() {
                        break;
                    }
                }
                if !last.is_empty() {
                    return fail("default reporter", format!("{}: default reporter: grammar {} text {txt:?}: {last}", if plain { "lalr1" } else { "alalr1" }, r.g.describe()));
                }
                if stop.is_some() {
                    ctx.class("ambiguity met");
                }
                ctx.case((!msgs.is_empty()).then(|| mix(&[tkey(&r.g, t), plain as u64])));
            }
        }
        Ok(())
    };
    Prop {
        id: "C07",
        rule: "A case is one text parsed by both drivers with the tables of one random grammar (in a quarter of the grammars with thinned-out expected sets), with missing, extra, replaced tokens, early ends and unlexable text (in the suite of the default reporter both drivers' own reporters are used and the standard error stream is read). Non-trivial: at least one error met. Distinct by grammar shape and text.",
        assumptions: vec!["the reference driver supplies the expected reports"],
        suites: vec![suite("reports", 7000, 70000, f), suite("ambiguous lexemes", 1500, 15000, ambiguous), suite("default reporter", 1500, 15000, default)],
    }
}

/// Any state with an error transition may be called viable.
fn more_viable(t: &mut Tab, draws: &[usize]) {
    for (i, v) in t.viable.iter_mut().enumerate() {
        for (st, e) in t.err_goto.iter().enumerate() {
            if e.is_some() && draws[(i * 7 + st) % 16] & 3 == 0 && !v.remove(&st) {
                v.insert(st);
            }
        }
    }
}

pub fn c08() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: true, precs: s.chance(1, 4), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let widen = s.chance(1, 4);
        let draws: Vec<usize> = if widen { (0..16).map(|_| s.below(256)).collect() } else { vec![] };
        let mut r = rig_with(g, |t| {
            if widen {
                more_viable(t, &draws);
            }
        })?;
        ctx.show(|| r.g.describe());
        let ts = text::texts(s, &r.g, &r.a, 40, 16, true);
        for t in &ts {
            let sp = seps(s, t.len());
            let (st, _) = one(&mut r, t, &sp, &vec![], true)?;
            if st.endless {
                ctx.class("reducing for ever (not compared)");
                continue;
            }
            ctx.case((st.recoveries > 0).then(|| tkey(&r.g, t)));
            if st.recoveries > 1 {
                ctx.class("several recoveries");
            }
            if st.popped > 0 {
                ctx.class("states unwound");
            }
            if st.excluded > 0 {
                ctx.class("previous recovery state passed over");
            }
            if st.again > 0 {
                ctx.class("recovered again at the same token");
            }
            if st.gave_up {
                ctx.class("gave up");
            }
            if st.discarded > 0 {
                ctx.class("tokens discarded");
            }
        }
        Ok(())
    };
    Prop {
        id: "C08",
        rule: "A case is one erroneous or correct text parsed by both drivers with the tables of one random grammar with error productions (in a quarter of the grammars with arbitrarily changed viable states). Non-trivial: at least one recovery (in the deep suite after 100 shifts at least). Distinct by grammar shape and text.",
        assumptions: vec!["the reference driver implements the recovery rule as stated", "a parse still going after a fixed large number of driver calls, where the reference has ended, does not end"],
        suites: vec![suite("recovery", 10000, 120000, f), suite("deep", 1500, 15000, |s, c| deep(s, c, true))],
    }
}

/// Many injections in one parse, one in another.
fn many_injections(s: &mut Src, ctx: &mut Ctx) -> R {
    let o = GOpts { errors: s.chance(2, 3), precs: s.chance(1, 4), ..GOpts::default() };
    let Some(g) = gram::repair(gram::grammar(s, &o)) else { return Err(Stop::Discard("conflicts")) };
    let mut r = rig_with(g, |_| ())?;
    let y = r.a.yields();
    let size = *s.pick(&[20, 60, 300, 1500]);
    let Some(v) = text::pumped(s, &r.g, &y, size) else { return Err(Stop::Discard("nothing to pump")) };
    let base: Vec<TI> = v.iter().map(|t| TI::Tok(*t, 0)).collect();
    ctx.show(|| format!("{} tokens: {}", base.len(), r.g.describe()));
    let nt = r.g.toks.len();
    for _ in 0..4 {
        // tokens seldom fit: a few kinds of texts, over and over
        let pool: Vec<Vec<TI>> = (0..s.range(1, 4))
            .map(|_| {
                let len = s.weighted(&[1, 6, 2, 1]);
                let i = s.below(base.len());
                if s.chance(1, 2) { base[i..(i + len).min(base.len())].to_vec() } else { (0..len).map(|_| if s.chance(1, 25) { TI::Junk(s.below(4)) } else { TI::Tok(s.range(1, nt), 0) }).collect() }
            })
            .collect();
        let (first, step) = (s.range(1, 20), s.range(1, 7));
        let n = *s.pick(&[10, 40, 150, 400]);
        let plan: InjPlan = (0..n).map(|i| (first + i * step, (0..1 + (i + first) % 5 / 4).map(|j| (pool[(i + j) % pool.len()].clone(), format!("inj{i}.{j}"))).collect())).collect();
        let steps = (base.len() + n * 3) * 12 + 2000;
        let (st, tr) = one_in(&mut r, &base, &[], &plan, true, steps, steps * 10)?;
        if st.endless {
            ctx.class("still going at the step limit (not compared)");
            continue;
        }
        let seen = tr.iter().filter(|e| e.contains("@inj") || e.contains("inj")).count();
        ctx.case((seen >= 10).then(|| mix(&[tkey(&r.g, &base), hash_str(&format!("{plan:?}"))])));
        if seen >= 100 {
            ctx.class("injected tokens show 100 times and more");
        }
        if st.accepted && st.errors == 0 && seen > 0 {
            ctx.class("accepted with injected tokens");
        }
    }
    Ok(())
}

pub fn c09() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 3), precs: s.chance(1, 4), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let mut r = rig_with(g, |_| ())?;
        ctx.show(|| r.g.describe());
        let y = r.a.yields();
        let nt = r.g.toks.len();
        for _ in 0..16 {
            let b = s.range(1, 8);
            let base: Vec<TI> = match text::sentence(s, &r.g, &y, b) {
                Some(v) => v.into_iter().map(|t| TI::Tok(t, 0)).collect(),
                None => return Err(Stop::Discard("no sentence")),
            };
            let mut plan: InjPlan = vec![];
            for _ in 0..s.range(1, 3) {
                let at = s.range(1, 6);
                let k = s.weighted(&[6, 3, 1]) + 1;
                let texts = (0..k)
                    .map(|i| {
                        let len = s.weighted(&[2, 5, 4, 2]);
                        let v = (0..len).map(|_| if s.chance(1, 12) { TI::Junk(s.below(4)) } else { TI::Tok(s.range(1, nt), 0) }).collect();
                        (v, format!("inj{i}"))
                    })
                    .collect();
                plan.push((at, texts));
            }
            // also: move a part of the sentence into the injection, so that parsing succeeds
            let mut text = base.clone();
            if s.chance(1, 2) && !text.is_empty() {
                let i = s.below(text.len());
                let j = s.range(i, text.len());
                let part: Vec<TI> = text.drain(i..j).collect();
                plan.truncate(1);
                plan[0].1 = vec![(part, "part".into())];
            }
            let (st, tr) = one(&mut r, &text, &[], &plan, true)?;
            if st.endless {
                continue;
            }
            let seen = tr.iter().any(|e| e.contains("inj") || e.contains("part"));
            ctx.case(seen.then(|| mix(&[tkey(&r.g, &text), hash_str(&format!("{plan:?}"))])));
            if st.accepted && st.errors == 0 && seen {
                ctx.class("accepted with injected tokens");
            }
        }
        Ok(())
    };
    Prop {
        id: "C09",
        rule: "A case is one text parsed by both drivers with one plan of injections (which reductions inject which texts, several per reduction, empty ones, unlexable ones, or a part of the sentence moved into an injection). Non-trivial: an injected token shows in the trace. Distinct by grammar shape, text and plan.",
        assumptions: vec!["the reference driver keeps its own stack of token lists"],
        suites: vec![suite("plans", 9000, 90000, f), suite("many", 3000, 30000, many_injections)],
    }
}
