//! C28: parses do not influence each other.
use super::drvp::{FUEL, Rig, STEPS, diff, rig_with};
use crate::gram::{self, GOpts};
use crate::run::*;
use crate::sim::{self, Plan, Stream};
use crate::tape::{Src, hash_str, mix};
use crate::td::{self, Td};
use crate::text::{self, TI};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Barrier;

/// One parse and what it has to give.
#[derive(Clone)]
struct Job {
    rig: usize,
    aug: bool,
    text: String,
    label: String,
    plan: Vec<(usize, Vec<(String, String)>)>,
    want: Vec<String>,
    reductions: usize,
}

fn run(td: &mut Td, j: &Job) -> Vec<String> {
    if j.aug { td.alalr1(&j.text, &j.label, j.plan.clone(), FUEL) } else { td.lalr1(&j.text, &j.label, j.plan.clone(), FUEL) }
}

/// Parsers for one or two grammars, and parses of each.
fn setup(s: &mut Src) -> R<(Vec<Rig>, Vec<Job>)> {
    let mut rigs = vec![];
    let mut jobs = vec![];
    for i in 0..s.range(1, 2) {
        let preds = s.chance(1, 4);
        let o = GOpts { errors: s.chance(1, 2), precs: s.chance(1, 4), preds, duel: preds, ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let r = rig_with(g, |_| ())?;
        let ts = text::texts(s, &r.g, &r.a, 12, 6, true);
        for t in &ts {
            let label = *s.pick(&["t", "one", "x.y"]);
            let plan: Vec<(usize, Vec<(Vec<TI>, String)>)> = if s.chance(1, 4) {
                let v = s.pick(&ts).clone();
                vec![(s.range(1, 4), vec![(v.into_iter().take(4).collect(), "inj".to_string())])]
            } else {
                vec![]
            };
            let seps: Vec<usize> = if s.chance(1, 3) { (0..t.len() + 2).map(|_| s.below(5)).collect() } else { vec![] };
            let (text, stream) = text::write(&r.g, t, &seps, label);
            let rp = Plan { at: plan.iter().map(|(n, v)| (*n, v.iter().map(|(x, l)| text::write(&r.g, x, &[], l).1).collect::<Vec<Stream>>())).collect() };
            let sp = plan.iter().map(|(n, v)| (*n, v.iter().map(|(x, l)| (text::write(&r.g, x, &[], l).0, l.clone())).collect())).collect();
            let (want, st) = sim::run(&r.tab, &stream, &rp, STEPS);
            if st.endless {
                continue;
            }
            jobs.push(Job { rig: i, aug: preds || s.chance(1, 2), text, label: label.into(), plan: sp, want, reductions: st.reductions });
        }
        rigs.push(r);
    }
    if jobs.is_empty() {
        return Err(Stop::Discard("no parses that end"));
    }
    Ok((rigs, jobs))
}

fn describe(rigs: &[Rig], j: &Job) -> String {
    format!("{} of {:?} ({:?}) for {}", if j.aug { "alalr1" } else { "lalr1" }, j.text, j.label, rigs[j.rig].g.describe())
}

fn sequences(s: &mut Src, ctx: &mut Ctx) -> R {
    let (rigs, jobs) = setup(s)?;
    ctx.show(|| rigs.iter().map(|r| r.g.describe()).collect::<Vec<_>>().join("\n"));
    let mut tds: Vec<Td> = rigs.iter().map(|r| r.td.share()()).collect();
    let mut before: Vec<String> = vec![];
    for _ in 0..s.range(2, 12) {
        let j = s.pick(&jobs).clone();
        match s.weighted(&[6, 4, 1]) {
            0 => {
                let got = run(&mut tds[j.rig], &j);
                if let Some(d) = diff(&j.want, &got) {
                    return fail("sequence", format!("{}: {d}, after {}", describe(&rigs, &j), before.join("; ")));
                }
                before.push(describe(&rigs, &j));
            }
            1 if j.reductions > 0 => {
                // a second parse by an action of the first
                let k = s.pick(&jobs).clone();
                let at = s.range(1, j.reductions.min(6));
                let got: Rc<RefCell<Option<Vec<String>>>> = Rc::new(RefCell::new(None));
                let (mut other, cell, kk) = (tds[k.rig].clone(), Rc::clone(&got), k.clone());
                td::nest(at, Some(Box::new(move || {
                    let r = run(&mut other, &kk);
                    *cell.borrow_mut() = Some(r);
                })));
                let outer = run(&mut tds[j.rig], &j);
                td::nest(0, None);
                let inner = got.borrow_mut().take();
                if let Some(d) = diff(&j.want, &outer) {
                    return fail("around", format!("{}: {d}, where reduction {at} makes the parse {}", describe(&rigs, &j), describe(&rigs, &k)));
                }
                if let Some(inner) = inner {
                    if let Some(d) = diff(&k.want, &inner) {
                        return fail("inside", format!("{}: {d}, inside reduction {at} of {}", describe(&rigs, &k), describe(&rigs, &j)));
                    }
                    ctx.class("parse inside a parse");
                }
                before.push(format!("{} with, in reduction {at}, {}", describe(&rigs, &j), describe(&rigs, &k)));
            }
            _ => {
                // a parse that an action ends by a panic
                let at = s.range(1, 4);
                td::nest(at, Some(Box::new(|| panic!("by the action"))));
                let _ = run(&mut tds[j.rig], &j);
                td::nest(0, None);
                before.push(format!("{} ended by a panic in reduction {at}", describe(&rigs, &j)));
                ctx.class("after a panic");
            }
        }
    }
    let key = mix(&[rigs[0].g.key(), hash_str(&before.join("\n"))]);
    ctx.case((before.len() > 1).then_some(key));
    Ok(())
}

fn threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let (rigs, jobs) = setup(s)?;
    ctx.show(|| rigs.iter().map(|r| r.g.describe()).collect::<Vec<_>>().join("\n"));
    let n = s.range(2, 4);
    let orders: Vec<Vec<usize>> = (0..n).map(|_| (0..s.range(10, 40)).map(|_| s.below(jobs.len())).collect()).collect();
    let gate = Barrier::new(n);
    let bad: Vec<Option<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let mk: Vec<_> = rigs.iter().map(|r| r.td.share()).collect();
                let (jobs, gate) = (&jobs, &gate);
                sc.spawn(move || {
                    let mut tds: Vec<Td> = mk.into_iter().map(|f| f()).collect();
                    gate.wait();
                    for i in o {
                        let got = run(&mut tds[jobs[*i].rig], &jobs[*i]);
                        if let Some(d) = diff(&jobs[*i].want, &got) {
                            return Some((*i, d));
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some((0, "the thread panicked".into())))).collect()
    });
    if let Some((i, d)) = bad.into_iter().flatten().next() {
        return fail("threads", format!("{}: {d}, while {} other threads parse", describe(&rigs, &jobs[i]), n - 1));
    }
    ctx.class(&format!("{n} threads"));
    ctx.case(Some(mix(&[rigs[0].g.key(), hash_str(&format!("{orders:?}"))])));
    Ok(())
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "A case is one history of up to twelve parses, by both drivers, for one or two random grammars with shared analyzers: in sequence by the same parser objects, inside a semantic action of each other, after parses ended by a panic of an action, or on two to four threads at once (sharing the analyzers); every trace is compared with that of the reference driver for that parse alone; or one history of token streams of one or two analyzers, read in turns or on threads, compared with the naive tokeniser. Non-trivial: at least two parses or streams. Distinct by grammar (lexicon) and history.",
        assumptions: vec!["which interleavings of threads occur is left to the scheduler"],
        suites: vec![
            suite("sequences", 8000, 120000, sequences),
            suite_flaky("threads", 1500, 30000, threads),
            suite("streams", 20000, 400000, super::lexp::sharing),
            suite_flaky("reading threads", 1500, 30000, super::lexp::sharing_threads),
        ],
    }
}
