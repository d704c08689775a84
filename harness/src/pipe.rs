//! From specification text to observed parser behaviour. The tables are read
//! from the generated code when possible; every difference, and a share of
//! all cases, goes through compiling and running the generated code.
use crate::cli::{self, Out, Which};
use crate::compile::{self, Job, Module, Ran};
use crate::gram::Gram;
use crate::lalr::Auto;
use crate::rust;
use crate::run::*;
use crate::sim::{self, Plan, Stats, Tab};
use crate::td::Td;
use crate::text::{self, TI};

pub const FUEL: usize = 30_000;
pub const STEPS: usize = 3_000;

/// A text with what should come of it.
#[derive(Clone, Debug)]
pub struct Probe {
    pub text: String,
    pub label: String,
    pub plan: Vec<(usize, Vec<(String, String)>)>,
    pub want: Vec<String>,
    pub stats: Stats,
    pub items: Vec<TI>,
}

pub struct Ref {
    pub a: Auto,
    pub tab: Tab,
    pub rank: Vec<usize>,
}

pub fn reference(g: &Gram) -> R<Ref> {
    let Some(a) = Auto::build(g) else { return Err(Stop::Discard("too many states")) };
    let (names, rank) = text::names(g);
    let tab = sim::tab_of(&a, &names, &rank);
    Ok(Ref { a, tab, rank })
}

/// Probes from item lists, with the reference's traces; endless ones are left out.
pub fn probes(g: &Gram, tab: &Tab, lists: Vec<Vec<TI>>, seps: &[usize]) -> Vec<Probe> {
    let mut v = vec![];
    for items in lists {
        let (text, stream) = text::write(g, &items, seps, "t");
        let (want, stats) = sim::run(tab, &stream, &Plan { at: vec![] }, STEPS);
        if !stats.endless {
            v.push(Probe { text, label: "t".into(), plan: vec![], want, stats, items });
        }
    }
    v
}

/// How a trace is compared: the whole of it, or less.
pub type Agree<'a> = &'a dyn Fn(&Probe, &[String]) -> bool;

pub fn exact(p: &Probe, got: &[String]) -> bool {
    p.want == got
}

pub fn difference(want: &[String], got: &[String]) -> String {
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    let f = |v: &[String]| v.get(i).cloned().unwrap_or_else(|| "(nothing)".into());
    format!("step {i}: expected [{}], got [{}]", f(want), f(got))
}

/// Traces of a generated parser, read and run by the real drivers; None if it cannot be read.
pub fn read_traces(which: Which, g: &Gram, rs: &str, ps: &[Probe]) -> Option<Vec<Vec<String>>> {
    if std::env::var("PV_COMPILE_ALL").is_ok() {
        return None;
    }
    let r = rust::read(rs, g)?;
    let mut td = Td::new(r.tab, r.rank, &r.lex).ok()?;
    Some(
        ps.iter()
            .map(|p| match which {
                Which::Plain => td.lalr1(&p.text, &p.label, p.plan.clone(), FUEL),
                Which::Aug => td.alalr1(&p.text, &p.label, p.plan.clone(), FUEL),
            })
            .collect(),
    )
}

pub fn jobs_of(module: usize, ps: &[Probe]) -> Vec<Job> {
    ps.iter().map(|p| Job { module, text: p.text.clone(), label: p.label.clone(), plan: p.plan.clone(), lex: false }).collect()
}

pub fn compiled_traces(ctx: &mut Ctx, which: Which, rs: &str, ps: &[Probe]) -> R<Vec<Vec<String>>> {
    ctx.class("compiled and run");
    match compile::compile_and_run(ctx, &[Module::new(which, rs.to_string())], &jobs_of(0, ps))? {
        Ran::Traces(v) => Ok(v),
        Ran::Broken(_, e) => fail("does not compile", format!("{}: the generated parser does not compile: {e}", which.cmd())),
    }
}

/// Checks a generated parser against probes. `compile` asks for the compiled path in any case.
pub fn check(ctx: &mut Ctx, which: Which, g: &Gram, rs: &str, ps: &[Probe], agree: Agree, compile: bool, sig: &str) -> R {
    if !compile {
        match read_traces(which, g, rs, ps) {
            Some(v) => {
                if ps.iter().zip(&v).all(|(p, t)| agree(p, t)) {
                    return Ok(());
                }
                ctx.class("differs when read");
            }
            None => ctx.class("unreadable"),
        }
    }
    let v = compiled_traces(ctx, which, rs, ps)?;
    for (p, t) in ps.iter().zip(&v) {
        if !agree(p, t) {
            if t == &["NOT RUN".to_string()] {
                continue;
            }
            return fail(sig, format!("{}: grammar {} text {}: {}", which.cmd(), g.describe(), text::show(g, &p.items), difference(&p.want, t)));
        }
    }
    Ok(())
}

/// Generation that has to succeed.
pub fn must(ctx: &Ctx, which: Which, g: &Gram, text: &str, opts: &[&str]) -> R<(String, Out)> {
    let o = cli::generate(ctx, which, text, opts)?;
    if let Some(c) = o.done.crash() {
        return fail("crash", format!("{}: {c} on grammar {}", which.cmd(), g.describe()));
    }
    match (&o.rs, o.done.ok()) {
        (Some(rs), true) => Ok((rs.clone(), o)),
        _ => fail("refused", format!("{}: refused grammar {}: status {:?} {}", which.cmd(), g.describe(), o.done.code, cli::tail(&o.done.stderr))),
    }
}

/// About one case in n, decided by the grammar itself.
pub fn share(g: &Gram, n: u64) -> bool {
    crate::tape::mix(&[g.key(), 77]) % n == 0
}

/// Two generated parsers that have to behave alike on the probes (whose expected traces are not used).
pub struct Side<'a> {
    pub which: Which,
    pub g: &'a Gram,
    pub rs: &'a str,
}

pub fn alike(ctx: &mut Ctx, a: Side, b: Side, ps: &[Probe], norm: &dyn Fn(&str) -> String, compile: bool, sig: &str, what: &dyn Fn() -> String) -> R {
    let same = |x: &[Vec<String>], y: &[Vec<String>]| -> Option<(usize, String)> {
        for i in 0..ps.len() {
            let u: Vec<String> = x[i].iter().map(|l| norm(l)).collect();
            let v: Vec<String> = y[i].iter().map(|l| norm(l)).collect();
            if u != v && u != ["NOT RUN"] && v != ["NOT RUN"] {
                return Some((i, difference(&u, &v)));
            }
        }
        None
    };
    if !compile {
        match (read_traces(a.which, a.g, a.rs, ps), read_traces(b.which, b.g, b.rs, ps)) {
            (Some(x), Some(y)) => {
                if same(&x, &y).is_none() {
                    return Ok(());
                }
                ctx.class("differs when read");
            }
            _ => ctx.class("unreadable"),
        }
    }
    let x = compiled_traces(ctx, a.which, a.rs, ps)?;
    let y = compiled_traces(ctx, b.which, b.rs, ps)?;
    match same(&x, &y) {
        None => Ok(()),
        Some((i, d)) => fail(sig, format!("{}: text {:?}: {d}", what(), ps[i].text)),
    }
}
