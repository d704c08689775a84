//! C18: generation depends on nothing but the specification.
use super::genp::IGNORE;
use super::specp::any_grammar;
use crate::cli::{self, Aug, BOTH, LIMIT, Plain, Which};
use crate::defect;
use crate::gram::{Gram, Sym};
use crate::run::*;
use crate::spec::{self, K, Style};
use crate::tape::{Src, hash_str, mix};
use std::collections::BTreeMap;
use std::path::Path;

struct One {
    which: Which,
    /// The specification, and what it includes as `inc.txt`.
    text: String,
    inc: Option<String>,
}

/// A grammar that shares most of its names and texts with another.
fn variant(s: &mut Src, g: &Gram) -> Gram {
    let mut g = g.clone();
    for _ in 0..s.range(1, 3) {
        match s.below(8) {
            0 => g.levels.reverse(),
            1 => {
                g.levels.clear();
                g.tags.clear();
                g.prods.iter_mut().for_each(|p| p.prec = None);
            }
            2 => {
                let n = g.toks.len();
                let (i, j) = (s.below(n), s.below(n));
                let (a, b) = (g.toks[i].name.clone(), g.toks[j].name.clone());
                g.toks[i].name = b;
                g.toks[j].name = a;
            }
            3 => {
                let k = s.below(g.prods.len());
                g.prods[k].rhs.reverse();
            }
            4 => {
                let k = s.below(g.prods.len());
                let t = s.below(g.toks.len());
                g.prods[k].rhs.push(Sym::T(t));
            }
            5 => g.prods.reverse(),
            6 => {
                let n = g.nts.len();
                let (i, j) = (s.below(n), s.below(n));
                g.nts.swap(i, j);
            }
            _ => (g.sr, g.rr) = (s.below(3) as u32, s.below(2) as u32),
        }
        // a production that names its precedence or has an error may not stay well formed; that is fine
    }
    g
}

fn write(s: &mut Src, g: &Gram, which: Which) -> Option<One> {
    if which == Plain && g.prods.iter().any(|p| p.pred.is_some()) {
        return None;
    }
    let st = Style::random(s, g);
    let mut ps = spec::pieces(g, &st, which == Aug);
    if s.chance(1, 5) {
        let kind = s.below(defect::KINDS);
        if let Some(d) = defect::plant(s, g, &ps, kind)
            && d.files.is_empty()
        {
            ps = d.pieces;
        }
    }
    if s.chance(1, 2) {
        // white space of other kinds
        for p in ps.iter_mut().filter(|p| p.kind == K::Code && p.text.len() >= 4) {
            if s.chance(1, 3) {
                let w = *s.pick(&["\r\n", "\n\r\n\t ", " \n\n \n", "// a\r\n", "/* a  \r\n\tb */", "\u{b}", "  ", "\t", "\u{c}\n", "// é\n", "\u{85}", "\u{feff}"]);
                let at = if s.chance(1, 2) { 2 } else { p.text.len() - 2 };
                p.text.insert_str(at, w);
            }
        }
    }
    let cut = ps.iter().position(|p| p.role == "section 2");
    if let Some(c) = cut
        && s.chance(1, 3)
    {
        let head = spec::lay(&ps[..=c], &[]).text;
        let tail = spec::lay(&ps[c + 1..], &[]).text;
        return Some(One { which, text: format!("{head}\n%inject \"inc.txt\".\n"), inc: Some(format!("{tail}\n")) });
    }
    let mut text = spec::lay(&ps, &[]).text;
    if s.chance(1, 6) {
        text = text.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    if s.chance(1, 30) {
        // more text than fits into a buffer
        let n = *s.pick(&[1000usize, 4096, 8192, 65_535, 66_000, 140_000, 1_100_000]);
        let pad = match s.below(3) {
            0 => format!("/*{}*/\n", "long ".repeat(n / 5)),
            1 => format!("//{}\n", "é".repeat(n / 2)),
            _ => "\n".repeat(n),
        };
        text = if s.chance(1, 2) { pad + &text } else { format!("{text}\n{pad}") };
    }
    Some(One { which, text, inc: None })
}

fn case(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut gs = vec![any_grammar(s, true)];
    for _ in 0..s.range(0, 3) {
        let g = if s.chance(2, 3) { variant(s, &gs[0]) } else { any_grammar(s, true) };
        gs.push(g);
    }
    let mut v = vec![];
    for g in &gs {
        let w = *s.pick(&BOTH);
        v.extend(write(s, g, w));
        if s.chance(1, 4) {
            v.extend(write(s, g, if w == Plain { Aug } else { Plain }));
        }
    }
    if v.is_empty() {
        return Err(Stop::Discard("no specification"));
    }
    ctx.show(|| v.iter().map(|x| format!("-- {}\n{}", x.which.cmd(), x.text)).collect::<Vec<_>>().join("\n"));
    let d = cli::fresh_dir(ctx)?;
    let io = |e: std::io::Error| Stop::Error(e.to_string());
    let put = |p: &Path, t: &str| std::fs::write(p, t).map_err(io);
    for (i, x) in v.iter().enumerate() {
        put(&d.join(format!("{i}.spec")), &x.text)?;
        put(&d.join(format!("{i}.inc")), x.inc.as_deref().unwrap_or("nothing\n"))?;
    }
    // what a first run of the command gives: the parser, or None
    let mut first: BTreeMap<(usize, bool), Option<Vec<u8>>> = BTreeMap::new();
    let of = |x: &One| if x.which == Plain { "plain" } else { "aug" };
    let what = |x: &One| format!("{}\n{}", x.text, x.inc.as_ref().map_or(String::new(), |t| format!("-- included:\n{t}")));
    for (i, x) in v.iter().enumerate() {
        for ignoring in [false, true] {
            put(&d.join("inc.txt"), x.inc.as_deref().unwrap_or("nothing\n"))?;
            let spec = format!("{i}.spec");
            let mut args: Vec<&str> = if ignoring { IGNORE.to_vec() } else { vec![] };
            args.extend(["-f", spec.as_str()]);
            let rs = d.join(format!("{i}.rs"));
            let _ = std::fs::remove_file(&rs);
            let e = cli::exec(&cli::exe(x.which), &args, &d, LIMIT).map_err(Stop::Error)?;
            if let Some(c) = e.crash() {
                return fail("crash", format!("{}: {c} on {}", x.which.cmd(), what(x)));
            }
            let got = e.ok().then(|| std::fs::read(&rs).ok()).flatten();
            if e.ok() && got.is_none() {
                return fail("no parser", format!("{}: success without a parser for {}", x.which.cmd(), what(x)));
            }
            first.insert((i, ignoring), got);
        }
    }
    let cmp = |i: usize, ignoring: bool, how: &str, got: Option<Vec<u8>>| -> R {
        let want = &first[&(i, ignoring)];
        if *want == got {
            return Ok(());
        }
        let n = match (want, &got) {
            (Some(_), None) => "no parser, where there was one".into(),
            (None, Some(_)) => "a parser, where there was none".into(),
            (Some(a), Some(b)) => {
                let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
                let l = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(0);
                format!("another parser: line {}: `{}` instead of `{}`", l + 1, b.lines().nth(l).unwrap_or(""), a.lines().nth(l).unwrap_or(""))
            }
            _ => String::new(),
        };
        fail("differs", format!("{} gives {n} for {}", how, what(&v[i])))
    };
    // the command again, in other circumstances
    for (i, x) in v.iter().enumerate() {
        if s.chance(1, 2) {
            continue;
        }
        let far = d.join("some where");
        std::fs::create_dir_all(&far).map_err(io)?;
        put(&far.join("other.name.txt"), &x.text)?;
        put(&far.join("inc.txt"), x.inc.as_deref().unwrap_or("nothing\n"))?;
        let out = d.join("elsewhere.rs");
        let o = out.to_string_lossy().into_owned();
        let p = far.join("other.name.txt").to_string_lossy().into_owned();
        let ignoring = s.chance(2, 3);
        let mut args: Vec<&str> = if ignoring { IGNORE.to_vec() } else { vec![] };
        args.extend(["-o", &o, if s.chance(1, 2) { "other.name.txt" } else { &p }]);
        let e = cli::exec(&cli::exe(x.which), &args, &far, LIMIT).map_err(Stop::Error)?;
        cmp(i, ignoring, &format!("{} run again elsewhere (status {:?})", x.which.cmd(), e.code), e.ok().then(|| std::fs::read(&out).ok()).flatten())?;
        ctx.case(first[&(i, ignoring)].is_some().then(|| mix(&[1, hash_str(&x.text)])));
        let _ = std::fs::remove_file(&out);
        let _ = std::fs::remove_file(out.with_extension("states"));
    }
    // the libraries, in one process
    let nthreads = s.weighted(&[3, 2, 2, 1]) + 1;
    let mut plan = String::new();
    let mut steps = vec![];
    for t in 0..nthreads {
        plan += "thread\n";
        let mut line = 0;
        for _ in 0..s.range(1, if nthreads == 1 { 6 } else { 4 }) {
            let i = s.below(v.len());
            let x = &v[i];
            if x.inc.is_some() {
                if nthreads > 1 {
                    continue;
                }
                plan += &format!("put\t{i}.inc\tinc.txt\n");
                line += 1;
            }
            let mode = *s.pick(&["new", "str", "api", "ignoring", "ignoring", "held"]);
            // a path at which something else may have been before
            let path = if s.chance(2, 5) {
                let path = format!("now{t}.spec");
                plan += &format!("put\t{i}.spec\t{path}\n");
                line += 1;
                path
            } else {
                format!("{i}.spec")
            };
            plan += &format!("{}\t{mode}\t{path}\tout{t}.{line}\n", of(x));
            steps.push((t, line, i, mode));
            line += 1;
        }
    }
    put(&d.join("plan"), &plan)?;
    let me = std::env::current_exe().map_err(io)?;
    let e = cli::exec(&me, &["worker", "plan"], &d, LIMIT).map_err(Stop::Error)?;
    if !e.ok() {
        return fail("crash", format!("the libraries, used as in\n{plan}: {} status {:?} signal {:?}\n{}", e.crash().unwrap_or_default(), e.code, e.signal, v.iter().map(what).collect::<Vec<_>>().join("\n--\n")));
    }
    for (t, line, i, mode) in &steps {
        let tag = format!("{t}.{line} ");
        let Some(said) = e.stdout.lines().find_map(|l| l.strip_prefix(&tag)) else {
            return err(format!("no outcome for step {tag} in {}", e.stdout));
        };
        let got = match said {
            "written" => Some(std::fs::read(d.join(format!("out{t}.{line}"))).map_err(io)?),
            r if r.starts_with("refused") => None,
            r => return fail("crash", format!("step {tag}of\n{plan}: {r}\n{}", what(&v[*i]))),
        };
        let got_one = got.is_some();
        cmp(*i, *mode == "ignoring", &format!("step {tag}of\n{plan}({said}; the specifications are\n{})\n", v.iter().map(what).collect::<Vec<_>>().join("\n--\n")), got)?;
        // something has to have happened before or at the same time
        let other = steps.len() > 1;
        ctx.case((other && first[&(*i, *mode == "ignoring")].is_some()).then(|| mix(&[hash_str(&v[*i].text), hash_str(&plan)])));
        if v[*i].inc.is_some() && got_one {
            ctx.class("accepted, with an included file");
        }
        ctx.class(&format!("in a process with {} threads", nthreads));
    }
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "A case is one further generation from a random specification (run again elsewhere under another name, or by the library from a file or a string, in a process that handles a random sequence of related, unrelated and defective specifications on one to four threads), compared byte by byte with the first run of the command. Non-trivial: a parser results, and the process handles more than this one specification. Distinct by specification and plan.",
        assumptions: vec!["the interleavings of threads are those the operating system happens to make", "the contents of included files count as part of the specification"],
        suites: vec![suite_flaky("histories", 2500, 60000, case)],
    }
}
