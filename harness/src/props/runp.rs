//! C15 and C16: generated code compiled and run.
use super::genp::{IGNORE, tkey};
use super::lexp;
use crate::cli::{Aug, BOTH, Which};
use crate::compile::{self, Job, Module, Ran};
use crate::gram::{self, GOpts, Gram, Prod, Sym, Tok};
use crate::lexmodel::{Item, Lex, Loc, Tg};
use crate::pipe::{self, Probe};
use crate::run::*;
use crate::rust;
use crate::rx::Rx;
use crate::sim::{self, Plan, Res, What};
use crate::spec::{self, K, Style};
use crate::tape::{Src, hash_str, mix};
use crate::text::{self, TI};

/// Legal names that generated code has to cope with.
const NAMES: [&str; 28] = ["Ok", "Err", "Some", "None", "Vec", "String", "Option", "Result", "Debug", "Display", "Default", "Token", "Error", "Parser", "f", "T", "usize", "u32", "bool", "Symbol", "Action_", "Box", "From", "Clone", "x", "main", "Drop", "Shift"];

fn odd_names(s: &mut Src, g: &mut Gram) {
    let mut v: Vec<&str> = NAMES.to_vec();
    s.shuffle(&mut v[..]);
    let mut it = v.into_iter();
    for t in g.toks.iter_mut() {
        if s.chance(1, 3) {
            t.name = it.next().unwrap().into();
        }
    }
    for n in g.nts.iter_mut() {
        if s.chance(1, 3) {
            *n = it.next().unwrap().into();
        }
    }
}

/// The code of production k with n symbols, and what it does; `a` is the attribute type.
fn action(s: &mut Src, a: &str, helper: bool, k: u32, n: usize) -> (String, What) {
    let m = if n == 0 { 0 } else { s.range(0, 4) };
    let mut picks: Vec<usize> = (0..m).map(|_| if n > 99 && s.chance(1, 2) { s.range(100, n) } else if n > 9 && s.chance(1, 2) { s.range(10, n) } else { s.range(1, n) }).collect();
    if s.chance(1, 4) {
        picks = (1..=n).rev().collect();
    }
    let args: Vec<String> = picks
        .iter()
        .map(|i| match s.below(4) {
            0 => format!("${i}.clone()"),
            1 => format!("{a}::clone(&${i})"),
            2 => format!("(${i}).to_owned()"),
            _ => format!("vrt::Attr(${i}.0.to_string())"),
        })
        .collect();
    let call = match s.below(4) {
        1 if helper => format!("made({k}, &[{}])", picks.iter().map(|i| format!("&${i}")).collect::<Vec<_>>().join(",")),
        2 => format!("{{ let mut v: Vec<{a}> = vec![]; {} vrt::red({k}, v) }}", args.iter().map(|x| format!("v.push({x});")).collect::<String>()),
        _ => format!("vrt::red({k}, vec![{}])", args.join(", ")),
    };
    let res = match s.weighted(&[4, 2, 2, 1, 1]) {
        0 => Res::Node,
        1 => Res::Default,
        2 if n > 0 => Res::Pick(if s.chance(1, 2) { n } else { s.range(1, n) }),
        3 => Res::Wrap,
        _ => Res::Fresh,
    };
    let code = match &res {
        Res::Node => format!("$$ = {call};"),
        Res::Default => format!("let _ = {call};"),
        Res::Pick(i) => format!("let _ = {call}; $$ = ${i}.clone();"),
        Res::Wrap => match s.below(2) {
            0 => format!("let _ = {call}; $$ = {a}(vrt::cap(format!(\"<{{}}>\", $$.0)));"),
            _ => format!("let old = $$.clone();\n  let _ = {call};\n  $$ = {a}(vrt::cap(\"<\".to_string() + &old.0 + \">\"));"),
        },
        Res::Fresh => format!("let _ = {call}; $$ = {a}::default();"),
    };
    let inj = s.chance(2, 3);
    let tail = match (inj, s.below(3)) {
        (false, _) => "",
        (_, 2) => " for (i, (t, l)) in vrt::inj().into_iter().enumerate() { if i % 2 == 0 { $INJECT(t, l) } else { $INJECT(t, l) } }",
        (_, 0) => " for (t, l) in vrt::inj() { $INJECT(t, l); }",
        _ => " vrt::inj().into_iter().for_each(|(t, l)| $INJECT(t, l));",
    };
    let code = match s.below(11) {
        10 => {
            // text over several lines
            let z = *s.pick(&["a\n   b\n\n  c", "\n", " \n \n ", "\t|\n\t|\n", "x  \n        y\n", "// no comment\n/* none\n*/", "{\n    }\n"]);
            let raw = if s.chance(1, 2) { ("r#", "#") } else { ("", "") };
            format!(" assert_eq!({}\"{z}\"{}.as_bytes(), &{:?}); {code}{tail} ", raw.0, raw.1, z.as_bytes())
        }
        9 => {
            let z = *s.pick(&["costs $0", "$0", "a $ b $x $", "$0$x 5$", "$-1", "$00 $_"]);
            format!(" assert!(b\"{z}\" == &{:?}); {code}{tail} ", z.as_bytes())
        }
        0 | 1 => format!(" {code}{tail} "),
        2 => format!("{code}{tail}"),
        3 => format!("\n        // the {{ first ) thing\n        {code}\n        /* and \" then */{tail}\n    "),
        4 => format!(" let s = \"}} {{ %}} // not a comment !\"; let c = '}}'; let _ = (s, c); {code}{tail} "),
        5 => format!(" {code}{tail} // all done "),
        6 => format!(" if {k} < 4_000_000_000u32 {{ {code}{tail} }} else {{ unreachable!(\"{{}}\", 1) }} "),
        7 => format!("{{{code}{tail}}}"),
        _ => format!(" let r = r#\"a \"quoted\" $ % thing\"#;\r\n\tlet _ = r; {code}{tail}"),
    };
    (format!("!{{{code}!}}"), What { k, picks, res, inj })
}

fn preamble(s: &mut Src, a: &str, t: &str) -> (String, bool) {
    let base = format!("pub use vrt::{{Attr as {a}, Target as {t}}};");
    let helper = format!("fn made(k: u32, v: &[&{a}]) -> {a} {{\n    vrt::red(k, v.iter().map(|x| (*x).clone()).collect())\n}}");
    match s.below(6) {
        5 => (format!("\n{base}\n{helper}\npub const SPAN: &str = \"a\n   b  \n\n\tc\n\";\nconst _: () = assert!(SPAN.len() == 13);\n"), true),
        0 => (format!(" {base} "), false),
        1 => (format!("\n{base}\n{helper}\n"), true),
        2 => (format!("{base} // with {{ a comment"), false),
        3 => (format!("\n// starts with a comment %\n{base}\nmod inner {{ pub const C: &str = \"}} %% \\\" {{\"; pub mod deep {{ pub fn f() {{}} }} }}\n{helper} /* ends in one */"), true),
        _ => (format!("{base}\r\n{helper}\r\n#[allow(dead_code)] const L: usize = inner2::X; mod inner2 {{ pub const X: usize = 3; }}\r\n"), true),
    }
}

struct One {
    which: Which,
    g: Gram,
    text: String,
    rs: String,
    probes: Vec<Probe>,
    attr: String,
    target: String,
}

fn actions_one(s: &mut Src, ctx: &mut Ctx) -> R<One> {
    let o = GOpts { max_toks: 5, max_nts: 4, errors: s.chance(1, 4), precs: s.chance(1, 4), preds: s.chance(1, 6), ..GOpts::default() };
    let mut g = gram::grammar(s, &o);
    if s.chance(2, 3) {
        // a long production
        let k = s.below(g.prods.len());
        let hundred = s.chance(1, 8);
        let n = if hundred { s.range(98, 125) } else { s.range(10, 13) };
        while g.prods[k].rhs.len() < n && g.prods[k].rhs.last() != Some(&Sym::Err) {
            let x = if hundred || s.chance(3, 4) { Sym::T(s.below(g.toks.len())) } else { Sym::N(s.below(g.nts.len())) };
            g.prods[k].rhs.push(x);
        }
    }
    let preds = g.prods.iter().any(|p| p.pred.is_some());
    if s.chance(1, 2) && !preds {
        odd_names(s, &mut g);
    }
    let mut r = pipe::reference(&g)?;
    let (a, t) = match s.below(4) {
        0 => ("VAttr", "VTarget"),
        1 => ("AttributeData", "MyParser"),
        2 => ("Lhs9", "t_x"),
        _ => ("attr", "Parser"),
    };
    let mut st = Style::random(s, &g);
    (st.attr, st.target) = (a.into(), t.into());
    let (pre, helper) = preamble(s, a, t);
    st.preamble = Some(pre);
    st.bare = (0..g.prods.len()).filter(|_| s.chance(1, 6)).collect();
    let which = if preds { Aug } else { *s.pick(&BOTH) };
    let mut ps = spec::pieces(&g, &st, which == Aug);
    for (k, p) in g.prods.iter().enumerate() {
        if st.bare.contains(&k) {
            r.tab.prods[k + 1].2 = None;
            continue;
        }
        let (code, what) = action(s, a, helper, k as u32, p.rhs.len());
        let role = format!("action {k}");
        ps.iter_mut().find(|q| q.role == role && q.kind == K::Code).unwrap().text = code;
        r.tab.acts.insert(k + 1, what);
    }
    let draws = if s.chance(1, 3) { spec::draws(s) } else { vec![] };
    if !draws.is_empty() && ps.iter().any(|p| p.text.contains("!}")) {
        // a comment may hold the end of an action, but not inside of one
    }
    let text = spec::lay(&ps, &draws).text;
    let (rs, _) = pipe::must(ctx, which, &g, &text, &IGNORE)?;
    let lists = text::texts(s, &g, &r.a, 12, 10, true);
    let mut probes = pipe::probes(&g, &r.tab, lists, &[0, 1, 2]);
    // texts with injections
    for _ in 0..4 {
        let items = text::texts(s, &g, &r.a, 0, 1, false).pop().unwrap_or_default();
        let (text, stream) = text::write(&g, &items, &[0], "t");
        let mut plan = vec![];
        let mut at = vec![];
        for _ in 0..s.range(1, 2) {
            let n = s.range(1, 6);
            let mut v = vec![];
            let mut u = vec![];
            for j in 0..s.range(1, 2) {
                let it: Vec<TI> = (0..s.below(3)).map(|_| TI::Tok(s.range(1, g.toks.len()), s.below(3))).collect();
                let l = format!("in{j}");
                let (x, y) = text::write(&g, &it, &[1], &l);
                v.push((x, l));
                u.push(y);
            }
            plan.push((n, v));
            at.push((n, u));
        }
        let (want, stats) = sim::run(&r.tab, &stream, &Plan { at }, pipe::STEPS);
        if !stats.endless {
            probes.push(Probe { text, label: "t".into(), plan, want, stats, items });
        }
    }
    Ok(One { which, g, text, rs, probes, attr: a.into(), target: t.into() })
}

fn actions(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.range(1, 6);
    let mut v = vec![];
    for _ in 0..n {
        match actions_one(s, ctx) {
            Ok(x) => v.push(x),
            Err(Stop::Discard(_)) => (),
            Err(e) => return Err(e),
        }
    }
    if v.is_empty() {
        return Err(Stop::Discard("no grammar"));
    }
    ctx.show(|| v[0].text.clone());
    let mods: Vec<Module> = v.iter().map(|x| Module { src: x.rs.clone(), which: x.which, attr: x.attr.clone(), target: x.target.clone() }).collect();
    let jobs: Vec<Job> = v.iter().enumerate().flat_map(|(i, x)| pipe::jobs_of(i, &x.probes)).collect();
    let traces = match compile::compile_and_run(ctx, &mods, &jobs)? {
        Ran::Traces(t) => t,
        Ran::Broken(i, e) => {
            let x = i.map(|i| v[i].text.clone()).unwrap_or_default();
            return fail("does not compile", format!("{}: the generated parser does not compile: {e}\nfor\n{x}", i.map_or("", |i| v[i].which.cmd())));
        }
    };
    let mut k = 0;
    for x in &v {
        for p in &x.probes {
            let t = &traces[k];
            k += 1;
            if *t != p.want {
                if t == &["NOT RUN".to_string()] {
                    continue;
                }
                return fail("actions", format!("{}: text {} (injecting {:?}): {}\nfor\n{}", x.which.cmd(), text::show(&x.g, &p.items), p.plan, pipe::difference(&p.want, t), x.text));
            }
            ctx.case((p.stats.reductions > 1).then(|| mix(&[tkey(&x.g, &p.items), hash_str(&x.text)])));
            if !p.plan.is_empty() {
                ctx.class("with injections");
            }
        }
        ctx.class(if x.g.prods.iter().any(|p| p.rhs.len() >= 100) { "programs with productions of a hundred or more symbols" } else if x.g.prods.iter().any(|p| p.rhs.len() >= 10) { "programs with productions of ten or more symbols" } else { "programs" });
    }
    Ok(())
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "A case is one text parsed by a compiled parser whose semantic actions are random (attributes in any order and number, also of ten and more symbols, the result assigned, changed or left alone, injections, comments and brackets of every kind in the code), with random preambles, type and symbol names; the trace of all actions, their arguments and results is compared with a reference driver. Non-trivial: at least two reductions. Distinct by specification and text.",
        assumptions: vec!["actions are valid code, and attribute numbers in them are in range", "names are no Rust keywords, none beginning with AA, and not those of the crates that generated code uses"],
        suites: vec![suite_b("actions", 200, 4000, 60, actions)],
    }
}

const CHARS: [char; 20] = ['a', 'b', '+', ' ', 'c', '{', '}', '#', '%', '(', ')', '/', '*', '\'', 'é', '日', '😀', '1', '.', '?'];

struct LexCase {
    which: Which,
    lex: Lex,
    g: Gram,
    text: String,
    rs: String,
    texts: Vec<(String, Vec<Item>, Loc)>,
}

fn shown(g: &Gram, end: u16, i: &Item) -> String {
    let _ = end;
    let l = |l: &Loc| {
        let lab = if l.label.contains([' ', '\t']) { format!("\"{}\"", l.label) } else { l.label.clone() };
        format!("{lab}:{}:{}", l.line, l.off)
    };
    match i {
        Item::Tok(t, x, at) => format!("T {} {} {x:?} {}", g.toks[*t as usize].name, g.tok_display(*t as usize), l(at)),
        Item::Unexp(x, at) => format!("X Unexpected text {x} at  {}", l(at)),
        Item::Ambig(ts, x, at) => format!("X Unexpected text [[{}]] {x} at  {}", ts.iter().map(|t| g.tok_display(*t as usize)).collect::<Vec<_>>().join(", "), l(at)),
        Item::Empty(at) => format!("X {}", l(at)),
    }
}

fn lexer_one(s: &mut Src, ctx: &mut Ctx) -> R<LexCase> {
    let mut al: Vec<char> = CHARS.to_vec();
    if s.chance(1, 2) {
        s.shuffle(&mut al[..]);
        al.truncate(7);
    }
    // quotes and backslashes appear in regular expressions only
    let mut with = al.clone();
    if s.chance(1, 2) {
        with.extend(['"', '\\', '"', '\n', '\t']);
    }
    let mut lex = lexp::gen_lex(s, &with, 5);
    lex.lits.retain(|(_, l)| !l.contains(['"', '\\', '\n', '\t']));
    let mut bits = vec![];
    if s.chance(1, 3) {
        // what could end the text of a pattern in generated code
        let k = s.range(1, 6);
        let q = if s.chance(3, 4) { "\"" } else { "'" };
        let bit = format!("{}{q}{}", *s.pick(&["", "a", "b\""]), "#".repeat(k));
        let mut v: Vec<Rx> = bit.chars().map(Rx::Ch).collect();
        if s.chance(1, 3) {
            v.push(Rx::Rep(Box::new(Rx::Ch('#')), 0, None, false));
        }
        let r = Rx::Cat(v);
        if s.chance(1, 3) { lex.skips.push(r) } else { lex.res.push((900, r)) }
        bits.push(bit);
    }
    if lex.lits.len() + lex.res.len() == 0 {
        return Err(Stop::Discard("no tokens"));
    }
    // number the tags from zero, the end last
    for (i, t) in lex.lits.iter_mut().map(|x| &mut x.0).chain(lex.res.iter_mut().map(|x| &mut x.0)).enumerate() {
        *t = i as u16;
    }
    lex.end = (lex.lits.len() + lex.res.len()) as u16;
    let mut names: Vec<String> = (0..lex.end).map(|i| format!("T{i}")).collect();
    if s.chance(1, 2) {
        let mut v: Vec<&str> = NAMES.iter().copied().chain(["a1", "Zed", "q", "Literal", "Mm"]).collect();
        s.shuffle(&mut v[..]);
        names = v.iter().take(lex.end as usize).map(|x| x.to_string()).collect();
    }
    let mut toks: Vec<Tok> = vec![];
    for (t, l) in &lex.lits {
        toks.push(Tok { name: names[*t as usize].clone(), lit: true, text: l.clone(), lexemes: vec![l.clone()] });
    }
    // signs that need no backslash, without it
    let bare = s.chance(1, 2);
    let written = |r: &Rx| if bare { format!("({})", r.render().replace("\\#", "#").replace("\\/", "/")) } else { format!("({})", r.render()) };
    for (t, r) in &lex.res {
        toks.push(Tok { name: names[*t as usize].clone(), lit: false, text: written(r), lexemes: vec![] });
    }
    let skips: Vec<String> = lex.skips.iter().map(written).collect();
    let mut prods = vec![Prod { lhs: 0, rhs: vec![], prec: None, pred: None }];
    for i in 0..toks.len() {
        // some tokens are only declared
        if i == 0 || !s.chance(1, 5) {
            prods.push(Prod { lhs: 0, rhs: vec![Sym::N(0), Sym::T(i)], prec: None, pred: None });
        }
    }
    let g = Gram { toks, tags: vec![], levels: vec![], nts: vec!["AaS".into()], prods, skips, sr: 0, rr: 0 };
    let mut st = Style::random(s, &g);
    if s.chance(1, 3) {
        s.shuffle(&mut st.tok_order[..]);
    }
    // the first skip that matches counts
    st.skip_order = (0..g.skips.len()).collect();
    let which = *s.pick(&BOTH);
    let text = spec::lay(&spec::pieces(&g, &st, which == Aug), &[]).text;
    let o = super::specp::run_ok(ctx, which, &text, &IGNORE, &[], &|| text.clone())?;
    let Some(rs) = o.rs.filter(|_| o.done.ok()) else {
        return fail("refused", format!("{}: status {:?} {} for the specification\n{text}", which.cmd(), o.done.code, crate::cli::tail(&o.done.stderr)));
    };
    let mut texts = vec![];
    for _ in 0..s.range(2, 6) {
        let mut t = lexp::gen_text(s, &lex, &with, 8);
        for b in &bits {
            match s.below(4) {
                0 => t += b,
                1 => t.insert_str(0, b),
                2 => t += &format!("{b}##{b}"),
                _ => (),
            }
        }
        let m = lex.run(&t, "l").map_err(|_| Stop::Discard("reference matcher out of fuel"))?;
        texts.push((t, m.items, m.end));
    }
    Ok(LexCase { which, lex, g, text, rs, texts })
}

fn lexer_compiled(ctx: &mut Ctx, v: &[LexCase]) -> R {
    let mods: Vec<Module> = v.iter().map(|x| Module::new(x.which, x.rs.clone())).collect();
    let mut jobs = vec![];
    for (i, x) in v.iter().enumerate() {
        for (t, _, _) in &x.texts {
            jobs.push(Job { module: i, text: t.clone(), label: "l".into(), plan: vec![], lex: true });
        }
    }
    let traces = match compile::compile_and_run(ctx, &mods, &jobs)? {
        Ran::Traces(t) => t,
        Ran::Broken(i, e) => {
            let x = i.map(|i| v[i].text.clone()).unwrap_or_default();
            return fail("does not compile", format!("{}: the generated parser does not compile: {e}\nfor\n{x}", i.map_or("", |i| v[i].which.cmd())));
        }
    };
    let mut k = 0;
    for x in v {
        for (t, items, end) in &x.texts {
            let mut got = traces[k].clone();
            k += 1;
            let mut want: Vec<String> = items.iter().map(|i| shown(&x.g, x.lex.end, i)).collect();
            want.push(format!("T AAEnd AAEnd \"\" l:{}:{}", end.line, end.off));
            if got == ["NOT RUN".to_string()] {
                continue;
            }
            // tokens that tie are compared without their order
            let norm = |v: &mut Vec<String>| {
                for l in v.iter_mut() {
                    if let Some(r) = l.strip_prefix("X Unexpected text [[")
                        && let Some((a, b)) = r.split_once("]] ")
                    {
                        let mut n: Vec<&str> = a.split(", ").collect();
                        n.sort();
                        *l = format!("X [{}] {b}", n.join(", "));
                    }
                }
            };
            norm(&mut got);
            norm(&mut want);
            if got != want {
                return fail("tokens", format!("{}: text {t:?}: {}\nfor\n{}", x.which.cmd(), pipe::difference(&want, &got), x.text));
            }
            ctx.case((items.len() > 1).then(|| mix(&[hash_str(&x.text), hash_str(t)])));
        }
        ctx.class("compiled and run");
    }
    Ok(())
}

fn lexer_batch(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut v = vec![];
    for _ in 0..s.range(1, 8) {
        match lexer_one(s, ctx) {
            Ok(x) => v.push(x),
            Err(Stop::Discard(_)) => (),
            Err(e) => return Err(e),
        }
    }
    if v.is_empty() {
        return Err(Stop::Discard("no lexicon"));
    }
    ctx.show(|| v[0].text.clone());
    lexer_compiled(ctx, &v)
}

fn lexer_read(s: &mut Src, ctx: &mut Ctx) -> R {
    let x = lexer_one(s, ctx)?;
    ctx.show(|| x.text.clone());
    let one = std::slice::from_ref(&x);
    let Some(rd) = rust::read(&x.rs, &x.g) else {
        ctx.class("unreadable");
        return lexer_compiled(ctx, one);
    };
    let (want, _) = text::names(&x.g);
    if rd.tab.names != want || rd.lex.end != 0 {
        return lexer_compiled(ctx, one).and(err(format!("read {:?} for {}", rd.tab.names, x.text)));
    }
    // number n of the specification is tag n + 1
    let tag = |t: usize| if t == 0 { Tg(x.lex.end) } else { Tg(t as u16 - 1) };
    let lits: Vec<(Tg, &str)> = rd.lex.lits.iter().map(|(t, l)| (tag(*t), l.as_str())).collect();
    let res: Vec<(Tg, &str)> = rd.lex.res.iter().map(|(t, l)| (tag(*t), l.as_str())).collect();
    let skips: Vec<&str> = rd.lex.skips.iter().map(|l| l.as_str()).collect();
    let Ok(a) = sut(|| lexan::LexicalAnalyzer::new(&lits, &res, &skips, tag(0))) else {
        ctx.class("differs when read");
        lexer_compiled(ctx, one)?;
        return err(format!("the lexicon read is no good, but the compiled one is, for\n{}", x.text));
    };
    for (t, items, end) in &x.texts {
        let want: Vec<Item> = items.iter().map(|i| if let Item::Ambig(v, x, l) = i { Item::Ambig(sorted(v), x.clone(), l.clone()) } else { i.clone() }).collect();
        let ok = match lexp::read_all(&a, x.lex.end, t, "l", t.chars().count() + 1) {
            Ok((got, Some(Item::Tok(_, _, l)))) => {
                let got: Vec<Item> = got.iter().map(|i| if let Item::Ambig(v, x, l) = i { Item::Ambig(sorted(v), x.clone(), l.clone()) } else { i.clone() }).collect();
                got == want && l == *end
            }
            _ => false,
        };
        if !ok {
            ctx.class("differs when read");
            lexer_compiled(ctx, one)?;
            return err(format!("the lexicon read differs on {t:?}, but the compiled one does not, for\n{}", x.text));
        }
        ctx.case((items.len() > 1).then(|| mix(&[hash_str(&x.text), hash_str(t)])));
    }
    ctx.class("read");
    Ok(())
}

fn sorted(v: &[u16]) -> Vec<u16> {
    let mut v = v.to_vec();
    v.sort();
    v
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "A case is one text tokenised by the lexical analyzer of the parser generated from a random specification (literals and expressions with quotes, braces, number signs, brackets, Unicode; tokens declared but unused; odd names), compared with a reference tokeniser working on the declared patterns, token names included. Non-trivial: the text gives at least two tokens or errors. Distinct by specification and text.",
        assumptions: vec!["literal tokens have no quotes or backslashes in them", "regular expressions are of the harness's own subset, written in brackets", "most analyzers are built from the entries read from the generated code; a share, and every difference, is compiled and run"],
        suites: vec![suite("read", 4000, 60000, lexer_read), suite_b("compiled", 60, 1500, 60, lexer_batch)],
    }
}
