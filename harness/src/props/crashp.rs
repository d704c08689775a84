//! C20: no input makes the generators crash.
use super::specp::any_grammar;
use crate::cli::{self, Aug, BOTH, Done, LIMIT, Plain, Which};
use crate::defect;
use crate::gram::Gram;
use crate::run::*;
use crate::spec::{self, Style};
use crate::tape::{Src, hash_str, mix};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

/// What a specification may be made of, and what it may not.
const POOL: [&str; 74] = [
    "%attr", "%target", "%token", "%left", "%right", "%nonassoc", "%prec", "%skip", "%error", "%inject", "%%", ":", "|", ".", "%reduce_reduce", "%shift_reduce", "0", "1", "4294967295", "4294967296", "99999999999999999999999",
    "A", "B", "S", "Expr", "VAttr", "AAEnd", "AAStart", "AAError", "AAInvalid", "aa", "x", "AA", "é", "_a", "1a", "\"a\"", "\"\"", "\"\\\"\"", "\"\\\\\"", "\"", "\"a", "\"日本\"", "\"inc.txt\"", "\"inc2.txt\"", "\"nope\"", "\".\"", "\"/\"", "\" \"",
    "([a-z]+)", "(a)", "()", "(a|)", "(?i)", "((?x) a # b)", "(\\p{L}+)", "(a{1000}{1000})", "([)", "(\\)", "(", ")",
    "!{!}", "!{ $$ = $1.clone(); !}", "!{ $0 $99 $4294967296 $99999999999999999999 $ $$$ $INJECT $INJECT( $? $a !}", "!{", "!}", "?(true?)", "?( $1 $2 $0 $99999999999 $? ?)", "?(", "%{ %}", "%{", "%}", "/* ", "// ",
];

const CHARS: [char; 40] = [
    '"', '\'', '\\', '(', ')', '{', '}', '[', ']', '%', '$', '!', '?', '.', ':', '|', '/', '*', '#', '\0', '\u{1}', '\t', '\n', '\r', '\u{b}', '\u{c}', ' ', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', 'é', '日', '😀', '\u{301}', 'ſ', 'A', 'a', '0', '9',
];

/// The specifications that come with the repository.
pub fn own() -> &'static Vec<String> {
    static OWN: OnceLock<Vec<String>> = OnceLock::new();
    OWN.get_or_init(|| {
        let root = PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| ".".into())).join("../repo");
        ["lalr1_lib/src/parser.laps", "alalr1_lib/src/parser.alaps", "lap_gen/src/lap_gen.laps", "alap_gen/src/alap_gen.alaps", "examples/calc_no_aug/src/calc_no_aug.laps", "examples/calc/src/calc.alaps", "examples/calc_no_er/src/calc_no_er.alaps"]
            .iter()
            .filter_map(|p| std::fs::read_to_string(root.join(p)).ok())
            .collect()
    })
}

/// The tokens of a text, roughly.
fn words(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in t.chars() {
        let same = cur.chars().last().is_some_and(|l| (l.is_alphanumeric() || l == '_' || l == '%') && (c.is_alphanumeric() || c == '_'));
        if !same && !cur.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
        cur.push(c);
    }
    v.push(cur);
    v
}

fn base(s: &mut Src, which: Which) -> Vec<String> {
    match s.weighted(&[6, 2, 2, 1]) {
        0 | 2 => {
            let g: Gram = loop {
                let g = any_grammar(s, which == Aug);
                if which == Aug || g.prods.iter().all(|p| p.pred.is_none()) {
                    break g;
                }
            };
            let st = Style::random(s, &g);
            let mut ps = spec::pieces(&g, &st, which == Aug);
            if s.chance(1, 4) {
                let kind = s.below(defect::KINDS);
                if let Some(d) = defect::plant(s, &g, &ps, kind) {
                    ps = d.pieces;
                }
            }
            let mut v = vec![];
            for p in ps {
                v.push(p.text.clone());
                v.push(if p.kind == spec::K::Regex || s.chance(1, 8) { "\n".into() } else { " ".into() });
            }
            v
        }
        1 if !own().is_empty() => words(&s.pick(own()).clone()),
        _ => (0..s.range(0, 40)).flat_map(|_| [s.pick(&POOL).to_string(), if s.chance(1, 3) { "\n" } else { " " }.to_string()]).collect(),
    }
}

fn mutate(s: &mut Src, v: &mut Vec<String>, other: &[String]) {
    let n = v.len();
    if n == 0 {
        v.push(s.pick(&POOL).to_string());
        return;
    }
    let i = s.below(n);
    match s.below(16) {
        0 => {
            v.remove(i);
        }
        1 => {
            let j = (i + s.range(1, 12)).min(n);
            v.drain(i..j);
        }
        2 => {
            let j = (i + s.range(1, 12)).min(n);
            let c = v[i..j].to_vec();
            let at = s.below(n + 1);
            v.splice(at..at, c);
        }
        3 => {
            let j = s.below(n);
            v.swap(i, j);
        }
        4 | 5 => v[i] = s.pick(&POOL).to_string(),
        6 | 7 => {
            v.insert(i, " ".into());
            v.insert(i, s.pick(&POOL).to_string());
            v.insert(i, " ".into());
        }
        8 => {
            let j = s.below(n);
            v[i] = v[j].clone();
        }
        9 => v.truncate(i),
        10 if !other.is_empty() => {
            let a = s.below(other.len());
            let b = (a + s.range(1, 60)).min(other.len());
            v.splice(i..i, other[a..b].to_vec());
        }
        11 => {
            // a character more
            let c = *s.pick(&CHARS);
            let w: Vec<char> = v[i].chars().collect();
            let at = s.below(w.len() + 1);
            v[i] = w[..at].iter().chain([&c]).chain(&w[at..]).collect();
        }
        12 => {
            // a character less, or another one
            let mut w: Vec<char> = v[i].chars().collect();
            if !w.is_empty() {
                let at = s.below(w.len());
                if s.chance(1, 2) {
                    w.remove(at);
                } else {
                    w[at] = *s.pick(&CHARS);
                }
            }
            v[i] = w.into_iter().collect();
        }
        13 => {
            let k = s.range(2, 40);
            let w = v[i].repeat(k);
            v[i] = w;
        }
        _ => {
            let r = run(s);
            if s.chance(1, 2) {
                v[i] = r;
            } else {
                v.insert(i, r);
            }
        }
    }
}

/// Something long of characters of several bytes: whoever shortens or measures it may cut in the middle of one.
fn run(s: &mut Src) -> String {
    let (lo, hi) = *s.pick(&[(5, 30), (30, 70), (70, 140), (240, 280), (500, 1100), (4080, 4110)]);
    let n = s.range(lo, hi);
    let set: &[char] = *s.pick(&[&['é', '¬', 'ß'][..], &['€', '日', '—'], &['😀', '𝔸'], &['a', 'é', '日', '😀', 'x', '€'], &['a'], &['1'], &['@', '¬', '€']]);
    let mut t = String::new();
    if s.chance(1, 2) {
        t.push(*s.pick(&['a', 'é', '日', '😀']));
    }
    let one = *s.pick(set);
    let same = s.chance(1, 2);
    while t.len() < n {
        t.push(if same { one } else { *s.pick(set) });
    }
    match s.below(14) {
        0..4 => format!(" {t} "),
        4 | 5 => format!(" \"{t}\" "),
        6 => format!(" ({t})\n"),
        7 => format!(" !{{{t}!}} "),
        8 => format!(" ?({t}?) "),
        9 => format!(" // {t}\n"),
        10 => format!(" /* {t} */ "),
        11 => format!(" %inject \"{t}\". "),
        12 => format!(" A{} ", t.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { 'b' }).collect::<String>()),
        _ => format!(" \"{t}"),
    }
}

pub fn near_text(s: &mut Src, which: Which) -> String {
    let mut v = base(s, which);
    let other = if s.chance(1, 4) { base(s, which) } else { vec![] };
    for _ in 0..s.weighted(&[3, 8, 4, 2, 2, 1, 1, 1]) {
        mutate(s, &mut v, &other);
    }
    v.concat()
}

/// Text of any kind, at random places also with bytes that are no text.
fn noise(s: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..s.range(0, 60) {
        match s.weighted(&[6, 6, 2, 1]) {
            0 => out.extend(s.pick(&POOL).as_bytes()),
            1 => {
                let mut b = [0; 4];
                out.extend(s.pick(&CHARS).encode_utf8(&mut b).as_bytes());
            }
            2 => out.push(b' '),
            _ => out.push(s.below(256) as u8),
        }
    }
    out
}

pub fn included(s: &mut Src, which: Which) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for n in ["inc.txt", "inc2.txt"] {
        let t = match s.below(5) {
            0 => vec![],
            1 => noise(s),
            2 => near_text(s, which).into_bytes(),
            3 => format!("%inject \"{}\".", s.pick(&["inc.txt", "inc2.txt", "s.laps", "0.spec"])).into_bytes(),
            _ => (0..s.range(1, 8)).map(|_| s.pick(&POOL).to_string() + " ").collect::<String>().into_bytes(),
        };
        v.push((n.to_string(), t));
    }
    v
}

pub fn put(d: &Path, n: &str, t: &[u8]) -> R {
    std::fs::write(d.join(n), t).map_err(|e| Stop::Error(format!("{n}: {e}")))
}

/// The command has to end by itself, with a parser or a complaint.
fn decent(e: &Done, rs: &Path, which: Which, what: &dyn Fn() -> String) -> R {
    if let Some(c) = e.crash() {
        return fail("crash", format!("{}: {c} on {}", which.cmd(), what()));
    }
    if e.ok() && !rs.exists() {
        return fail("no parser", format!("{}: success without a parser on {}", which.cmd(), what()));
    }
    if !e.ok() && e.stderr.trim().is_empty() {
        return fail("silent", format!("{}: status {:?} without a word on {}", which.cmd(), e.code, what()));
    }
    Ok(())
}

pub fn shown(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(t) => format!("{t}\n({t:?})"),
        Err(_) => format!("{:?}", String::from_utf8_lossy(b)),
    }
}

/// A batch of texts: the libraries in one process, which fails as a whole if one of them crashes it;
/// the first text also by the command.
fn batch(s: &mut Src, ctx: &mut Ctx, bytes: bool) -> R {
    let which = *s.pick(&BOTH);
    let n = s.range(1, 12);
    let inc = included(s, which);
    let v: Vec<Vec<u8>> = (0..n).map(|_| if bytes { noise(s) } else { near_text(s, which).into_bytes() }).collect();
    ctx.show(|| shown(&v[0]));
    let d = cli::fresh_dir(ctx)?;
    for (n, t) in &inc {
        put(&d, n, t)?;
    }
    let mut plan = "thread\n".to_string();
    for (i, t) in v.iter().enumerate() {
        put(&d, &format!("{i}.spec"), t)?;
        for mode in ["api", "full"] {
            plan += &format!("{}\t{mode}\t{i}.spec\tout\n", if which == Plain { "plain" } else { "aug" });
        }
    }
    put(&d, "plan", plan.as_bytes())?;
    let files = || inc.iter().map(|(n, t)| format!("\nwith {n}: {}", shown(t))).collect::<String>();
    let e = cli::exec(&std::env::current_exe().unwrap(), &["worker", "plan"], &d, LIMIT).map_err(Stop::Error)?;
    for (i, t) in v.iter().enumerate() {
        for k in 0..2 {
            let tag = format!("0.{} ", 2 * i + k);
            match e.stdout.lines().find_map(|l| l.strip_prefix(&tag)) {
                Some("panicked") => return fail("panic", format!("{}: panicked on {}{}", which.krate(), shown(t), files())),
                Some(r) => {
                    ctx.class(if r == "written" { "accepted" } else { "refused" });
                    let told = t.windows(2).any(|w| w == b"%%");
                    ctx.case(told.then(|| mix(&[k as u64, hash_str(&String::from_utf8_lossy(t))])));
                }
                None => return fail("crash", format!("{}: {} on {}{}", which.krate(), e.crash().unwrap_or_else(|| format!("status {:?}", e.code)), shown(t), files())),
            }
        }
    }
    let e = cli::exec(&cli::exe(which), &["-f", "0.spec"], &d, LIMIT).map_err(Stop::Error)?;
    decent(&e, &d.join("0.rs"), which, &|| format!("{}{}", shown(&v[0]), files()))?;
    ctx.case(None);
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

fn near(s: &mut Src, ctx: &mut Ctx) -> R {
    batch(s, ctx, false)
}

fn bytes(s: &mut Src, ctx: &mut Ctx) -> R {
    batch(s, ctx, true)
}

/// Large specifications of many shapes.
fn shape(s: &mut Src) -> (String, Vec<(String, String)>, usize, usize) {
    let k = s.below(26);
    let head = "%attr A\n%target T\n%%\n";
    let toks = "%token A \"a\"\n%token B \"b\"\n";
    let skip = "%skip (\\s+)\n";
    let mut n = 0;
    let mut size = |s: &mut Src, hi: usize| {
        n = s.range(1, hi);
        if s.chance(1, 2) {
            n = s.range(hi / 2, hi);
        }
        n
    };
    let j = |n: usize, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    let mut files = vec![];
    let t = match k {
        0 => {
            let n = size(s, 300);
            format!("{head}{toks}{skip}%%\n{}A{n} : A .\n", j(n, &|i| format!("A{i} : A{} .\n", i + 1)))
        }
        1 => {
            let n = size(s, 300);
            format!("{head}{toks}{skip}%%\n{}A{n} : A .\n", j(n, &|i| format!("A{0} : A{1} .\n", n - 1 - i, n - i)))
        }
        2 => {
            let n = size(s, 250);
            format!("{head}{toks}{skip}%%\n{}A{n} : A .\n", j(n, &|i| format!("A{i} : A A{} B .\n", i + 1)))
        }
        3 => {
            let n = size(s, 600);
            format!("{head}{toks}{skip}%%\nS : {}.\n", "A ".repeat(n))
        }
        4 => {
            // round and round
            let n = size(s, 150);
            format!("{head}{toks}{skip}%%\n{}A{n} : A0 | A .\n", j(n, &|i| format!("A{i} : A{} .\n", i + 1)))
        }
        5 => {
            let n = size(s, 60);
            format!("{head}{}{skip}%%\nS : {}.\n{}", j(n, &|i| format!("%token T{i} \"t{i}\"\n")), j(n, &|i| format!("A{i} ")), j(n, &|i| format!("A{i} : | T{i} .\n")))
        }
        6 => {
            let n = size(s, 400);
            format!("{head}{}{skip}%%\nS : {}T0 T0.\n", j(n, &|i| format!("%token T{i} \"t{i}\"\n")), j(n, &|i| format!("T{i} | ")))
        }
        7 => {
            let n = size(s, 70);
            format!("{head}{}{skip}%%\nS : {}.\n", j(n, &|i| format!("%token T{i} (t{i}|u{i})\n")), j(n, &|i| format!("| S T{i} ")))
        }
        8 => {
            let n = size(s, 4000);
            format!("{head}%token A {}c{}\n{skip}%%\nS : A .\n", "(".repeat(n), ")".repeat(n))
        }
        9 => {
            let n = size(s, 3000);
            format!("{head}{toks}{skip}%%\nS : {}.\n", j(n, &|i| format!("X{i} ")))
        }
        10 => {
            let n = size(s, 5000);
            format!("{head}{toks}{skip}%%\n{}", ". ".repeat(n))
        }
        11 => {
            let n = size(s, 70_000);
            format!("{head}{toks}{skip}{}%%\nS : A | S B .\n", j(n, &|i| format!("%left T{i}\n")))
        }
        12 => {
            let n = size(s, 3000);
            format!("{head}{toks}{skip}%left {}\n%%\nS : A .\n", j(n, &|i| format!("T{i} ")))
        }
        13 => {
            // include files that include others
            let n = size(s, 400);
            for i in 0..n {
                files.push((format!("i{i}"), format!("X{i} : A .\n%inject \"i{}\".\n", i + 1)));
            }
            files.push((format!("i{n}"), "S : A .\n".into()));
            format!("{head}{toks}{skip}%%\n%inject \"i0\".\n")
        }
        14 => {
            let n = size(s, 400);
            files.push(("i0".into(), "S : A .\n".into()));
            format!("{head}{toks}{skip}%%\n{}", j(n, &|i| format!("%inject \"i0\".\nX{i} : A .\n")))
        }
        15 => {
            let n = size(s, 200_000);
            format!("%{{ {} %}}\n{head}{toks}{skip}%%\nS : A !{{ {} !}} .\n", "{ x }".repeat(n / 5), "$1 $$ ".repeat(n / 6))
        }
        16 => {
            let n = size(s, 100_000);
            format!("{head}%token A \"{}\"\n{skip}%%\nS : A .\n", "x".repeat(n))
        }
        17 => {
            let n = size(s, 100_000);
            format!("{head}%token A{0} \"a\"\n{skip}%%\nS{0} : A{0} | S{0} A{0} .\n", "x".repeat(n))
        }
        18 => {
            let n = size(s, 100_000);
            format!("{head}{toks}{skip}%%\nS : A {} A .\n", *s.pick(&["/*", "//", "\"", "!{", "?(", "%{", "(", "é", "\0", "\r", "\u{85}", "/* */", "// \n"])).replace(" A .", &format!("{} A .", "z".repeat(n)))
        }
        19 => {
            let n = size(s, 60_000);
            let c = *s.pick(&["(", ")", "\"", "%", "é", "/* */", "!{!}", "?(?)", "%{%}", "\0", "🦀", "%%", "$"]);
            format!("{head}{toks}{skip}%%\nS : A {}", c.repeat(n))
        }
        20 => {
            // many alternatives with predicates
            let n = size(s, 120);
            format!("{head}{toks}{skip}%%\nS : {} A .\n", j(n, &|i| format!("A ?( $1.0 == {i} ?) | ")))
        }
        21 => {
            // errors everywhere
            let n = size(s, 25);
            format!("{head}{}{skip}%%\nS : {} %error .\n{}", j(n, &|i| format!("%token T{i} \"t{i}\"\n")), j(n, &|i| format!("A{i} | S A{i} | ")), j(n, &|i| format!("A{i} : T{i} A{} | %error T{i} .\n", (i + 1) % n)))
        }
        22 => {
            let n = size(s, 1500);
            format!("{head}{toks}{}%%\nS : A .\n", j(n, &|i| format!("%skip (s{i})\n")))
        }
        23 => {
            let n = size(s, 10_000);
            format!("%attr A\n%target T\n{}%%\n{toks}{skip}%%\nS : A .\n", j(n, &|i| [format!("%shift_reduce {i}\n"), "%attr A\n".into(), "%target T\n".into(), format!("%reduce_reduce {i}\n")][i % 4].clone()))
        }
        24 => {
            let n = size(s, 3000);
            format!("{head}{toks}{skip}%%\n{}", j(n, &|i| format!("S : A {} .\n", "B ".repeat(i % 7))))
        }
        _ => {
            // repeated counts in expressions
            let n = size(s, 4);
            format!("{head}%token A ({}{})\n{skip}%%\nS : A .\n", *s.pick(&["a", "\\w", "[^x]", "\\p{L}"]), "{1,9}".repeat(n))
        }
    };
    (t, files, k, n)
}

fn shapes(s: &mut Src, ctx: &mut Ctx) -> R {
    let which = *s.pick(&BOTH);
    let (t, files, k, n) = shape(s);
    let cut = |t: &str| -> String { if t.chars().count() > 600 { t.chars().take(600).collect::<String>() + "…" } else { t.into() } };
    ctx.show(|| format!("shape {k} of size {n}: {}", cut(&t)));
    let d = cli::fresh_dir(ctx)?;
    for (f, t) in &files {
        put(&d, f, t.as_bytes())?;
    }
    put(&d, "s.spec", t.as_bytes())?;
    let mut args = vec!["-f", "s.spec"];
    if s.chance(2, 3) {
        args = vec!["-f", "--ignore-sr-conflicts", "--ignore-rr-conflicts", "s.spec"];
    }
    let e = cli::exec(&cli::exe(which), &args, &d, LIMIT * 2).map_err(Stop::Error)?;
    decent(&e, &d.join("s.rs"), which, &|| format!("shape {k} of size {n}: {}", cut(&t)))?;
    ctx.class(&format!("shape {k}{}", if e.ok() { ", accepted" } else { "" }));
    ctx.case(Some(mix(&[k as u64, n as u64, which as u64])));
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

/// Odd files and names, given to the command.
fn names(s: &mut Src, ctx: &mut Ctx) -> R {
    let which = *s.pick(&BOTH);
    let d = cli::fresh_dir(ctx)?;
    let io = |e: std::io::Error| Stop::Error(e.to_string());
    let w = d.join("a").join("b");
    std::fs::create_dir_all(w.join("dir.spec")).map_err(io)?;
    let text = if s.chance(1, 2) { "%attr A\n%target T\n%%\n%token A \"a\"\n%%\nS : A .\n".to_string() } else { near_text(s, which) };
    let odd: Vec<OsString> = [&b"s.spec"[..], b"x", b".spec", b"\xff.spec", b"a b", b"\xc3", b"-", b"a\nb.x", b"{}.{}", b"%s"].iter().map(|b| OsString::from_vec(b.to_vec())).collect();
    for o in &odd {
        std::fs::write(w.join(o), &text).map_err(io)?;
    }
    let _ = std::os::unix::fs::symlink("loop", w.join("loop"));
    let _ = std::os::unix::fs::symlink("s.spec", w.join("link"));
    let any = |s: &mut Src| -> OsString {
        match s.below(10) {
            0..=4 => s.pick(&odd).clone(),
            5 => OsString::from_vec(b"gone\xfe/x.spec".to_vec()),
            6 => "n".repeat(300).into(),
            _ => (*s.pick(&["dir.spec", "loop", "link", "gone.spec", "", ".", "..", "dir.spec/", "s.spec/", "./s.spec", "gone/x.spec", "../b/s.spec", "--", "/"])).into(),
        }
    };
    let mut args: Vec<OsString> = vec![];
    for o in ["-f", "--force", "--ignore-sr-conflicts", "--ignore-rr-conflicts"] {
        if s.chance(1, 3) {
            args.push(o.into());
        }
    }
    if s.chance(2, 3) {
        args.push(if s.chance(1, 2) { "-o" } else { "--output" }.into());
        args.push(any(s));
    }
    if s.chance(9, 10) {
        args.push(any(s));
    }
    if s.chance(1, 20) {
        args.push(any(s));
    }
    ctx.show(|| format!("{} {args:?}", which.cmd()));
    let e = cli::exec_os(&cli::exe(which), &args, &w, LIMIT).map_err(Stop::Error)?;
    let what = format!("{args:?} with {}", shown(text.as_bytes()));
    if let Some(c) = e.crash() {
        return fail("crash", format!("{}: {c} on {what}", which.cmd()));
    }
    if !e.ok() && e.stderr.trim().is_empty() {
        return fail("silent", format!("{}: status {:?} without a word on {what}", which.cmd(), e.code));
    }
    ctx.class(if e.ok() { "odd names, accepted" } else { "odd names, refused" });
    ctx.case((!args.is_empty()).then(|| hash_str(&format!("{args:?}{}", text.len()))));
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "A case is one text given to a generator library or command (random specifications and the repository's own, mutated by token and by character; token soups and arbitrary bytes, with odd include files; large specifications of 26 shapes; odd file names and arguments); it has to end within a minute, without a panic or a signal, and with a parser or a complaint. Non-trivial: the text holds at least one section mark, or is a large shape, or arguments are odd. Distinct by text, by shape and size, or by arguments.",
        assumptions: vec!["sizes stay where the generators, whose run time grows with the cube of some of them, need seconds", "included text does not grow exponentially by nested includes", "memory and disk do not run out"],
        suites: vec![suite_b("near", 8000, 150000, 400, near), suite_b("bytes", 1200, 40000, 400, bytes), suite_b("shapes", 600, 4000, 60, shapes), suite_b("names", 2000, 20000, 400, names)],
    }
}
