//! C22: generators rebuilt with the parsers they generate from their own specifications.
use super::specp::any_grammar;
use crate::spec::{self, Style};
use super::crashp::{included, near_text, own, put, shown};
use crate::cli::{self, Aug, Done, LIMIT, Plain, Which};
use crate::compile;
use crate::run::*;
use crate::tape::{Src, hash_str, mix};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;
use std::time::Duration;

enum Built {
    /// The two rebuilt commands.
    Exes([PathBuf; 2]),
    /// The generator fails on its own specification, or what it gives does not compile.
    Broken(String),
    /// The check cannot tell.
    Unable(String),
}

fn repo() -> PathBuf {
    PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| ".".into())).join("../repo")
}

fn copy(from: &Path, to: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = to.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy(&e.path(), &t)?;
        } else {
            std::fs::copy(e.path(), &t)?;
        }
    }
    Ok(())
}

pub fn rustc(d: &Path, args: &[String]) -> Result<Done, String> {
    let mut a: Vec<String> = ["CARGO_PKG_AUTHORS=a", "CARGO_PKG_NAME=n", "CARGO_PKG_VERSION=1.0.0", "CARGO_PKG_VERSION_MAJOR=1", "CARGO_PKG_VERSION_MINOR=0", "CARGO_PKG_VERSION_PATCH=0", "CARGO_PKG_DESCRIPTION=d", "CARGO_PKG_HOMEPAGE=h", "CARGO_CRATE_NAME=n", "CARGO_MANIFEST_DIR=."].iter().map(|s| s.to_string()).collect();
    a.push("rustc".into());
    a.extend(["--edition", "2024", "-Copt-level=1", "-Cdebuginfo=0", "-Cdebug-assertions=on", "--cap-lints", "allow", "--color", "never"].iter().map(|s| s.to_string()));
    a.extend(args.iter().cloned());
    cli::exec_os(Path::new("/usr/bin/env"), &a, d, Duration::from_secs(300))
}

fn one(which: Which, dir: &Path) -> Result<PathBuf, Built> {
    let un = |e: String| Built::Unable(e);
    let io = |e: std::io::Error| Built::Unable(e.to_string());
    let lib = format!("{}_lib", which.krate());
    let d = dir.join(&lib);
    copy(&repo().join(&lib).join("src"), &d.join("src")).map_err(io)?;
    // as the build script of the library does it
    let spec = format!("src/parser.{}", which.ext());
    std::fs::remove_file(d.join("src/parser.rs")).map_err(io)?;
    let e = cli::exec(&cli::exe(which), &["-f", &spec], &d, LIMIT).map_err(un)?;
    if !e.ok() || !d.join("src/parser.rs").exists() {
        return Err(Built::Broken(format!("{} fails on its own specification: status {:?} {}", which.cmd(), e.code, cli::tail(&e.stderr))));
    }
    let (ext, deps) = compile::all_externs().map_err(un)?;
    let mut common: Vec<String> = vec!["-L".into(), format!("dependency={deps}"), "-L".into(), d.to_string_lossy().into_owned()];
    for (n, f) in &ext {
        if *n != lib {
            common.extend(["--extern".into(), format!("{n}={f}")]);
        }
    }
    let mut a = common.clone();
    a.extend(["--crate-type", "rlib", "--crate-name", &lib, "-o", &format!("lib{lib}.rlib"), "src/lib.rs"].iter().map(|s| s.to_string()));
    let c = rustc(&d, &a).map_err(un)?;
    if !c.ok() {
        return Err(if c.hang || c.signal.is_some() { Built::Unable(c.stderr) } else { Built::Broken(format!("the parser {} makes from its own specification does not compile: {}", which.cmd(), cli::tail(&c.stderr))) });
    }
    let main = std::fs::canonicalize(repo().join(which.cmd()).join("src/main.rs")).map_err(io)?;
    let mut a = common;
    a.extend(["--crate-type", "bin", "--crate-name", which.cmd(), "--extern", &format!("{lib}=lib{lib}.rlib"), "-o", which.cmd(), &main.to_string_lossy()].iter().map(|s| s.to_string()));
    let c = rustc(&d, &a).map_err(un)?;
    if !c.ok() {
        return Err(Built::Unable(format!("building {}: {}", which.cmd(), c.stderr)));
    }
    Ok(d.join(which.cmd()))
}

fn built() -> &'static Built {
    static B: OnceLock<Built> = OnceLock::new();
    B.get_or_init(|| {
        let dir = scratch_dir().join("boot");
        let (a, b) = std::thread::scope(|sc| {
            let a = sc.spawn(|| one(Plain, &dir));
            let b = sc.spawn(|| one(Aug, &dir));
            (a.join().unwrap(), b.join().unwrap())
        });
        match (a, b) {
            (Ok(a), Ok(b)) => Built::Exes([a, b]),
            (Err(Built::Unable(e)), _) | (_, Err(Built::Unable(e))) => Built::Unable(e),
            (Err(e), _) | (_, Err(e)) => e,
        }
    })
}

type Files = Vec<(String, Option<Vec<u8>>)>;

fn run(exe: &Path, d: &Path, opts: &[&str]) -> R<(Done, Files)> {
    for n in ["s.rs", "s.states"] {
        let _ = std::fs::remove_file(d.join(n));
    }
    let mut a = opts.to_vec();
    a.push("s.spec");
    let e = cli::exec(exe, &a, d, LIMIT).map_err(Stop::Error)?;
    Ok((e, ["s.rs", "s.states"].iter().map(|n| (n.to_string(), std::fs::read(d.join(n)).ok())).collect()))
}

fn same(ctx: &mut Ctx, which: Which, text: &str, inc: &[(String, Vec<u8>)], opts: &[&str]) -> R {
    pause();
    let b = built();
    beat();
    let exes = match b {
        Built::Exes(e) => e,
        Built::Broken(e) => return fail("broken", e.clone()),
        Built::Unable(e) => return err(e.clone()),
    };
    let d = cli::fresh_dir(ctx)?;
    put(&d, "s.spec", text.as_bytes())?;
    for (n, t) in inc {
        put(&d, n, t)?;
    }
    let (a, fa) = run(&cli::exe(which), &d, opts)?;
    if a.crash().is_some() {
        return Err(Stop::Discard("the generator crashes"));
    }
    let (b, fb) = run(&exes[(which == Aug) as usize], &d, opts)?;
    let what = || {
        let f = inc.iter().map(|(n, t)| format!("\nwith {n}: {}", shown(t))).collect::<String>();
        format!("for {}{f}", shown(text.as_bytes()))
    };
    if let Some(c) = b.crash() {
        return fail("crash", format!("{} with its own parser: {c} {}", which.cmd(), what()));
    }
    if (a.code, &a.stderr, &a.stdout) != (b.code, &b.stderr, &b.stdout) {
        return fail("diagnostics", format!("{}: status {:?} and `{}`, but with its own parser status {:?} and `{}` {}", which.cmd(), a.code, a.stderr.trim(), b.code, b.stderr.trim(), what()));
    }
    for ((n, x), (_, y)) in fa.iter().zip(&fb) {
        if x != y {
            return fail("output", format!("{}: another {n} with its own parser {}", which.cmd(), what()));
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    let told = text.contains("%%");
    ctx.case(told.then(|| mix(&[which as u64, opts.len() as u64, hash_str(text)])));
    ctx.class(if a.ok() { "accepted" } else { "refused" });
    Ok(())
}

const OPTS: [&[&str]; 2] = [&["-f"], &["-f", "--ignore-sr-conflicts", "--ignore-rr-conflicts"]];

fn texts(s: &mut Src, ctx: &mut Ctx) -> R {
    let which = *s.pick(&cli::BOTH);
    let text = near_text(s, which);
    let inc = included(s, which);
    let opts = OPTS[s.weighted(&[1, 2])];
    ctx.show(|| text.clone());
    same(ctx, which, &text, &inc, opts)
}

/// What may stand between two pieces, or cannot, at the edges of what the lexer of specifications accepts.
const BETWEEN: [&str; 36] = [
    "", "", " ", "\n", "\r", "\r\n", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{200b}", "\u{feff}", "\0",
    "// c\n", "// c\r", "// c\r\n", "//\n", "//\r//\n", "// c\u{b}d\n", "// c\u{2028}d\n", "/// c /* \n", "//é€😀\n",
    "/**/", "/***/", "/* c **/", "/*/ */", "/*\r*/", "/*\n*/", "/*\u{85}\u{2028}*/", "/* /* */", "/* é€😀 */", "/* ", "*/", "/ /",
];

/// Lexemes at the edges of the token classes.
const EDGES: [&str; 64] = [
    "a", "A1", "a_", "_a", "a__1", "1a", "0", "00", "10", "4294967295", "65536", "é", "aé", "%", "%%", "%%%", "% token", "%tokenx", "%Token", "%token1", "%skips", "%lef", "%error", "%errors", "%prec1",
    "\"\"", "\"a", "\"a\\\"", "\"a\\\"b\"", "\"\t\"", "\"\r\"", "\"\u{b}\"", "\"\u{c}\"", "\"é\"", "\"\u{85}\"", "\"\\\\\"", "\"a\" \"b\"", "'a'",
    "()", "(a)", "((a)", "(a))", "(a\nb)", "(a\rb)", "(\\))", "(a) (b)", "(é)", "(a)\t(b",
    "!{!}", "!{ } !}", "!{ ! } !}", "!{\n\r!}", "!{ é !}", "!{ !{ !}", "?(?)", "?( ) ?)", "?(\n\r?)", "?( ?( ?)", "?( é ?)", "%{%}", "%{ } %}", "%{\n\r%}", "%inject\"inc.txt\".", "%inject \"inc.txt\"",
];

/// Specifications in which single layouts and lexemes are extraordinary.
fn layouts(s: &mut Src, ctx: &mut Ctx) -> R {
    let which = *s.pick(&cli::BOTH);
    let g = loop {
        let g = any_grammar(s, which == Aug);
        if which == Aug || g.prods.iter().all(|p| p.pred.is_none()) {
            break g;
        }
    };
    let st = Style::random(s, &g);
    let ps = spec::pieces(&g, &st, which == Aug);
    let n = ps.len();
    let mut odd: Vec<usize> = vec![];
    for _ in 0..s.range(1, 5) {
        odd.push(s.below(n + 1));
    }
    let edge = s.chance(1, 3).then(|| s.below(n));
    let mut text = String::new();
    for i in 0..=n {
        if i > 0 && ps[i - 1].kind == spec::K::Regex {
            text.push('\n');
        }
        if odd.contains(&i) {
            for _ in 0..s.weighted(&[0, 6, 2, 1]) {
                text += s.pick(&BETWEEN);
            }
        } else if i > 0 && i < n {
            text.push(' ');
        }
        if edge == Some(i) {
            match s.below(4) {
                0 => text += &ps[i].text,
                1 => text.push(' '),
                _ => {}
            }
            text += s.pick(&EDGES);
            if s.chance(1, 2) {
                text.push(*s.pick(&[' ', '\n']));
            }
        } else if i < n {
            text += &ps[i].text;
        }
    }
    if s.chance(1, 2) {
        text.push('\n');
    }
    ctx.show(|| format!("{text:?}"));
    let inc = included(s, which);
    same(ctx, which, &text, &inc, OPTS[1])
}

/// The specifications of the repository, as they are.
fn owns(i: usize, ctx: &mut Ctx) -> R {
    let n = own().len();
    let Some(text) = own().get(i / 4) else {
        return if n == 0 { err("no specifications in the repository") } else { Err(Stop::Discard("one less")) };
    };
    ctx.show(|| text.clone());
    same(ctx, cli::BOTH[i % 2], text, &[], OPTS[i / 2 % 2])
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "A case is one specification text (random ones, with and without defects, and the repository's own, mutated by token and by character, and with single extraordinary layouts and lexemes; with odd include files) given to the generator as built and to the same generator rebuilt with the parser that it generates from its own specification; status, diagnostics, generated parser and report have to be the same. Non-trivial: the text holds a section mark. Distinct by command, options and text.",
        assumptions: vec!["both are built by the same compiler, with debug assertions", "texts on which the generator crashes are left to C20"],
        suites: vec![fixed("own", 28, owns), suite_b("texts", 10000, 180000, 600, texts), suite_b("layouts", 8000, 150000, 600, layouts)],
    }
}
