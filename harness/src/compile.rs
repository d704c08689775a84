//! Compiling generated parsers against the real runtime crates and running them.
use crate::cli::{Which, exec};
use crate::json::J;
use crate::run::{Ctx, R, Stop, err};
use std::path::Path;
use std::sync::OnceLock;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Module {
    pub src: String,
    pub which: Which,
    pub attr: String,
    pub target: String,
}

impl Module {
    pub fn new(which: Which, src: String) -> Module {
        Module { src, which, attr: "VAttr".into(), target: "VTarget".into() }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Job {
    pub module: usize,
    pub text: String,
    pub label: String,
    pub plan: Vec<(usize, Vec<(String, String)>)>,
    /// Only list the tokens.
    pub lex: bool,
}

#[derive(Debug)]
pub enum Ran {
    /// One trace for every job.
    Traces(Vec<Vec<String>>),
    /// The code of a module (if it can be told which) does not compile.
    Broken(Option<usize>, String),
}

fn externs() -> &'static Result<(Vec<String>, String), String> {
    static X: OnceLock<Result<(Vec<String>, String), String>> = OnceLock::new();
    X.get_or_init(|| {
        let dir = std::env::current_exe().map_err(|e| e.to_string())?.parent().unwrap().to_path_buf();
        let list = dir.parent().unwrap().join("artifacts.json");
        let text = std::fs::read_to_string(&list).map_err(|e| format!("{}: {e}", list.display()))?;
        let mut v = vec![];
        for want in ["lexan", "lalr1", "alalr1", "vrt", "lazy_static"] {
            let mut found = None;
            for l in text.lines() {
                if !l.contains(&format!("\"name\":\"{want}\"")) || !l.contains("compiler-artifact") {
                    continue;
                }
                let Ok(j) = J::parse(l) else { continue };
                if j.get("target").and_then(|t| t.get("name")).and_then(|n| n.str()) == Some(want)
                    && let Some(f) = j.get("filenames").and_then(|f| f.arr().iter().filter_map(|x| x.str()).find(|x| x.ends_with(".rlib")).map(|x| x.to_string()))
                {
                    found = Some(f);
                }
            }
            let f = found.ok_or_else(|| format!("no library file for {want}"))?;
            v.push(format!("{want}={f}"));
        }
        Ok((v, dir.join("deps").to_string_lossy().into_owned()))
    })
}

/// All library crates of the build, the newest of each name, and the directory of what they need.
pub fn all_externs() -> Result<(Vec<(String, String)>, String), String> {
    let (_, deps) = externs().as_ref().map_err(|e| e.clone())?;
    let list = Path::new(deps).parent().and_then(|p| p.parent()).ok_or("no build directory")?.join("artifacts.json");
    let text = std::fs::read_to_string(&list).map_err(|e| format!("{}: {e}", list.display()))?;
    let mut v: std::collections::BTreeMap<String, (Vec<u64>, String)> = Default::default();
    for l in text.lines().filter(|l| l.contains("compiler-artifact")) {
        let Ok(j) = J::parse(l) else { continue };
        let t = j.get("target");
        let Some(name) = t.and_then(|t| t.get("name")).and_then(|n| n.str()) else { continue };
        let kind = t.and_then(|t| t.get("kind")).map(|k| k.arr().iter().filter_map(|x| x.str()).collect::<Vec<_>>().join(" ")).unwrap_or_default();
        if !kind.contains("lib") || kind.contains("proc-macro") {
            continue;
        }
        let Some(f) = j.get("filenames").and_then(|f| f.arr().iter().filter_map(|x| x.str()).find(|x| x.ends_with(".rlib"))) else { continue };
        let id = j.get("package_id").and_then(|n| n.str()).unwrap_or("");
        let ver: Vec<u64> = id.rsplit(['#', '@']).next().unwrap_or("").split('.').map(|x| x.parse().unwrap_or(0)).collect();
        let n = name.replace('-', "_");
        if n != "pv" && v.get(&n).is_none_or(|o| o.0 < ver) {
            v.insert(n, (ver, f.to_string()));
        }
    }
    Ok((v.into_iter().map(|(n, (_, f))| (n, f)).collect(), deps.clone()))
}

fn enc(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect::<String>() + "."
}

const MAIN: &str = r##"
use std::io::Write;
fn dec(s: &str) -> String {
    let b: Vec<u8> = (0..(s.len() - 1) / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
type Plan = Vec<(usize, Vec<(String, String)>)>;
macro_rules! runner {
    ($f:ident, $m:ident, $k:ident, $t:ident, $a:ident) => {
        fn $f(text: &str, label: &str, plan: Plan, lex: bool) {
            type P = $m::$t;
            let mut t = P::default();
            vrt::start(plan);
            if lex {
                let an = <P as $k::Parser<$m::AATerminal, $m::AANonTerminal, $m::$a>>::lexical_analyzer(&t);
                let mut ts = an.token_stream(text, label);
                for _ in 0..text.len() + 3 {
                    match ts.front() {
                        Ok(k) => {
                            vrt::event(format!("T {:?} {} {:?} {}", k.tag(), k.tag(), k.lexeme(), k.location()));
                            if format!("{:?}", k.tag()) == "AAEnd" { return; }
                        }
                        Err(e) => vrt::event(format!("X {e}")),
                    }
                    ts.advance();
                }
                vrt::event("UNENDING".into());
                return;
            }
            let r = <P as $k::Parser<$m::AATerminal, $m::AANonTerminal, $m::$a>>::parse_text(&mut t, text, label);
            vrt::result(&r);
        }
    };
}
static JOB: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let jobs = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::fs::File::create(&args[2]).unwrap();
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::spawn(|| {
        let mut last = (usize::MAX, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let j = JOB.load(std::sync::atomic::Ordering::Relaxed);
            last = if j == last.0 { (j, last.1 + 1) } else { (j, 0) };
            if last.1 > 20 {
                std::process::exit(99);
            }
        }
    });
    for (i, l) in jobs.lines().enumerate() {
        JOB.store(i, std::sync::atomic::Ordering::Relaxed);
        let f: Vec<&str> = l.split(' ').collect();
        let module: usize = f[0].parse().unwrap();
        let lex = f[1] == "1";
        let (text, label) = (dec(f[2]), dec(f[3]));
        let mut plan: Plan = vec![];
        let mut k = 4;
        while k + 2 < f.len() {
            plan.push((f[k].parse().unwrap(), vec![(dec(f[k + 1]), dec(f[k + 2]))]));
            k += 3;
        }
        let r = std::panic::catch_unwind(move || run(module, &text, &label, plan, lex));
        let mut v = vrt::finish();
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            v.push(format!("PANIC {m}"));
        }
        let mut s = format!("= {i}\n");
        for e in v {
            s += &e.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
            s += "\n";
        }
        out.write_all(s.as_bytes()).unwrap();
    }
    out.write_all(b"END\n").unwrap();
}
"##;

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x == '\\' {
            match c.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(y) => o.push(y),
                None => (),
            }
        } else {
            o.push(x);
        }
    }
    o
}

pub fn compile_and_run(ctx: &Ctx, mods: &[Module], jobs: &[Job]) -> R<Ran> {
    let d = ctx.scratch().with_extension("c");
    let _ = std::fs::remove_dir_all(&d);
    if let Err(e) = std::fs::create_dir_all(&d) {
        return err(format!("{}: {e}", d.display()));
    }
    let r = go(&d, mods, jobs);
    let _ = std::fs::remove_dir_all(&d);
    r
}

fn go(d: &Path, mods: &[Module], jobs: &[Job]) -> R<Ran> {
    let w = |name: &str, text: &str| std::fs::write(d.join(name), text).map_err(|e| Stop::Error(format!("{name}: {e}")));
    let (ext, deps) = externs().as_ref().map_err(|e| Stop::Error(e.clone()))?;
    let mut main = String::from("#![allow(warnings)]\n");
    for (i, m) in mods.iter().enumerate() {
        w(&format!("g{i}.rs"), &m.src)?;
        main += &format!("mod g{i};\nrunner!(r{i}, g{i}, {}, {}, {});\n", m.which.krate(), m.target, m.attr);
    }
    // macros must come first
    let mut text = String::from("#![allow(warnings)]\n");
    text += MAIN;
    text += &main["#![allow(warnings)]\n".len()..];
    text += "fn run(m: usize, t: &str, l: &str, p: Plan, x: bool) {\n    match m {\n";
    for i in 0..mods.len() {
        text += &format!("        {i} => r{i}(t, l, p, x),\n");
    }
    text += "        _ => (),\n    }\n}\n";
    w("main.rs", &text)?;
    let mut args: Vec<&str> = vec!["--edition", "2024", "--crate-type", "bin", "--crate-name", "jobs", "-Copt-level=0", "-Cdebuginfo=0", "-Cdebug-assertions=on", "-Ccodegen-units=1", "--cap-lints", "allow", "--color", "never"];
    let l = format!("dependency={deps}");
    args.extend(["-L", &l]);
    for e in ext {
        args.extend(["--extern", e]);
    }
    args.extend(["-o", "jobs", "main.rs"]);
    let c = exec(Path::new("rustc"), &args, d, Duration::from_secs(300)).map_err(Stop::Error)?;
    if !c.ok() {
        if c.hang || c.signal.is_some() {
            return err(format!("rustc: {:?} {}", c.signal, c.stderr));
        }
        let mut which = None;
        for i in 0..mods.len() {
            if c.stderr.contains(&format!("g{i}.rs:")) {
                which = Some(i);
                break;
            }
        }
        let first: String = c.stderr.lines().take(14).collect::<Vec<_>>().join("\n");
        return Ok(Ran::Broken(which, first));
    }
    let mut js = String::new();
    for j in jobs {
        js += &format!("{} {} {} {}", j.module, j.lex as u8, enc(&j.text), enc(&j.label));
        for (at, v) in &j.plan {
            for (t, l) in v {
                js += &format!(" {at} {} {}", enc(t), enc(l));
            }
        }
        js.push('\n');
    }
    w("jobs.txt", &js)?;
    let r = exec(Path::new("/bin/sh"), &["-c", "ulimit -v 6000000; exec ./jobs jobs.txt out.txt"], d, Duration::from_secs(60)).map_err(Stop::Error)?;
    let out = std::fs::read(d.join("out.txt")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let mut traces: Vec<Vec<String>> = vec![];
    let mut ended = false;
    for line in out.lines() {
        if let Some(n) = line.strip_prefix("= ")
            && n.parse::<usize>().ok() == Some(traces.len())
        {
            traces.push(vec![]);
        } else if line == "END" && traces.len() == jobs.len() {
            ended = true;
        } else if let Some(t) = traces.last_mut() {
            t.push(unesc(line));
        }
    }
    if !ended {
        if traces.len() == jobs.len() {
            return err(format!("running the parsers: {:?} {:?} {}", r.code, r.signal, r.stderr));
        }
        // the job after the last finished one did not end or brought everything down
        let what = if r.code == Some(99) || r.hang { "HANG".to_string() } else { format!("CRASH code {:?} signal {:?}", r.code, r.signal) };
        traces.push(vec![what]);
        while traces.len() < jobs.len() {
            traces.push(vec!["NOT RUN".into()]);
        }
    }
    Ok(Ran::Traces(traces))
}
