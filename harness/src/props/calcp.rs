//! C29: the calculator of the repository's examples, from specification to results.
use super::bootp::rustc;
use crate::cli::{self, Aug, LIMIT, Plain, Which};
use crate::compile;
use crate::run::*;
use crate::tape::{Src, hash_str, mix};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

const MAIN: &str = r##"
mod calc;
use @::Parser;

fn main() {
    let file = std::env::args().nth(1).unwrap();
    let sessions = std::fs::read_to_string(file).unwrap();
    for session in sessions.split('\u{2}') {
        let mut c = calc::Calc::new();
        for text in session.split('\u{1}') {
            match c.parse_text(text, "l") {
                Ok(()) => println!("> accepted"),
                Err(_) => println!("> rejected"),
            }
            for n in ["a", "b", "ab", "X"] {
                if let Some(v) = c.variable(n) {
                    println!("{n} {:?}", v.to_bits());
                }
            }
        }
        println!("----");
    }
}
"##;

enum Built {
    Exes(Vec<(Which, PathBuf)>),
    Broken(String),
    Unable(String),
}

fn one(w: Which, dir: &Path) -> Result<PathBuf, Built> {
    let un = Built::Unable;
    let io = |e: std::io::Error| Built::Unable(e.to_string());
    let root = PathBuf::from(std::env::var("PV_ROOT").unwrap_or_else(|_| ".".into()));
    let spec = std::fs::read_to_string(root.join("../repo/examples/calc_no_aug/src/calc_no_aug.laps")).map_err(io)?;
    let d = dir.join(w.cmd());
    std::fs::create_dir_all(&d).map_err(io)?;
    let file = format!("calc.{}", w.ext());
    std::fs::write(d.join(&file), spec.replace("lalr1::", &format!("{}::", w.krate()))).map_err(io)?;
    std::fs::write(d.join("main.rs"), MAIN.replace('@', w.krate())).map_err(io)?;
    let e = cli::exec(&cli::exe(w), &[&file], &d, LIMIT).map_err(un)?;
    if !e.ok() || !d.join("calc.rs").exists() {
        return Err(Built::Broken(format!("{} refuses the calculator: status {:?} {}", w.cmd(), e.code, cli::tail(&e.stderr))));
    }
    let (ext, deps) = compile::all_externs().map_err(un)?;
    let mut a: Vec<String> = vec!["-L".into(), format!("dependency={deps}")];
    for (n, f) in &ext {
        a.extend(["--extern".into(), format!("{n}={f}")]);
    }
    a.extend(["--crate-type", "bin", "-o", "calc", "main.rs"].iter().map(|s| s.to_string()));
    let c = rustc(&d, &a).map_err(un)?;
    if !c.ok() {
        return Err(if c.hang || c.signal.is_some() { Built::Unable(c.stderr) } else { Built::Broken(format!("the calculator made by {} does not compile: {}", w.cmd(), cli::tail(&c.stderr))) });
    }
    Ok(d.join("calc"))
}

fn built() -> &'static Built {
    static B: OnceLock<Built> = OnceLock::new();
    B.get_or_init(|| {
        let dir = scratch_dir().join("calc");
        let r = std::thread::scope(|sc| {
            let h: Vec<_> = [Plain, Aug].map(|w| (w, sc.spawn({ let dir = &dir; move || one(w, dir) }))).into_iter().collect();
            h.into_iter().map(|(w, h)| h.join().unwrap().map(|p| (w, p))).collect::<Vec<_>>()
        });
        let mut v = vec![];
        let mut broken = None;
        for x in r {
            match x {
                Ok(p) => v.push(p),
                Err(Built::Unable(e)) => return Built::Unable(e),
                Err(b) => broken = Some(b),
            }
        }
        broken.unwrap_or(Built::Exes(v))
    })
}

// ---------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Num(f64),
    Id(String),
    Op(char),
}

/// The tokens of a line; None if it contains something else.
fn tokens(line: &str) -> Option<Vec<Tk>> {
    let c: Vec<char> = line.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < c.len() {
        let j = i;
        let run = |mut k: usize, f: &dyn Fn(char) -> bool| {
            while k < c.len() && f(c[k]) {
                k += 1;
            }
            k
        };
        match c[i] {
            ' ' | '\t' | '\r' => i += 1,
            x if "+-*/=()".contains(x) => {
                v.push(Tk::Op(x));
                i += 1;
            }
            x if x.is_ascii_digit() => {
                i = run(i, &|x| x.is_ascii_digit());
                if i + 1 < c.len() && c[i] == '.' && c[i + 1].is_ascii_digit() {
                    i = run(i + 1, &|x| x.is_ascii_digit());
                }
                v.push(Tk::Num(c[j..i].iter().collect::<String>().parse().unwrap()));
            }
            x if x.is_ascii_alphabetic() => {
                i = run(i, &|x| x.is_ascii_alphabetic());
                v.push(Tk::Id(c[j..i].iter().collect()));
            }
            _ => return None,
        }
    }
    Some(v)
}

#[derive(Default)]
struct Calc {
    vars: BTreeMap<String, f64>,
    out: Vec<String>,
}

struct Ev<'a> {
    t: &'a [Tk],
    i: usize,
    vars: &'a BTreeMap<String, f64>,
    undefined: bool,
    zero: bool,
}

impl Ev<'_> {
    fn op(&self) -> Option<char> {
        if let Some(Tk::Op(c)) = self.t.get(self.i) { Some(*c) } else { None }
    }
    fn factor(&mut self) -> Option<f64> {
        let t = self.t.get(self.i)?.clone();
        self.i += 1;
        match t {
            Tk::Num(x) => Some(x),
            Tk::Id(n) => Some(self.vars.get(&n).copied().unwrap_or_else(|| {
                self.undefined = true;
                0.0
            })),
            Tk::Op('-') => self.factor().map(|x| -x),
            Tk::Op('(') => {
                let x = self.sum()?;
                if self.op() != Some(')') {
                    return None;
                }
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
    fn product(&mut self) -> Option<f64> {
        let mut x = self.factor()?;
        while let Some(o @ ('*' | '/')) = self.op() {
            self.i += 1;
            let y = self.factor()?;
            if o == '*' {
                x *= y;
            } else if y == 0.0 {
                self.zero = true;
            } else {
                x /= y;
            }
        }
        Some(x)
    }
    fn sum(&mut self) -> Option<f64> {
        let mut x = self.product()?;
        while let Some(o @ ('+' | '-')) = self.op() {
            self.i += 1;
            let y = self.product()?;
            if o == '+' {
                x += y;
            } else {
                x -= y;
            }
        }
        Some(x)
    }
}

impl Calc {
    /// Whether the line is one of the language.
    fn line(&mut self, line: &str) -> bool {
        let Some(t) = tokens(line) else { return false };
        let (to, from) = match t.as_slice() {
            [Tk::Id(n), Tk::Op('='), ..] => (Some(n.clone()), 2),
            _ => (None, 0),
        };
        let mut e = Ev { t: &t, i: from, vars: &self.vars, undefined: false, zero: false };
        let Some(x) = e.sum() else { return false };
        if e.i != t.len() {
            return false;
        }
        let (u, z) = (e.undefined, e.zero);
        if u {
            self.out.push("Undefined variable(s).".into());
        }
        if z {
            self.out.push("Divide by zero.".into());
        }
        if !u && !z {
            match to {
                Some(n) => {
                    self.vars.insert(n, x);
                }
                None => self.out.push(format!("{x}")),
            }
        }
        true
    }
    fn text(&mut self, text: &str) {
        let mut good = true;
        for l in text.split('\n') {
            let blank = tokens(l).is_some_and(|t| t.is_empty());
            good &= blank || self.line(l);
        }
        self.out.push(if good { "> accepted" } else { "> rejected" }.into());
        for n in ["a", "b", "ab", "X"] {
            if let Some(v) = self.vars.get(n) {
                self.out.push(format!("{n} {:?}", v.to_bits()));
            }
        }
    }
}

// ---------------------------------------------------------------- texts

fn expr(s: &mut Src, depth: usize, o: &mut String) {
    let sp = |s: &mut Src, o: &mut String| {
        if s.chance(1, 4) {
            o.push_str(s.pick(&[" ", "\t", "  ", "\r"]));
        }
    };
    sp(s, o);
    match s.weighted(&[if depth == 0 { 8 } else { 3 }, if depth == 0 { 4 } else { 2 }, depth, depth, depth * 3]) {
        0 => o.push_str(s.pick(&["1", "0", "2", "10", "3.5", "0.0", "007", "12345678901234567890", "0.1", "1.50"])),
        1 => {
            let n = *s.pick(&["a", "b", "ab", "X", "zz"]);
            if o.ends_with(|c: char| c.is_ascii_alphabetic()) {
                o.push(' ');
            }
            o.push_str(n);
        }
        2 => {
            o.push('-');
            expr(s, depth - 1, o);
        }
        3 => {
            o.push('(');
            expr(s, depth - 1, o);
            o.push(')');
        }
        _ => {
            expr(s, depth - 1, o);
            o.push_str(s.pick(&["+", "-", "*", "/"]));
            expr(s, depth - 1, o);
        }
    }
    sp(s, o);
}

fn line(s: &mut Src) -> String {
    let mut l = String::new();
    let d = s.below(5);
    match s.weighted(&[8, 8, 1, 1]) {
        0 => expr(s, d, &mut l),
        1 => {
            l = format!("{} = ", s.pick(&["a", "b", "ab", "X"]));
            expr(s, d, &mut l);
        }
        2 => l = s.pick(&["", " ", "\t\r"]).to_string(),
        _ => l = s.string(&['1', 'a', '+', '-', '*', '/', '=', '(', ')', ' ', '.', '@', 'é'], 0, 8),
    }
    if s.chance(1, 150) {
        let (n, x) = (*s.pick(&[50usize, 300, 2000]), l.clone());
        l = match s.below(3) {
            0 => format!("{}{}{}", "(".repeat(n), x, ")".repeat(n)),
            1 => format!("{}{}", "-".repeat(n), x),
            _ => format!("{}{}", x, s.pick(&["+1", "*2", "-a", "/3"]).repeat(n)),
        };
    }
    if s.chance(1, 5) && !l.is_empty() {
        // something wrong
        let c: Vec<char> = l.chars().collect();
        let at = s.below(c.len());
        let x = s.string(&['+', '*', '=', '(', ')', '1', 'a', '@', '.', '-', ' ', '€'], 0, 2);
        let cut = s.below(2);
        l = c[..at].iter().collect::<String>() + &x + &c[at + cut..].iter().collect::<String>();
    }
    l
}

fn calc(s: &mut Src, ctx: &mut Ctx) -> R {
    let exes = match built() {
        Built::Exes(v) => v,
        Built::Broken(e) => return fail("calculator", e.clone()),
        Built::Unable(e) => return err(e.clone()),
    };
    let sessions: Vec<Vec<String>> = (0..s.range(1, 12))
        .map(|_| {
            (0..s.range(1, 3))
                .map(|_| {
                    let n = if s.chance(1, 20) { s.range(10, 60) } else { s.range(1, 6) };
                    (0..n).map(|_| line(s)).collect::<Vec<_>>().join("\n")
                })
                .collect()
        })
        .collect();
    ctx.show(|| format!("{sessions:?}"));
    let dir = cli::fresh_dir(ctx)?;
    let all = sessions.iter().map(|v| v.join("\u{1}")).collect::<Vec<_>>().join("\u{2}");
    std::fs::write(dir.join("in"), &all).map_err(|e| Stop::Error(e.to_string()))?;
    let mut want: Vec<Vec<String>> = vec![];
    for v in &sessions {
        let mut c = Calc::default();
        for t in v {
            c.text(t);
        }
        want.push(c.out);
    }
    for (w, exe) in exes {
        let d = cli::exec(exe, &["in"], &dir, LIMIT).or_else(err)?;
        let got: Vec<Vec<String>> = d.stdout.split("----\n").map(|x| x.lines().map(|l| l.to_string()).collect()).collect();
        for (i, (x, y)) in want.iter().zip(&got).enumerate() {
            if x != y {
                return fail("results", format!("calculator made by {}: texts {:?} gave {y:?}, expected {x:?}", w.cmd(), sessions[i]));
            }
        }
        if !d.ok() || got.len() != want.len() + 1 {
            return fail("calculator", format!("calculator made by {}: {:?} {}", w.cmd(), d.code, cli::tail(&d.stderr)));
        }
    }
    for (v, x) in sessions.iter().zip(&want) {
        let ran = x.iter().any(|l| !l.starts_with('>'));
        ctx.case(ran.then(|| mix(&[hash_str(&v.join("\u{1}"))])));
        if x.iter().any(|l| l == "> rejected") && x.iter().any(|l| l.starts_with(|c: char| c.is_ascii_digit() || c == '-')) {
            ctx.class("wrong lines among lines that print");
        }
        if x.iter().any(|l| l == "> accepted") {
            ctx.class("accepted text");
        }
        for m in ["Undefined variable(s).", "Divide by zero."] {
            if x.iter().any(|l| l == m) {
                ctx.class(m);
            }
        }
    }
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "A case is a sequence of texts of one to sixty lines (assignments, expressions, blank and wrong lines) given to one calculator object made by each generator from the specification in examples/calc_no_aug, with what it prints, whether each text is accepted and the variables afterwards compared with a recursive-descent evaluator. Non-trivial: something is printed or assigned. Distinct by texts.",
        assumptions: vec!["for the augmented generator the run-time crate's name in the specification is changed accordingly (the repository's own augmented calculators name a crate that does not exist)"],
        suites: vec![suite("sessions", 6000, 100000, calc)],
    }
}
