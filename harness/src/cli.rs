//! Running the generator commands.
use crate::run::{beat, pause, Ctx, R, Stop, err};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    Plain,
    Aug,
}
pub use Which::*;
pub const BOTH: [Which; 2] = [Plain, Aug];

impl Which {
    pub fn cmd(self) -> &'static str {
        match self {
            Plain => "lalr1_gen",
            Aug => "alalr1_gen",
        }
    }
    pub fn ext(self) -> &'static str {
        match self {
            Plain => "laps",
            Aug => "alaps",
        }
    }
    pub fn krate(self) -> &'static str {
        match self {
            Plain => "lalr1",
            Aug => "alalr1",
        }
    }
}

pub fn exe(w: Which) -> PathBuf {
    let me = std::env::current_exe().expect("own path");
    me.parent().unwrap().join(w.cmd())
}

#[derive(Clone, Debug, Default)]
pub struct Done {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// Killed because it did not end.
    pub hang: bool,
    pub stderr: String,
    pub stdout: String,
}

impl Done {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// A panic, an abort or a run that does not end, if that is what happened.
    pub fn crash(&self) -> Option<String> {
        if self.hang {
            return Some("does not end".into());
        }
        if let Some(s) = self.signal {
            return Some(format!("killed by signal {s}: {}", tail(&self.stderr)));
        }
        if self.code == Some(101) || (self.stderr.contains("panicked at") && self.stderr.contains("thread '")) {
            return Some(format!("panicked: {}", tail(&self.stderr)));
        }
        None
    }
}

pub fn tail(s: &str) -> String {
    let t: String = s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("note:") && !l.starts_with("stack backtrace") && !l.trim_start().starts_with(|c: char| c.is_ascii_digit())).collect::<Vec<_>>().join(" / ");
    if t.chars().count() > 400 { t.chars().take(400).collect::<String>() + "…" } else { t }
}

/// Runs a command in a directory with a time limit.
pub fn exec(exe: &Path, args: &[&str], dir: &Path, limit: Duration) -> Result<Done, String> {
    exec_os(exe, args, dir, limit)
}

pub fn exec_os<A: AsRef<std::ffi::OsStr>>(exe: &Path, args: &[A], dir: &Path, limit: Duration) -> Result<Done, String> {
    // this has a limit of its own
    pause();
    let r = exec_limited(exe, args, dir, limit);
    beat();
    r
}

fn exec_limited<A: AsRef<std::ffi::OsStr>>(exe: &Path, args: &[A], dir: &Path, limit: Duration) -> Result<Done, String> {
    let e = dir.join(".err");
    let o = dir.join(".out");
    let f = |p: &Path| std::fs::File::create(p).map_err(|x| format!("{}: {x}", p.display()));
    let mut c = Command::new(exe)
        .args(args)
        .current_dir(dir)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(f(&o)?)
        .stderr(f(&e)?)
        .spawn()
        .map_err(|x| format!("{}: {x}", exe.display()))?;
    let t0 = Instant::now();
    let mut nap = 100;
    let mut d = Done::default();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                d.code = s.code();
                d.signal = s.signal();
                break;
            }
            Ok(None) => (),
            Err(x) => return Err(x.to_string()),
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            d.hang = true;
            break;
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 3 / 2).min(5000);
    }
    let rd = |p: &Path| std::fs::read(p).map(|b| String::from_utf8_lossy(&b[..b.len().min(4 << 20)]).into_owned()).unwrap_or_default();
    d.stderr = rd(&e);
    d.stdout = rd(&o);
    let _ = std::fs::remove_file(&e);
    let _ = std::fs::remove_file(&o);
    Ok(d)
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub done: Done,
    pub rs: Option<String>,
    pub states: Option<String>,
}

/// A directory of this worker for the current case, emptied.
pub fn fresh_dir(ctx: &Ctx) -> R<PathBuf> {
    let d = ctx.scratch();
    let _ = std::fs::remove_dir_all(&d);
    match std::fs::create_dir_all(&d) {
        Ok(()) => Ok(d),
        Err(e) => err(format!("{}: {e}", d.display())),
    }
}

pub const LIMIT: Duration = Duration::from_secs(60);

/// Generates from a specification text in a directory; the specification is called `s.laps` or `s.alaps`.
pub fn generate_in(dir: &Path, w: Which, text: &str, opts: &[&str]) -> R<Out> {
    let spec = format!("s.{}", w.ext());
    let rs = dir.join("s.rs");
    let states = dir.join("s.states");
    let _ = std::fs::remove_file(&rs);
    let _ = std::fs::remove_file(&states);
    if let Err(e) = std::fs::write(dir.join(&spec), text) {
        return err(format!("writing the specification: {e}"));
    }
    let mut args: Vec<&str> = opts.to_vec();
    args.push(&spec);
    let done = exec(&exe(w), &args, dir, LIMIT).map_err(Stop::Error)?;
    let rd = |p: &Path| std::fs::read(p).ok().map(|b| String::from_utf8_lossy(&b).into_owned());
    Ok(Out { done, rs: rd(&rs), states: rd(&states) })
}

pub fn generate(ctx: &Ctx, w: Which, text: &str, opts: &[&str]) -> R<Out> {
    let d = fresh_dir(ctx)?;
    let o = generate_in(&d, w, text, opts);
    let _ = std::fs::remove_dir_all(&d);
    o
}
