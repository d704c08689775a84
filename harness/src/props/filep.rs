//! C23: the commands and the file system.
use super::genp::IGNORE;
use crate::cli::{self, Aug, BOTH, Which};
use crate::defect;
use crate::gram::{self, GOpts};
use crate::pipe;
use crate::run::*;
use crate::spec::{self, Style};
use crate::tape::{Src, hash_str, mix};
use std::collections::BTreeMap;
use std::os::unix::fs::MetadataExt;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ent {
    Dir,
    File(Vec<u8>),
    /// To a file of the tree, or outside of it.
    Link(String),
    /// Another name of a file of the tree.
    Hard(String),
}

type Tree = BTreeMap<String, Ent>;

fn brief(e: Option<&Ent>) -> String {
    match e {
        None => "nothing".into(),
        Some(Ent::Dir) => "a directory".into(),
        Some(Ent::Link(t)) => format!("a link to {t}"),
        Some(Ent::Hard(t)) => format!("another name of {t}"),
        Some(Ent::File(b)) => format!("a file of {} bytes ({:x})", b.len(), hash_str(&String::from_utf8_lossy(b)) & 0xffff),
    }
}

fn snapshot(root: &Path) -> Tree {
    type Seen = BTreeMap<(u64, u64), String>;
    fn go(d: &Path, pre: &str, t: &mut Tree, seen: &mut Seen) {
        let mut v: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().collect();
        v.sort_by_key(|e| e.file_name());
        for e in v {
            let n = e.file_name().to_string_lossy().into_owned();
            let k = format!("{pre}{n}");
            let Ok(m) = std::fs::symlink_metadata(e.path()) else { continue };
            if m.is_symlink() {
                let l = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
                t.insert(k, Ent::Link(l));
            } else if m.is_dir() {
                t.insert(k.clone(), Ent::Dir);
                go(&e.path(), &format!("{k}/"), t, seen);
            } else if let Some(first) = seen.get(&(m.dev(), m.ino())) {
                t.insert(k, Ent::Hard(first.clone()));
            } else {
                seen.insert((m.dev(), m.ino()), k.clone());
                t.insert(k, Ent::File(std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    let mut t = Tree::new();
    go(root, "", &mut t, &mut Seen::new());
    t
}

/// What differs between two trees outside of some places.
fn changed(a: &Tree, b: &Tree, but: &[&str]) -> Option<String> {
    let keys: std::collections::BTreeSet<&String> = a.keys().chain(b.keys()).collect();
    for k in keys {
        if a.get(k) != b.get(k) && !but.contains(&k.as_str()) {
            return Some(format!("{k} was {} and is {}", brief(a.get(k)), brief(b.get(k))));
        }
    }
    None
}

fn put(root: &Path, k: &str, e: Option<&Ent>) {
    let p = root.join(k);
    match std::fs::symlink_metadata(&p) {
        Ok(m) if m.is_dir() => {
            let _ = std::fs::remove_dir_all(&p);
        }
        Ok(_) => {
            let _ = std::fs::remove_file(&p);
        }
        Err(_) => (),
    }
    match e {
        Some(Ent::Dir) => {
            let _ = std::fs::create_dir_all(&p);
        }
        Some(Ent::File(b)) => {
            let _ = std::fs::write(&p, b);
        }
        Some(Ent::Link(t)) => {
            let _ = std::os::unix::fs::symlink(t, &p);
        }
        Some(Ent::Hard(t)) => {
            let _ = std::fs::hard_link(root.join(t), &p);
        }
        None => (),
    }
}

/// A path from a directory of the tree, as a place in the tree.
fn place(cwd: &str, p: &str) -> String {
    let mut v: Vec<&str> = cwd.split('/').filter(|x| !x.is_empty()).collect();
    for x in p.split('/') {
        match x {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            _ => v.push(x),
        }
    }
    v.join("/")
}

/// The place a link leads to; None outside of the tree.
fn real(t: &Tree, k: &str) -> Option<String> {
    match t.get(k) {
        Some(Ent::Link(l)) if l.starts_with('/') => None,
        Some(Ent::Link(l)) => {
            let dir = k.rsplit_once('/').map_or("", |x| x.0);
            real(t, &place(dir, l))
        }
        Some(Ent::Hard(l)) => real(t, l),
        _ => Some(k.to_string()),
    }
}

fn exists(t: &Tree, k: &str) -> bool {
    match real(t, k) {
        None => true,
        Some(k) => t.contains_key(&k),
    }
}

/// Replaces the extension of a path's last component.
fn with_ext(p: &str, ext: &str) -> String {
    let (d, n) = p.rsplit_once('/').map_or((None, p), |(d, n)| (Some(d), n));
    let stem = match n.rfind('.') {
        Some(i) if i > 0 => &n[..i],
        _ => n,
    };
    let n = format!("{stem}.{ext}");
    d.map_or(n.clone(), |d| format!("{d}/{n}"))
}

/// Specification contents and what is known about them.
struct Content {
    bytes: Vec<u8>,
    /// Fit to make a parser from with the ignore options, without them.
    good: (bool, bool),
    what: String,
}

fn content(s: &mut Src, w: Which) -> R<Content> {
    let kind = s.weighted(&[6, 2, 2, 1, 1, 1]);
    let o = GOpts { max_toks: 4, max_nts: 3, errors: s.chance(1, 5), precs: s.chance(1, 3), ..GOpts::default() };
    let mut g = gram::grammar(s, &o);
    let r = pipe::reference(&g)?;
    (g.sr, g.rr) = (r.a.sr, r.a.rr);
    let aug = w == Aug;
    let mk = |t: String, good, what: &str| Content { bytes: t.into_bytes(), good, what: what.to_string() };
    Ok(match kind {
        0 => mk(spec::text(&g, aug), (true, true), "a good specification"),
        1 => {
            g.sr += 1;
            mk(spec::text(&g, aug), (true, false), "a wrong number of conflicts")
        }
        2 => {
            let st = Style::random(s, &g);
            let k = s.below(defect::KINDS);
            match defect::plant(s, &g, &spec::pieces(&g, &st, aug), k) {
                Some(d) if d.files.is_empty() => mk(spec::lay(&d.pieces, &[]).text, (false, false), &d.what),
                _ => mk(format!("{} :;", spec::text(&g, aug)), (false, false), "a stray colon"),
            }
        }
        3 => mk(String::new(), (false, false), "an empty specification"),
        4 => {
            let mut b = spec::text(&g, aug).into_bytes();
            let i = s.below(b.len());
            b.insert(i, *s.pick(&[0xff, 0xc0, 0x80]));
            Content { bytes: b, good: (false, false), what: "not UTF-8".into() }
        }
        _ => {
            let t = spec::text(&g, aug);
            let i = t.find("%%").unwrap_or(0);
            mk(t[..i].to_string(), (false, false), "an unfinished specification")
        }
    })
}

/// Messages go through a pipe, which has no size limit.
const LIMITED: &str = "(trap '' XFSZ; ulimit -f \"$0\" || exit 99; exec \"$@\") 2>&1 | cat >&2; exit ${PIPESTATUS[0]}";

fn scenario(s: &mut Src, ctx: &mut Ctx, faults: bool) -> R {
    let w = *s.pick(&BOTH);
    let base = cli::fresh_dir(ctx)?;
    let done = |r: R| -> R {
        let _ = std::fs::remove_dir_all(&base);
        r
    };
    let root = base.join("t");
    let pristine = base.join("ref");
    for d in [&root, &pristine] {
        if let Err(e) = std::fs::create_dir_all(d) {
            return done(err(format!("{}: {e}", d.display())));
        }
    }
    let abs = root.to_string_lossy().into_owned();
    let r = history(s, ctx, faults, w, &root, &pristine, &abs);
    done(r)
}

fn history(s: &mut Src, ctx: &mut Ctx, faults: bool, w: Which, root: &Path, pristine: &Path, abs: &str) -> R {
    put(root, "sub", Some(&Ent::Dir));
    let ext = w.ext();
    let mut log: Vec<String> = vec![];
    // what the files we made hold: place -> contents
    let mut known: BTreeMap<String, (Content, BTreeMap<bool, (Vec<u8>, Vec<u8>)>)> = BTreeMap::new();
    let names: Vec<String> = vec![format!("g.{ext}"), format!("x.y.{ext}"), "plain".into(), format!("a b.{ext}"), format!("sub/k.{ext}"), "h.rs".into(), "r.states".into(), format!(".dot.{ext}")];
    let mut specs: Vec<String> = vec![];
    let mut runs = 0;
    let mut key = 0u64;
    for step in 0..s.range(3, 9) {
        let op = if specs.is_empty() { 0 } else { 1 + s.weighted(&[8, 2, 2, 1]) };
        match op {
            0 | 2 => {
                let k = if op == 2 && s.chance(1, 2) { s.pick(&specs).clone() } else { s.pick(&names).clone() };
                let c = content(s, w)?;
                put(root, &k, Some(&Ent::File(c.bytes.clone())));
                log.push(format!("{step}: {k} is {}", c.what));
                known.insert(k.clone(), (c, BTreeMap::new()));
                if !specs.contains(&k) {
                    specs.push(k);
                }
            }
            3 | 4 => {
                // something in the place of an output
                let k = s.pick(&specs).clone();
                let k = with_ext(&k, if s.chance(2, 3) { "rs" } else { "states" });
                if known.contains_key(&k) {
                    continue;
                }
                let e = match s.weighted(&[3, 3, 1, 2, if faults { 2 } else { 0 }, 1]) {
                    0 => None,
                    1 => Some(Ent::File(b"precious\n".repeat(s.below(4000)).to_vec())),
                    2 => Some(Ent::Dir),
                    3 => {
                        let to = s.pick(&specs);
                        let up = if k.contains('/') { "../" } else { "" };
                        Some(Ent::Link(format!("{up}{to}")))
                    }
                    4 => Some(Ent::Link("/dev/full".into())),
                    _ => Some(Ent::Hard(s.pick(&specs).clone())),
                };
                log.push(format!("{step}: {k} is {}", brief(e.as_ref())));
                put(root, &k, e.as_ref());
            }
            _ => {
                let before = snapshot(root);
                let cwd = if s.chance(1, 4) { "sub" } else { "" };
                let spell = |s: &mut Src, k: &str| -> String {
                    match s.weighted(&[3, 1, 1]) {
                        0 if cwd.is_empty() => k.to_string(),
                        0 => k.strip_prefix("sub/").map_or_else(|| format!("../{k}"), |x| x.to_string()),
                        1 => format!("{abs}/{k}"),
                        _ if cwd.is_empty() => format!("./{k}"),
                        _ => format!("./../{k}"),
                    }
                };
                let inside = |p: &str| -> String { p.strip_prefix(abs).map_or_else(|| place(cwd, p), |q| place("", q)) };
                let target = if s.chance(1, 12) { s.pick(&["missing.laps", "sub", "no/where.laps"]).to_string() } else { s.pick(&specs).clone() };
                let spec_arg = spell(s, &target);
                let mut args: Vec<String> = vec![];
                let force = s.chance(1, 2);
                if force {
                    args.push(s.pick(&["-f", "--force"]).to_string());
                }
                let ignore = s.chance(1, 3);
                if ignore {
                    args.extend(IGNORE.iter().map(|x| x.to_string()));
                }
                let mut out_arg = with_ext(&spec_arg, "rs");
                if s.chance(1, 3) {
                    let mut pool: Vec<String> = ["out.rs", "sub/o.rs", "o", "p.q.rs", "missing/o.rs", "sub", "w.states", "sub/k.rs", "b c.rs", ".rc"].iter().map(|x| x.to_string()).collect();
                    pool.push(target.clone());
                    pool.extend(before.keys().filter(|k| matches!(before[*k], Ent::File(_))).cloned());
                    let o = s.pick(&pool).clone();
                    out_arg = spell(s, &o);
                    match s.below(3) {
                        0 => args.extend(["-o".to_string(), out_arg.clone()]),
                        1 => args.push(format!("--output={out_arg}")),
                        _ => args.extend(["--output".to_string(), out_arg.clone()]),
                    }
                }
                if s.chance(1, 2) {
                    args.insert(0, spec_arg.clone());
                } else {
                    args.push(spec_arg.clone());
                }
                let states_arg = with_ext(&out_arg, "states");
                let (spec, out, states) = (inside(&spec_arg), inside(&out_arg), inside(&states_arg));
                let (rs, ro, rt) = (real(&before, &spec), real(&before, &out), real(&before, &states));
                if ro.is_some() && ro == rt && out != states {
                    // one of them a link to the other
                    continue;
                }
                let limit = (faults && s.chance(1, 3)).then(|| *s.pick(&[1usize, 2, 3, 4, 6, 8, 12, 16, 24, 64]));
                // what should happen
                let is_file = |k: &Option<String>| k.as_ref().is_some_and(|k| matches!(before.get(k), Some(Ent::File(_))));
                let parent_ok = |k: &str| k.rsplit_once('/').is_none_or(|(d, _)| matches!(before.get(d), Some(Ent::Dir)));
                let mut refuse: Option<&str> = None;
                let mut fails: Option<&str> = None;
                if is_file(&rs) && rs == ro {
                    refuse = Some("the output is the specification");
                } else if is_file(&rs) && rs == rt {
                    refuse = Some("the report would overwrite the specification");
                } else if out == states {
                    refuse = Some("output and report are one file");
                } else if exists(&before, &out) && !force {
                    refuse = Some("the output exists");
                } else if !is_file(&rs) {
                    refuse = Some("there is no specification");
                }
                let src = rs.clone().unwrap_or_default();
                let mut want = (vec![], vec![]);
                if refuse.is_none() {
    let Some((_, (c, made))) = known.iter_mut().find(|x| real(&before, x.0).as_ref() == Some(&src)) else { continue };
                    let fit = if ignore { c.good.0 } else { c.good.1 };
                    if !fit {
                        refuse = Some("the specification is no good");
                    } else {
                        if !made.contains_key(&ignore) {
                            let text = String::from_utf8_lossy(&c.bytes).into_owned();
                            let opts: &[&str] = if ignore { &IGNORE } else { &[] };
                            let o = cli::generate_in(pristine, w, &text, opts)?;
                            let (Some(r), Some(t), true) = (o.rs, o.states, o.done.ok()) else {
                                return fail("good refused", format!("{}: status {:?} {} and no parser for the specification\n{text}", w.cmd(), o.done.code, cli::tail(&o.done.stderr)));
                            };
                            made.insert(ignore, (r.into_bytes(), t.into_bytes()));
                        }
                        want = made[&ignore].clone();
                        if matches!(before.get(&out), Some(Ent::Dir)) || !parent_ok(&out) {
                            refuse = Some("the output cannot be opened");
                        } else if ro.is_none() {
                            fails = Some("the parser cannot be written");
                        } else if limit.is_some_and(|l| want.0.len() > l * 1024) {
                            fails = Some("the parser is over the size limit");
                        } else if matches!(before.get(&states), Some(Ent::Dir)) || rt.is_none() {
                            fails = Some("the report cannot be written");
                        } else if limit.is_some_and(|l| want.1.len() > l * 1024) {
                            fails = Some("the report is over the size limit");
                        }
                    }
                }
                let exe = cli::exe(w);
                let dir = root.join(cwd);
                // output of the command goes into the current directory: keep it out of the tree
                let mut all: Vec<String> = vec![];
                let lim = limit.map(|l| l.to_string()).unwrap_or("unlimited".into());
                all.extend(["-c".to_string(), format!("cd \"$1\" || exit 98; shift; {LIMITED}"), lim, dir.to_string_lossy().into_owned(), exe.to_string_lossy().into_owned()]);
                all.extend(args.iter().cloned());
                let a: Vec<&str> = all.iter().map(|x| x.as_str()).collect();
                let d = cli::exec(Path::new("/bin/bash"), &a, pristine, cli::LIMIT).map_err(Stop::Error)?;
                if matches!(d.code, Some(98) | Some(99) | Some(126) | Some(127)) {
                    return err(format!("running {}: {:?} {}", exe.display(), d.code, d.stderr));
                }
                if d.code.is_some_and(|c| c > 128) {
                    return fail("crash", format!("killed by signal {}: {} in\n{}", d.code.unwrap() - 128, cli::tail(&d.stderr), log.join("\n")));
                }
                let after = snapshot(root);
                runs += 1;
                let line = format!("{step}: (in {}) {} {}{}", if cwd.is_empty() { "." } else { cwd }, w.cmd(), args.join(" ").replace(abs, "$T"), limit.map(|l| format!(" (files limited to {l} KiB)")).unwrap_or_default());
                log.push(line);
                key = mix(&[key, hash_str(log.last().unwrap()), hash_str(refuse.or(fails).unwrap_or("")), want.0.len() as u64]);
                ctx.class(refuse.or(fails).unwrap_or("succeeds"));
                let hist = || log.join("\n");
                if let Some(c) = d.crash() {
                    return fail("crash", format!("{c} in\n{}", hist()));
                }
                if let Some(why) = refuse {
                    if d.ok() {
                        return fail("status zero", format!("succeeded although {why} in\n{}", hist()));
                    }
                    if let Some(c) = changed(&before, &after, &[]) {
                        return fail(format!("changed when {why}"), format!("{c} although {why} in\n{}", hist()));
                    }
                } else if let Some(why) = fails {
                    if d.ok() {
                        return fail("status zero", format!("succeeded although {why} in\n{}", hist()));
                    }
                    let but = [ro.as_deref().unwrap_or(&out), rt.as_deref().unwrap_or(&states)];
                    if let Some(c) = changed(&before, &after, &but) {
                        return fail("others changed", format!("{c} (and {why}) in\n{}", hist()));
                    }
                } else {
                    let (o, t) = (ro.clone().unwrap(), rt.clone().unwrap());
                    if !d.ok() {
                        return fail("failure status", format!("status {:?} {} for a good run in\n{}", d.code, cli::tail(&d.stderr), hist()));
                    }
                    for (k, b, n) in [(&o, &want.0, "parser"), (&t, &want.1, "report")] {
                        if after.get(k) != Some(&Ent::File(b.clone())) {
                            return fail(format!("{n} incomplete"), format!("status 0, but {k} is {} instead of a {n} of {} bytes in\n{}", brief(after.get(k)), b.len(), hist()));
                        }
                    }
                    if let Some(c) = changed(&before, &after, &[&o, &t]) {
                        return fail("others changed", format!("{c} in\n{}", hist()));
                    }
                    // what was a specification may have been overwritten by a forced output
                    for k in [&o, &t] {
                        known.retain(|x, _| real(&before, x).as_ref() != Some(k));
                        specs.retain(|x| real(&before, x).as_ref() != Some(k));
                    }
                }
                if let Some(why) = fails
                    && !why.is_empty()
                {
                    for k in [ro, rt].into_iter().flatten() {
                        known.retain(|x, _| real(&before, x).as_ref() != Some(&k));
                        specs.retain(|x| real(&before, x).as_ref() != Some(&k));
                    }
                }
            }
        }
    }
    if runs == 0 {
        return Err(Stop::Discard("no run"));
    }
    ctx.show(|| log.join("\n"));
    ctx.case((runs > 1).then_some(key));
    Ok(())
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "A case is one history in a directory of its own: specifications of every quality are written, files, directories and links put where output would go, and one of the commands is run with random options, paths and working directories; in the second suite also with limited file sizes and full devices. Non-trivial: the history has at least two runs. Distinct by history.",
        assumptions: vec!["a report (.states) that exists is replaced without the force option", "output files that are links to each other are left out", "a write error after the parser was opened may leave any parser, but not exit status zero"],
        suites: vec![suite("histories", 2500, 40000, |s, ctx| scenario(s, ctx, false)), suite("write errors", 800, 12000, |s, ctx| scenario(s, ctx, true))],
    }
}
