//! Planting one defect into a specification.
use crate::gram::Gram;
use crate::spec::{K, Laid, Piece};
use crate::tape::Src;

#[derive(Clone, Debug)]
pub struct Defect {
    pub what: String,
    pub pieces: Vec<Piece>,
    /// The piece to be blamed; None for the end of the text.
    pub at: Option<usize>,
    /// Files that have to exist.
    pub files: Vec<(String, Vec<u8>)>,
    /// The defect breaks the syntax, so that what follows it may be skipped.
    pub syntax: bool,
}

fn pc(text: impl Into<String>, kind: K, role: &str) -> Piece {
    Piece { text: text.into(), kind, inj: false, nl: false, role: role.into() }
}

fn word(text: impl Into<String>) -> Piece {
    pc(text, K::Word, "defect")
}

fn punct(text: impl Into<String>) -> Piece {
    pc(text, K::Punct, "defect")
}

pub fn all(ps: &[Piece], prefix: &str) -> Vec<usize> {
    (0..ps.len()).filter(|i| ps[*i].role == prefix || ps[*i].role.strip_prefix(prefix).is_some_and(|r| r.starts_with(' '))).collect()
}

pub const KINDS: usize = 33;

pub const BAD_RX: [&str; 9] = ["([a-)", "(*)", "(a(b)", "(a{3,1})", "(\\p{Nope})", "((?z)a)", "(a|*)", "([z-a])", "(a**{2)"];

/// Plants a defect of the given kind; None if the specification offers no place for it.
pub fn plant(s: &mut Src, g: &Gram, ps: &[Piece], kind: usize) -> Option<Defect> {
    let mut v = ps.to_vec();
    let sec1 = all(ps, "section 1")[0];
    let sec2 = all(ps, "section 2")[0];
    let some = |s: &mut Src, role: &str| -> Option<usize> {
        let a = all(ps, role);
        (!a.is_empty()).then(|| *s.pick(&a))
    };
    let mut files = vec![];
    let mut syntax = false;
    let at: Option<usize>;
    // a declaration goes in front of one of these
    let tok_slot = |s: &mut Src| *s.pick(&all(ps, "token-kw").into_iter().skip(1).chain([all(ps, "token-text").last().unwrap() + 1]).collect::<Vec<_>>());
    let after = |role: &str| -> usize { all(ps, role).last().map_or(sec2, |i| i + 1) };
    let ins = |v: &mut Vec<Piece>, i: usize, mut new: Vec<Piece>| {
        new[0].nl = true;
        v.splice(i..i, new);
    };
    let what: String;
    match kind {
        0 => {
            let i = some(s, "rhs")?;
            v[i].text = "nowhere".into();
            v[i].kind = K::Word;
            what = "undefined symbol".into();
            at = Some(i);
        }
        1 => {
            let i = some(s, "rhs")?;
            v[i].text = "\"n0pe\"".into();
            v[i].kind = K::Punct;
            what = "unknown literal in a production".into();
            at = Some(i);
        }
        2 => {
            let i = some(s, "prodprec")?;
            (v[i].text, v[i].kind) = if s.chance(1, 2) { ("nowhere".into(), K::Word) } else { ("\"n0pe\"".into(), K::Punct) };
            what = "unknown precedence tag".into();
            at = Some(i);
        }
        3 => {
            // only where there are symbols and no precedence yet
            let i = some(s, "action")?;
            let k = ps[i].role.strip_prefix("action ").unwrap_or("");
            if all(ps, &format!("rhs {k}")).is_empty() || !all(ps, &format!("prodprec {k}")).is_empty() {
                return None;
            }
            v.splice(i..i, [word("%prec"), word("nowhere")]);
            what = "unknown precedence tag".into();
            at = Some(i + 1);
        }
        4 => {
            let slot = tok_slot(s);
            let before: Vec<usize> = all(ps, "token-name").into_iter().filter(|i| *i < slot).collect();
            let j = *s.pick(&before);
            let t = if s.chance(1, 2) { punct("\"fre$h\"") } else { pc("(fre[s]h)", K::Regex, "defect") };
            ins(&mut v, slot, vec![word("%token"), word(ps[j].text.clone()), t]);
            what = "token name defined twice".into();
            at = Some(slot + 1);
        }
        5 => {
            let slot = tok_slot(s);
            let before: Vec<usize> = all(ps, "token-text").into_iter().filter(|i| *i < slot).collect();
            let j = *s.pick(&before);
            let mut t = ps[j].clone();
            t.role = "defect".into();
            t.nl = false;
            ins(&mut v, slot, vec![word("%token"), word("Fresh"), t]);
            what = "token pattern defined twice".into();
            at = Some(slot + 1);
        }
        6 => {
            let j = some(s, "skip")?;
            let slot = after("skip");
            ins(&mut v, slot, vec![word("%skip"), pc(ps[j].text.clone(), K::Regex, "defect")]);
            what = "skip pattern defined twice".into();
            at = Some(slot + 1);
        }
        7 => {
            let rx: Vec<usize> = all(ps, "token-text").into_iter().filter(|i| ps[*i].kind == K::Regex).collect();
            if rx.is_empty() {
                return None;
            }
            let j = *s.pick(&rx);
            let slot = all(ps, "token-text").last().unwrap() + 1;
            ins(&mut v, slot, vec![word("%skip"), pc(ps[j].text.clone(), K::Regex, "defect")]);
            what = "skip pattern equal to a token's".into();
            at = Some(slot + 1);
        }
        8 => {
            let i = some(s, "token-text")?;
            v[i].text = (*s.pick(&BAD_RX)).into();
            v[i].kind = K::Regex;
            v[i].nl = false;
            if all(ps, "rhs").iter().chain(&all(ps, "prec")).chain(&all(ps, "prodprec")).any(|j| ps[*j].text == ps[i].text) {
                // the literal would be unknown as well
                return None;
            }
            what = "malformed regular expression of a token".into();
            at = Some(i);
        }
        9 => {
            let i = some(s, "skip")?;
            v[i].text = (*s.pick(&BAD_RX)).into();
            what = "malformed skip pattern".into();
            at = Some(i);
        }
        10 => {
            // tags have to be declared before they can be declared again
            let tags: Vec<usize> = all(ps, "prec").into_iter().filter(|i| g.tags.contains(&ps[*i].text)).collect();
            if tags.is_empty() {
                return None;
            }
            let j = *s.pick(&tags);
            let slot = sec2;
            ins(&mut v, slot, vec![word(*s.pick(&["%left", "%right", "%nonassoc"])), word(ps[j].text.clone())]);
            what = "tag defined twice".into();
            at = Some(slot + 1);
        }
        11 => {
            let toks: Vec<usize> = all(ps, "prec").into_iter().filter(|i| !g.tags.contains(&ps[*i].text)).collect();
            if toks.is_empty() {
                return None;
            }
            let j = *s.pick(&toks);
            let slot = sec2;
            let mut t = ps[j].clone();
            // by the other of its two names
            if let Some(k) = g.toks.iter().find(|k| k.lit && (k.name == t.text || format!("\"{}\"", k.text) == t.text))
                && s.chance(1, 2)
            {
                (t.text, t.kind) = if t.kind == K::Word { (format!("\"{}\"", k.text), K::Punct) } else { (k.name.clone(), K::Word) };
            }
            t.nl = false;
            t.role = "defect".into();
            ins(&mut v, slot, vec![word(*s.pick(&["%left", "%right", "%nonassoc"])), t]);
            what = "precedence of a token set twice".into();
            at = Some(slot + 1);
        }
        12 => {
            ins(&mut v, sec2, vec![word("%left"), punct("\"n0pe\"")]);
            what = "unknown literal in a precedence declaration".into();
            at = Some(sec2 + 1);
        }
        13 => {
            let t = s.pick(&g.toks).name.clone();
            let i = v.len();
            ins(&mut v, i, vec![word(t), punct(":"), punct(".")]);
            what = "token as left-hand side".into();
            at = Some(i);
        }
        14 => {
            // in front of any group but the first
            let i = *s.pick(&all(ps, "lhs"));
            if i == sec2 + 1 {
                return None;
            }
            let t = s.pick(&g.toks).name.clone();
            ins(&mut v, i, vec![word(t), punct(":"), punct("|"), punct(".")]);
            what = "token as left-hand side".into();
            at = Some(i);
        }
        15 => {
            let kw = if s.chance(1, 2) { "sr" } else { "rr" };
            let i = some(s, kw)?;
            v[i].text = (*s.pick(&["4294967296", "99999999999999999999999", "18446744073709551616"])).into();
            what = "number out of range".into();
            at = Some(i);
        }
        16..=18 => {
            let slots: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].inj).collect();
            let i = *s.pick(&slots);
            let name = ["gone.inc", "empty.inc", "binary.inc"][kind - 16];
            if kind == 17 {
                files.push((name.to_string(), vec![]));
            }
            if kind == 18 {
                files.push((name.to_string(), b"/* \xff\xfe */\n".to_vec()));
            }
            ins(&mut v, i, vec![word("%inject"), punct(format!("\"{name}\"")), punct(".")]);
            what = ["missing include", "empty include", "unreadable include"][kind - 16].into();
            at = Some(i + 1);
        }
        19 => {
            let i = s.range(1, sec1);
            let t = *s.pick(&["%token", "%left", "%prec", "|", ":", ".", "%skip", "%error", "77", "\"lit\"", "!{ x !}"]);
            let p = if t.starts_with('%') || t == "77" { word(t) } else { punct(t) };
            // a number may follow a keyword that wants one
            if t == "77" && ["sr-kw", "rr-kw"].contains(&ps[i - 1].role.as_str()) {
                return None;
            }
            v.insert(i, p);
            syntax = true;
            what = format!("stray {t} in the first part");
            at = Some(i);
        }
        20 => {
            let i = s.range(sec1 + 1, sec2);
            let t = *s.pick(&["%attr", "%target", "%shift_reduce", "%prec", "|", ":", ".", "%error", "77", "!{ x !}", "%{ y %}"]);
            let p = if t.starts_with("%{") || !t.starts_with('%') && t != "77" { punct(t) } else { word(t) };
            v.insert(i, p);
            syntax = true;
            what = format!("stray {t} in the second part");
            at = Some(i);
        }
        21 => {
            let i = s.range(sec2 + 1, ps.len());
            let t = *s.pick(&["%token", "%skip", "%left", "%nonassoc", "%attr", "%%", "%{ y %}", "77", "%reduce_reduce"]);
            let p = if t.starts_with("%{") { punct(t) } else { word(t) };
            v.insert(i, p);
            syntax = true;
            what = format!("stray {t} in the third part");
            at = Some(i);
        }
        22 => {
            let i = s.range(1, ps.len());
            // not inside a regular expression's line
            let t = *s.pick(&["@", "~", "\u{e9}", "\u{1F600}", "^", "&"]);
            v.insert(i, punct(t));
            syntax = true;
            what = format!("unknown character {t}");
            at = Some(i);
        }
        23 => {
            let role = *s.pick(&["token-name", "token-text", "skip", "prodprec", "target", "attr", "sr", "rr", "colon"]);
            let i = some(s, role)?;
            v.remove(i);
            syntax = true;
            what = format!("missing {role}");
            at = Some(i);
        }
        24 => {
            v.remove(sec1);
            syntax = true;
            what = "missing first %%".into();
            at = Some(sec1);
        }
        25 => {
            v.remove(sec2);
            syntax = true;
            what = "missing second %%".into();
            let in_list = v[sec2 - 1].role.starts_with("prec ");
            at = Some(if in_list { sec2 + 1 } else { sec2 });
        }
        26 => {
            let i = some(s, "dot")?;
            v.remove(i);
            syntax = true;
            what = "missing full stop".into();
            at = if i == v.len() {
                None
            } else if v[i - 1].role.starts_with("action") || v[i - 1].role.starts_with("prodprec") {
                Some(i)
            } else {
                Some(i + 1)
            };
        }
        27 => {
            let role = *s.pick(&["attr", "target"]);
            let i = all(ps, role)[0];
            let last = i.max(all(ps, if role == "attr" { "target" } else { "attr" })[0]);
            v.drain(i - 1..=i);
            syntax = true;
            what = format!("no %{role}");
            at = Some(last + 1 - 2);
        }
        28 => {
            let role = *s.pick(&["attr", "target"]);
            let i = all(ps, role)[0];
            v.splice(i + 1..i + 1, [word(format!("%{role}")), word("Other")]);
            syntax = true;
            what = format!("two %{role}");
            at = Some(i + 1);
        }
        29 => {
            // cut off in the middle of something
            let i = s.range(1, ps.len() - 1);
            if i > sec2 && ps[i - 1].role.starts_with("dot") {
                return None;
            }
            v.truncate(i);
            syntax = true;
            what = format!("cut off before {}", ps[i].role);
            at = None;
        }
        30 => {
            let i = *s.pick(&all(ps, "colon"));
            v.insert(i, punct(":"));
            syntax = true;
            what = "two colons".into();
            at = Some(i + 1);
        }
        31 => {
            ins(&mut v, sec1 + 1, vec![word("%token"), word("Void"), punct("\"\"")]);
            what = "empty literal".into();
            at = Some(sec1 + 2);
        }
        _ => {
            // not closed: swallows the rest of the text or stops at its start
            let i = some(s, "action")?;
            v[i].text = v[i].text.replace("!}", "}");
            if v[i + 1..].iter().any(|p| p.text.contains("!}")) {
                return None;
            }
            syntax = true;
            what = "action without end".into();
            at = Some(i);
        }
    }
    Some(Defect { what, pieces: v, at, files, syntax })
}

/// Line and offset of the blame.
pub fn blame(d: &Defect, l: &Laid) -> (usize, usize) {
    match d.at {
        Some(i) => l.at[i],
        None => {
            let t = &l.text;
            (1 + t.bytes().filter(|b| *b == b'\n').count(), t.len() - t.rfind('\n').map_or(0, |x| x + 1) + 1)
        }
    }
}

/// Lines of the diagnostics that are not warnings and carry the location.
pub fn located(stderr: &str, label: &str, at: (usize, usize)) -> bool {
    let want = format!("{label}:{}:{}", at.0, at.1);
    stderr.lines().any(|l| {
        !l.contains(": Warning: ") && l.match_indices(&want).any(|(i, _)| !l[i + want.len()..].starts_with(|c: char| c.is_ascii_digit()) && !l[..i].ends_with(|c: char| c.is_alphanumeric() || c == '/'))
    })
}
