//! C01-C05: the lexical analyzer library.
use crate::lexmodel::*;
use crate::run::*;
use crate::rx::*;
use crate::tape::{Src, hash_str, mix};

pub const ALPHA: &[char] = &['a', 'b', 'c', '1', '+', ' ', '\n', 'é', '日', '.', '(', '"', '\r', '\t', '😀', 'è', 'A', 'B', '_'];
/// Control characters, Unicode line ends and spaces, byte-order mark, marks that combine.
const ODD: &[char] = &['a', '\n', '\u{2028}', ' ', '\u{85}', 'b', '\u{b}', '\u{c}', '\u{0}', '\u{feff}', '\u{a0}', '\u{301}', '\u{1a}', '\u{7f}', '\r', '\u{200b}', '\u{ffff}', '\u{10ffff}'];
const PLAIN: &[char] = &['a', 'b', 'c', '1', '+', ' ', '\n'];

fn gen_lit(s: &mut Src, al: &[char], pool: &[String]) -> String {
    // often an extension or a prefix of an earlier literal
    if !pool.is_empty() && s.chance(1, 2) {
        let base = s.pick(pool).clone();
        if s.chance(1, 2) {
            return base + &s.string(al, 1, 3);
        }
        let cs: Vec<char> = base.chars().collect();
        let n = s.range(1, cs.len());
        return cs[..n].iter().collect();
    }
    s.string(al, 1, 3)
}

/// A lexicon the constructor should accept.
pub fn gen_lex(s: &mut Src, al: &[char], max_lits: usize) -> Lex {
    let mut lits: Vec<String> = vec![];
    for _ in 0..s.range(0, max_lits) {
        let l = gen_lit(s, al, &lits);
        if !lits.contains(&l) {
            lits.push(l);
        }
    }
    let mut pats: Vec<Rx> = vec![];
    let mut seen: Vec<String> = lits.clone();
    let add = |r: Rx, pats: &mut Vec<Rx>, seen: &mut Vec<String>| {
        let t = r.render();
        if !t.is_empty() && !seen.contains(&t) {
            seen.push(t);
            pats.push(r);
        }
    };
    for _ in 0..s.range(0, 4) {
        let r = if !lits.is_empty() && s.chance(1, 4) {
            // competes with a literal: the literal's text, perhaps continued
            let l = s.pick(&lits).clone();
            let x = gen_rx(s, al, 1);
            Rx::Cat(vec![Rx::Group(Box::new(Rx::lit(&l))), Rx::Rep(Box::new(Rx::Group(Box::new(if x.nullable() { Rx::Ch(al[0]) } else { x }))), 0, Some(1), false)])
        } else if !pats.is_empty() && s.chance(1, 4) {
            // ties with an earlier expression on some texts
            Rx::Alt(vec![s.pick(&pats).clone(), gen_rx(s, al, 1)])
        } else {
            gen_rx(s, al, 2)
        };
        add(r, &mut pats, &mut seen);
    }
    let nres = pats.len();
    for _ in 0..s.range(0, 2) {
        let r = match s.below(3) {
            0 => Rx::Rep(Box::new(Rx::Perl('s')), 1, None, false),
            1 => Rx::Ch(' '),
            _ => gen_rx(s, al, 2),
        };
        add(r, &mut pats, &mut seen);
    }
    let mut tags: Vec<u16> = (0..(lits.len() + nres + 1) as u16).collect();
    s.shuffle(&mut tags);
    let mut it = tags.into_iter();
    let skips = pats.split_off(nres);
    Lex { lits: lits.into_iter().map(|l| (it.next().unwrap(), l)).collect(), res: pats.into_iter().map(|r| (it.next().unwrap(), r)).collect(), skips, end: it.next().unwrap() }
}

/// A text made of pieces the lexicon knows, and junk.
pub fn gen_text(s: &mut Src, lex: &Lex, al: &[char], pieces: usize) -> String {
    let mut t = String::new();
    for _ in 0..s.range(0, pieces) {
        match s.weighted(&[3, 4, 2, 2, 1]) {
            0 if !lex.lits.is_empty() => t += &s.pick(&lex.lits).1.clone(),
            1 if !lex.res.is_empty() => s.pick(&lex.res).1.clone().sample(s, &mut t, al),
            2 if !lex.skips.is_empty() => s.pick(&lex.skips).clone().sample(s, &mut t, al),
            4 => t += "\r\n",
            _ => t += &s.string(al, 1, 2),
        }
    }
    if t.len() > 120 {
        t = t.chars().take(40).collect();
    }
    if s.chance(1, 60) {
        // much more than usual of something
        let n = s.range(30, 400);
        let x: String = match s.below(3) {
            0 if !lex.lits.is_empty() => s.pick(&lex.lits).1.clone(),
            1 => t.clone(),
            _ => s.string(al, 1, 2),
        };
        let x: String = x.chars().take(8).collect();
        t = match s.below(3) {
            0 => x.repeat(n) + &t,
            1 => t + &x.repeat(n),
            _ => t.clone() + &x.repeat(n) + &t,
        };
    }
    t
}

/// Reads a whole stream; stops after `limit` steps.
pub fn read_all(a: &lexan::LexicalAnalyzer<Tg>, end: u16, text: &str, label: &str, limit: usize) -> Result<(Vec<Item>, Option<Item>), String> {
    let r = sut(|| {
        let mut st = a.token_stream(text, label);
        let mut v = vec![];
        for _ in 0..=limit {
            let it = item_of(&st.front_advance());
            if let Item::Tok(t, _, _) = &it
                && *t == end
            {
                return (v, Some(it));
            }
            v.push(it);
        }
        (v, None)
    });
    r.map_err(|e| format!("reading crashed: {e}"))
}

fn show(lex: &Lex, text: &str) -> String {
    format!("lexicon {} ; text {:?}", lex.describe(), text)
}

pub fn build(lex: &Lex) -> R<lexan::LexicalAnalyzer<Tg>> {
    match sut(|| lex.real()) {
        Ok(a) => Ok(a),
        Err(e) => fail("refused", format!("a well-formed lexicon was refused: {e}")),
    }
}

fn model(lex: &Lex, text: &str, label: &str) -> R<Lexed> {
    lex.run(text, label).map_err(|_| Stop::Discard("reference matcher out of fuel"))
}

fn alphabet(s: &mut Src) -> &'static [char] {
    [PLAIN, ALPHA, ODD][s.weighted(&[6, 5, 1])]
}

fn c01_case(s: &mut Src, ctx: &mut Ctx, max_lits: usize, pieces: usize) -> R {
    let al = alphabet(s);
    let lex = gen_lex(s, al, max_lits);
    let texts: Vec<String> = (0..s.range(1, 6)).map(|_| gen_text(s, &lex, al, pieces)).collect();
    ctx.show(|| show(&lex, &texts.join("\u{241e}")));
    let a = build(&lex)?;
    for text in &texts {
        let m = model(&lex, text, "l")?;
        let nchars = text.chars().count();
        let (got, end) = match read_all(&a, lex.end, text, "l", nchars + 1) {
            Ok(x) => x,
            Err(e) => return fail("tokens", format!("{e} on text {text:?}; expected {}", show_items(&m.items))),
        };
        let bare: Vec<Item> = got.iter().map(|i| i.bare()).collect();
        let want: Vec<Item> = m.items.iter().map(|i| i.bare()).collect();
        let errs = want.iter().filter(|i| !matches!(i, Item::Tok(..))).count();
        let nontriv = want.len() >= 2 && lex.lits.len() + lex.res.len() >= 2;
        ctx.case(nontriv.then(|| mix(&[hash_str(&lex.describe()), hash_str(text)])));
        ctx.classn("ambiguous", want.iter().filter(|i| matches!(i, Item::Ambig(..))).count() as u64);
        ctx.classn("junk", want.iter().filter(|i| matches!(i, Item::Unexp(..))).count() as u64);
        ctx.classn("tokens", (want.len() - errs) as u64);
        if lex.res.iter().any(|r| matches!(r.1, Rx::Alt(_))) {
            ctx.class("top-level alternation");
        }
        if bare != want || (end.is_none()) {
            return fail("tokens", format!("text {text:?}: expected {} got {}{}", show_items(&want), show_items(&bare), if end.is_none() { " and no end" } else { "" }));
        }
    }
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "random lexicons (literals sharing prefixes, regular expressions overlapping them, skips) with texts built from their samples and junk; the stream is compared with a naive tokeniser using its own backtracking matcher. Non-trivial: at least two lexemes in the text and two patterns in the lexicon; distinct by lexicon and text.",
        assumptions: vec!["the oracle's matcher implements leftmost-first matching for the generated subset of regular expressions (with anchors, word boundaries and the flags i, s, m, U)", "loops with possibly-empty bodies are not generated"],
        suites: vec![
            suite("general", 60_000, 1_500_000, |s, c| c01_case(s, c, 5, 8)),
            suite("many literals", 15_000, 400_000, |s, c| c01_case(s, c, 30, 10)),
            suite("long", 400, 12_000, long_case),
        ],
    }
}

fn c02_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let lex = gen_lex(s, al, 4);
    let texts: Vec<String> = (0..s.range(1, 5)).map(|_| gen_text(s, &lex, al, 8)).collect();
    ctx.show(|| show(&lex, &texts.join("\u{241e}")));
    let a = build(&lex)?;
    let past = s.range(1, 3);
    for text in &texts {
        let chars: Vec<char> = text.chars().collect();
        let (got, end) = match read_all(&a, lex.end, text, "l", chars.len() + 1) {
            Ok(x) => x,
            Err(e) => return fail("crash", format!("{e} on text {text:?}")),
        };
        ctx.case((!chars.is_empty() && !got.is_empty()).then(|| mix(&[hash_str(&lex.describe()), hash_str(text)])));
        if lex.res.iter().any(|r| r.1.nullable()) || lex.skips.iter().any(|r| r.nullable()) {
            ctx.class("nullable pattern");
        }
        if !text.is_ascii() {
            ctx.class("non-ASCII text");
        }
        if end.is_none() || got.len() > chars.len() {
            return fail("progress", format!("text {text:?} of {} characters: no end marker after {} steps: {}", chars.len(), got.len(), show_items(&got)));
        }
        // in order, disjoint, and only skip matches in between
        let fuel = |_| Stop::Discard("reference matcher out of fuel");
        let close = |mut set: Vec<bool>| -> R<Vec<bool>> {
            for i in 0..chars.len() {
                if set[i] {
                    for r in &lex.skips {
                        if let Some(n) = r.prefix(&chars[i..]).map_err(fuel)? {
                            set[i + n] = true;
                        }
                    }
                }
            }
            Ok(set)
        };
        let mut set = vec![false; chars.len() + 1];
        set[0] = true;
        set = close(set)?;
        for it in &got {
            let x: Vec<char> = match it {
                Item::Tok(_, x, _) | Item::Unexp(x, _) | Item::Ambig(_, x, _) => x.chars().collect(),
                Item::Empty(_) => return fail("early-end", format!("text {text:?}: advanced-when-empty before the end marker: {}", show_items(&got))),
            };
            if x.is_empty() {
                return fail("empty-lexeme", format!("text {text:?}: empty lexeme: {}", show_items(&got)));
            }
            let mut nset = vec![false; chars.len() + 1];
            for i in 0..chars.len() {
                if set[i] && chars[i..].starts_with(&x) {
                    nset[i + x.len()] = true;
                }
            }
            set = close(nset)?;
            if !set.iter().any(|b| *b) {
                return fail("lost-text", format!("text {text:?}: {} does not follow on from the text before it: {}", it, show_items(&got)));
            }
        }
        if !set[chars.len()] {
            return fail("lost-text", format!("text {text:?}: text lost after the last lexeme: {}", show_items(&got)));
        }
        // beyond the end
        let lim = got.len() + 1;
        let beyond = sut(|| {
            let mut st = a.token_stream(text, "l");
            for _ in 0..lim {
                st.advance();
            }
            let mut v = vec![item_of(&st.front())];
            for _ in 0..past {
                v.push(item_of(&st.advance_front()));
            }
            v
        });
        match beyond {
            Err(e) => return fail("crash", format!("reading past the end of {text:?}: {e}")),
            Ok(v) => {
                if !v.iter().all(|i| matches!(i, Item::Empty(_))) {
                    return fail("past-end", format!("text {text:?}: past the end marker: {}", show_items(&v)));
                }
            }
        }
    }
    Ok(())
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "random lexicons, including nullable and overlapping patterns, and UTF-8 texts with multi-byte characters; invariants on the whole stream (end reached within one step per character, non-empty lexemes in order and disjoint, gaps made of skip matches only, nothing but advanced-when-empty after the end). Non-trivial: a non-empty text giving at least one item; distinct by lexicon and text.",
        assumptions: vec!["an unbounded loop inside a single call would end the check by its watchdog (an error, not a violation); a loop of zero-length steps is counted and reported"],
        suites: vec![suite("invariants", 60_000, 1_500_000, c02_case), suite("unicode junk", 30_000, 600_000, c02_unicode)],
    }
}

fn c02_unicode(s: &mut Src, ctx: &mut Ctx) -> R {
    let u: &[char] = &['é', '日', '😀', 'a', '\u{301}', '\u{0}', '\u{2028}', '\u{feff}', 'ß', '\u{10ffff}'];
    let lex = gen_lex(s, u, 2);
    let text = s.string(u, 0, 12);
    ctx.show(|| show(&lex, &text));
    let a = build(&lex)?;
    let n = text.chars().count();
    ctx.case((n > 1).then(|| mix(&[hash_str(&lex.describe()), hash_str(&text)])));
    match read_all(&a, lex.end, &text, "l", n + 1) {
        Err(e) => fail("crash", format!("{e} on text {text:?}")),
        Ok((got, end)) => {
            if end.is_none() || got.len() > n {
                return fail("progress", format!("text {text:?}: no end marker within {n} steps"));
            }
            let total: usize = got
                .iter()
                .map(|i| match i {
                    Item::Tok(_, x, _) | Item::Unexp(x, _) | Item::Ambig(_, x, _) => x.len(),
                    Item::Empty(_) => 0,
                })
                .sum();
            if lex.skips.is_empty() && total != text.len() {
                return fail("lost-text", format!("text {text:?}: {} of {} bytes returned: {}", total, text.len(), show_items(&got)));
            }
            Ok(())
        }
    }
}

fn c03_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let al: &[char] = [ALPHA, &['a', '\n', '\r', 'b', ' ', 'é'], ODD][s.weighted(&[3, 3, 1])];
    let mut lex = gen_lex(s, al, 3);
    if s.chance(1, 2) {
        // a multi-line token or comment
        let body = Rx::Rep(Box::new(Rx::Class(true, vec![('<', '<'), ('>', '>')])), 0, None, false);
        let r = Rx::Cat(vec![Rx::Ch('<'), body, Rx::Ch('>')]);
        if s.chance(1, 2) { lex.skips.push(r) } else { lex.res.push((900, r)) }
    }
    let mut text = String::new();
    for _ in 0..s.range(1, 7) {
        match s.below(5) {
            0 => text += &gen_text(s, &lex, al, 3),
            1 => text += "\n",
            2 => text += "\r\n",
            3 => text += &s.string(al, 1, 3),
            _ => {
                text += "<";
                let al: &[char] = if s.chance(1, 6) { ODD } else { &['a', '\n', '\r', 'é', ' '] };
                text += &s.string(al, 0, 5);
                text += ">";
            }
        }
    }
    if text.len() > 150 {
        text = text.chars().take(50).collect();
    }
    let label = s.pick(&["l", "", "my file", "a\tb", "dir/x.rs", "ünï", " ", "1:2", "a\"b", "x: y\\z", "{}", "0"]).to_string();
    ctx.show(|| format!("{} ; label {label:?}", show(&lex, &text)));
    let a = build(&lex)?;
    let m = model(&lex, &text, &label)?;
    let (got, end) = match read_all(&a, lex.end, &text, &label, text.chars().count() + 1) {
        Ok(x) => x,
        Err(_) => return Err(Stop::Discard("the stream does not end (C02)")),
    };
    let Some(end) = end else { return Err(Stop::Discard("the stream does not end (C02)")) };
    if got.iter().map(|i| i.bare()).ne(m.items.iter().map(|i| i.bare())) {
        return Err(Stop::Discard("tokens differ from the reference (C01)"));
    }
    let lfs = text.matches('\n').count();
    ctx.case((lfs > 0 && !got.is_empty()).then(|| mix(&[hash_str(&lex.describe()), hash_str(&text), hash_str(&label)])));
    if text.contains("\r\n") && text.replace("\r\n", "").contains('\n') {
        ctx.class("mixed line ends");
    }
    if m.items.iter().any(|i| matches!(i, Item::Tok(_, x, _) | Item::Unexp(x, _) | Item::Ambig(_, x, _) if x.contains('\n'))) {
        ctx.class("line end inside a lexeme");
    }
    for (g, w) in got.iter().zip(m.items.iter()) {
        if g.loc() != w.loc() {
            return fail("location", format!("text {text:?}: {g} should be at {}:{}:{}", w.loc().label, w.loc().line, w.loc().off));
        }
    }
    if *end.loc() != m.end {
        return fail("end-location", format!("text {text:?}: end marker {end} should be at {}:{}:{}", m.end.label, m.end.line, m.end.off));
    }
    // another text injected somewhere
    if s.chance(1, 3) {
        let other = gen_text(s, &lex, al, 4);
        let label2 = s.pick(&["", "l", "m", &label, "in jected"]).to_string();
        let at = s.below(got.len() + 1);
        let m2 = model(&lex, &other, &label2)?;
        let n2 = m2.items.len();
        let read = sut(|| {
            let mut st = a.token_stream(&text, &label);
            for _ in 0..at {
                st.advance();
            }
            st.inject(&other, &label2);
            (0..n2 + got.len() - at + 1).map(|_| item_of(&st.front_advance())).collect::<Vec<_>>()
        })
        .or_else(|e| fail("crash", e))?;
        for (i, (g, w)) in read.iter().zip(m2.items.iter().chain(&got[at..])).enumerate() {
            if g.bare() != w.bare() {
                return Err(Stop::Discard("injected tokens differ from the reference (C04)"));
            }
            if g.loc() != w.loc() {
                return fail("injected location", format!("text {text:?} labelled {label:?}, before item {at} of which {other:?} labelled {label2:?} is injected: item {i}, {g}, should be at {}:{}:{}", w.loc().label, w.loc().line, w.loc().off));
            }
        }
        if n2 > 0 && label2.is_empty() != label.is_empty() {
            ctx.class("one text without a label");
        }
    }
    // the printed forms
    let printed = sut(|| {
        let mut st = a.token_stream(&text, &label);
        let mut v = vec![];
        for _ in 0..=got.len() {
            match st.front_advance() {
                Ok(t) => v.push((t.location().to_string(), t.to_string())),
                Err(e) => v.push((String::new(), e.to_string())),
            }
        }
        v
    })
    .or_else(|e| fail("crash", e))?;
    for ((p, whole), g) in printed.iter().zip(got.iter().chain([&end])) {
        let l = g.loc();
        let want = if l.label.is_empty() {
            format!("{}:{}", l.line, l.off)
        } else if l.label.contains(' ') || l.label.contains('\t') {
            format!("\"{}\":{}:{}", l.label, l.line, l.off)
        } else {
            format!("{}:{}:{}", l.label, l.line, l.off)
        };
        if !whole.contains(&want) || (matches!(g, Item::Tok(..)) && *p != want) {
            return fail("printed-location", format!("{g} printed as {p:?} in {whole:?}, expected {want:?}"));
        }
    }
    Ok(())
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "lexicons with multi-line tokens, comments and junk over texts mixing LF, CRLF and lone CR and multi-byte characters, with several labels; each location is compared with a direct count over the text before it, the printed form with the stated format. Non-trivial: the text has a line feed and at least one item; distinct by lexicon, text and label.",
        assumptions: vec!["cases whose lexemes already differ from the reference are left to C01"],
        suites: vec![suite("locations", 60_000, 1_500_000, c03_case), suite("long", 300, 12_000, long_case)],
    }
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug)]
enum Op {
    Front(usize),
    Advance(usize),
    FrontAdvance(usize),
    AdvanceFront(usize),
    IsEmpty(usize),
    Inject(usize, String, String),
}

/// What a text gives when read alone: its items and its end marker.
#[derive(Clone)]
struct Alone {
    items: std::rc::Rc<[Item]>,
    end: Item,
}

struct StreamModel {
    stack: Vec<(Alone, usize)>,
    front: Item,
}

impl StreamModel {
    fn push(&mut self, a: Alone) {
        if !a.items.is_empty() {
            self.front = a.items[0].clone();
            self.stack.push((a, 0));
        }
    }
    fn advance(&mut self) {
        if self.stack.is_empty() {
            self.front = Item::Empty(self.front.loc().clone());
            return;
        }
        self.stack.last_mut().unwrap().1 += 1;
        let mut popped = None;
        while let Some((a, i)) = self.stack.last() {
            if *i < a.items.len() {
                break;
            }
            popped = Some(a.end.clone());
            self.stack.pop();
        }
        self.front = match self.stack.last() {
            Some((a, i)) => a.items[*i].clone(),
            None => popped.unwrap(),
        };
    }
}

fn c04_case(s: &mut Src, ctx: &mut Ctx, deep: bool) -> R {
    let al = [PLAIN, ALPHA, ODD][s.weighted(&[9, 5, 1])];
    let lex = gen_lex(s, al, 4);
    let nstreams = s.weighted(&[3, 2, 1]) + 1;
    let starts: Vec<(String, String)> = (0..nstreams).map(|i| (gen_text(s, &lex, al, 6), format!("base{i}"))).collect();
    let nops = s.range(1, 24);
    let texts: Vec<String> = if deep { (0..5).map(|_| gen_text(s, &lex, al, 3)).collect() } else { vec![] };
    let mut ops: Vec<Op> = (0..nops)
        .map(|i| {
            let k = s.below(nstreams);
            match s.weighted(&[2, 4, 3, 3, 1, 4]) {
                0 => Op::Front(k),
                1 => Op::Advance(k),
                2 => Op::FrontAdvance(k),
                3 => Op::AdvanceFront(k),
                4 => Op::IsEmpty(k),
                _ => {
                    let t = match () {
                        _ if s.chance(1, 5) => String::new(),
                        _ if deep => s.pick(&texts).clone(),
                        _ => gen_text(s, &lex, al, 4),
                    };
                    let label = if s.chance(1, 6) { s.pick(&["", "base0", "inj0"]).to_string() } else { format!("inj{i}") };
                    Op::Inject(k, t, label)
                }
            }
        })
        .collect();
    let first = ops.len();
    if deep {
        // short sequences of operations many times over
        for _ in 0..s.range(1, 4) {
            let from = s.below(first);
            let n = s.range(1, (first - from).min(4));
            let times = *s.pick(&[20, 70, 140, 300, 700, 1100, 6000]) / n;
            for i in 0..times * n {
                ops.push(ops[from + i % n].clone());
            }
        }
    }
    ctx.show(|| format!("lexicon {} ; streams {starts:?} ; {} operations {:?}{}", lex.describe(), ops.len(), &ops[..ops.len().min(first + 12)], if ops.len() > first + 12 { "..." } else { "" }));
    let a = build(&lex)?;
    let cache = std::cell::RefCell::new(std::collections::HashMap::<(String, String), Alone>::new());
    let alone = |t: &str, l: &str| -> R<Alone> {
        if let Some(x) = cache.borrow().get(&(t.to_string(), l.to_string())) {
            return Ok(x.clone());
        }
        match read_all(&a, lex.end, t, l, t.chars().count() + 1) {
            Ok((items, Some(end))) if items.iter().all(|i| !matches!(i, Item::Empty(_))) => {
                let x = Alone { items: items.into(), end };
                cache.borrow_mut().insert((t.to_string(), l.to_string()), x.clone());
                Ok(x)
            }
            _ => Err(Stop::Discard("a text cannot be read alone (C02)")),
        }
    };
    let mut models = vec![];
    for (t, l) in &starts {
        let al = alone(t, l)?;
        let mut m = StreamModel { stack: vec![], front: al.end.clone() };
        m.push(al);
        models.push(m);
    }
    let mut streams = match sut(|| starts.iter().map(|(t, l)| a.token_stream(t, l)).collect::<Vec<_>>()) {
        Ok(v) => v,
        Err(e) => return fail("crash", e),
    };
    let mut injections = 0;
    let mut nested = false;
    let mut deepest = 0;
    let mut at_end = false;
    let same = |got: &Item, want: &Item| -> bool {
        match (got, want) {
            // where reading ended after injecting at the end is not specified
            (Item::Tok(t, _, _), Item::Tok(u, _, _)) if *t == lex.end && t == u => got.bare() == want.bare(),
            (Item::Empty(_), Item::Empty(_)) => true,
            _ => got == want,
        }
    };
    for (n, op) in ops.iter().enumerate() {
        let r: Result<Result<(), String>, String> = sut(|| {
            let chk = |what: &str, got: Item, want: &Item| if same(&got, want) { Ok(()) } else { Err(format!("step {n} {op:?}: {what} gave {got}, expected {want}")) };
            match op {
                Op::Front(k) => {
                    chk("front", item_of(&streams[*k].front()), &models[*k].front)?;
                    chk("front again", item_of(&streams[*k].front()), &models[*k].front)
                }
                Op::Advance(k) => {
                    streams[*k].advance();
                    models[*k].advance();
                    Ok(())
                }
                Op::FrontAdvance(k) => {
                    let g = item_of(&streams[*k].front_advance());
                    let w = models[*k].front.clone();
                    models[*k].advance();
                    chk("front_advance", g, &w)
                }
                Op::AdvanceFront(k) => {
                    let g = item_of(&streams[*k].advance_front());
                    models[*k].advance();
                    chk("advance_front", g, &models[*k].front)
                }
                Op::IsEmpty(k) => {
                    let g = streams[*k].is_empty();
                    let w = models[*k].stack.is_empty();
                    if g == w { Ok(()) } else { Err(format!("step {n}: is_empty gave {g}, expected {w}")) }
                }
                Op::Inject(k, t, l) => {
                    streams[*k].inject(t, l);
                    Ok(())
                }
            }
        });
        match r {
            Err(e) => return fail("crash", format!("step {n} {op:?}: {e}")),
            Ok(Err(e)) => return fail("history", e),
            Ok(Ok(())) => (),
        }
        if let Op::Inject(k, t, l) = op {
            let al = alone(t, l)?;
            if !al.items.is_empty() {
                injections += 1;
                nested |= models[*k].stack.len() >= 2;
                deepest = deepest.max(models[*k].stack.len());
                at_end |= models[*k].stack.is_empty();
            }
            models[*k].push(al);
        }
    }
    // drain every stream
    for (k, m) in models.iter_mut().enumerate() {
        let limit = m.stack.iter().map(|x| x.0.items.len()).sum::<usize>() + 2;
        for _ in 0..limit {
            let g = match sut(|| item_of(&streams[k].front_advance())) {
                Ok(g) => g,
                Err(e) => return fail("crash", format!("draining stream {k}: {e}")),
            };
            if !same(&g, &m.front) {
                return fail("history", format!("draining stream {k}: got {g}, expected {}", m.front));
            }
            m.advance();
        }
    }
    ctx.case((injections > 0).then(|| mix(&[hash_str(&lex.describe()), hash_str(&format!("{starts:?}{ops:?}"))])));
    if nested {
        ctx.class("nested injection");
    }
    if deepest >= 100 {
        ctx.class("injections nested 100 deep and more");
    }
    if at_end {
        ctx.class("injection at the end");
    }
    Ok(())
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "histories of up to 24 (suite deep: thousands of) reading and injecting operations over up to three streams of one analyzer, compared step by step with a stack-of-texts model whose token lists come from reading each text alone; every stream is then drained. Non-trivial: at least one injection of a text with tokens; distinct by lexicon, texts and operations.",
        assumptions: vec!["the location carried by an end marker that follows an injection made when the stream was already exhausted is not specified and not compared"],
        suites: vec![suite("histories", 60_000, 1_500_000, |s, c| c04_case(s, c, false)), suite("deep", 2000, 50_000, |s, c| c04_case(s, c, true))],
    }
}

// ---------------------------------------------------------------- C05

fn c05_case(s: &mut Src, ctx: &mut Ctx) -> R {
    const BAD: &[&str] = &["(a", "a)", "[a", "a)(b", "a)|(b", "*a", "a{2,1}", "\\", "(?P<n>a", "[b-a]", "(?:", ")(", "\\q", "a|)|(b"];
    const GOOD: &[&str] = &["a", "b+", "a|b", "(a)", "[a-c]+", "\\d+", "x", "y", "aa", "ab", "(?i)a", "a*", "|a", "^a", "é", "a b", "(b)", "[0-9]+", "c", "ba"];
    let (nl, nr, ns) = (s.range(0, 8), s.range(0, 4), s.range(0, 3));
    let big = s.chance(1, 3);
    let mut tagn = 0u16;
    let mut uniq = 0usize;
    let mut pat = |s: &mut Src, lit: bool| -> String {
        uniq += 1;
        if big || s.chance(3, 4) {
            // distinct by construction, in varied sort positions
            let c = *s.pick(&["k", "K", "m", "z", "_", "ö", "A"]);
            return format!("{c}{uniq}");
        }
        match s.weighted(&[6, 1, 1]) {
            1 => String::new(),
            2 if !lit => s.pick(BAD).to_string(),
            _ => s.pick(GOOD).to_string(),
        }
    };
    let lits: Vec<(u16, String)> = (0..nl).map(|_| (0, pat(s, true))).collect();
    let res: Vec<(u16, String)> = (0..nr).map(|_| (0, pat(s, false))).collect();
    let mut skips: Vec<String> = (0..ns).map(|_| pat(s, false)).collect();
    let (mut lits, mut res) = (lits, res);
    let mut tags: Vec<u16> = (0..=(nl + nr) as u16).collect();
    s.shuffle(&mut tags);
    for x in lits.iter_mut().chain(res.iter_mut()) {
        x.0 = tags[tagn as usize];
        tagn += 1;
    }
    let mut end = tags[tagn as usize];
    // defects
    if s.chance(1, 4) {
        // duplicate a tag
        let all: Vec<u16> = lits.iter().map(|x| x.0).chain(res.iter().map(|x| x.0)).collect();
        if !all.is_empty() {
            let t = *s.pick(&all);
            match s.below(3) {
                0 => end = t,
                1 if !lits.is_empty() => {
                    let i = s.below(lits.len());
                    lits[i].0 = t
                }
                _ if !res.is_empty() => {
                    let i = s.below(res.len());
                    res[i].0 = t
                }
                _ => end = t,
            }
        }
    }
    if s.chance(1, 4) {
        // duplicate a pattern
        let all: Vec<String> = lits.iter().map(|x| x.1.clone()).chain(res.iter().map(|x| x.1.clone())).chain(skips.iter().cloned()).collect();
        if !all.is_empty() {
            let t = s.pick(&all).clone();
            match s.below(3) {
                0 if !lits.is_empty() => {
                    let i = s.below(lits.len());
                    lits[i].1 = t
                }
                1 if !res.is_empty() => {
                    let i = s.below(res.len());
                    res[i].1 = t
                }
                _ => skips.push(t),
            }
        }
    }
    let mut all_tags: Vec<u16> = lits.iter().map(|x| x.0).chain(res.iter().map(|x| x.0)).chain([end]).collect();
    let mut all_pats: Vec<String> = lits.iter().map(|x| x.1.clone()).chain(res.iter().map(|x| x.1.clone())).chain(skips.iter().cloned()).collect();
    let (n1, n2) = (all_tags.len(), all_pats.len());
    all_tags.sort();
    all_tags.dedup();
    all_pats.sort();
    all_pats.dedup();
    let mut why = vec![];
    if all_tags.len() != n1 {
        why.push("duplicate tag");
    }
    if all_pats.len() != n2 {
        why.push("duplicate pattern");
    }
    if all_pats.iter().any(|p| p.is_empty()) {
        why.push("empty pattern");
    }
    if res.iter().map(|x| &x.1).chain(skips.iter()).any(|p| regex::Regex::new(p).is_err()) {
        why.push("malformed expression");
    }
    let make = |l: &[(u16, String)], r: &[(u16, String)], k: &[String]| {
        let l: Vec<(Tg, &str)> = l.iter().map(|x| (Tg(x.0), x.1.as_str())).collect();
        let r: Vec<(Tg, &str)> = r.iter().map(|x| (Tg(x.0), x.1.as_str())).collect();
        let k: Vec<&str> = k.iter().map(|x| x.as_str()).collect();
        sut(|| lexan::LexicalAnalyzer::new(&l, &r, &k, Tg(end)))
    };
    ctx.show(|| format!("literals {lits:?} expressions {res:?} skips {skips:?} end {end}; defects {why:?}"));
    ctx.case((lits.len() + res.len() + skips.len() >= 2).then(|| hash_str(&format!("{lits:?}{res:?}{skips:?}{end}"))));
    for w in &why {
        ctx.class(w);
    }
    if why.is_empty() {
        ctx.class("well-formed");
    }
    for round in 0..3 {
        let (mut l2, mut r2, mut k2) = (lits.clone(), res.clone(), skips.clone());
        if round > 0 {
            s.shuffle(&mut l2);
            s.shuffle(&mut r2);
            s.shuffle(&mut k2);
        }
        match make(&l2, &r2, &k2) {
            Ok(_) if !why.is_empty() => return fail("accepted", format!("accepted in spite of {why:?}: literals {l2:?} expressions {r2:?} skips {k2:?} end {end}")),
            Err(e) if why.is_empty() => return fail("refused", format!("refused although well-formed ({e}): literals {l2:?} expressions {r2:?} skips {k2:?} end {end}")),
            Err(e) if !e.contains("Fatal Error") => return fail("crash", format!("construction crashed: {e}")),
            Err(_) => (),
            Ok(a) => {
                for (t, l) in &l2 {
                    let skipped = k2.iter().any(|k| regex::Regex::new(&format!("^(?:{k})")).unwrap().find(l).is_some_and(|m| m.end() > 0));
                    if skipped {
                        continue;
                    }
                    let first = sut(|| item_of(&a.token_stream(l, "x").front()));
                    match first {
                        Ok(Item::Tok(g, x, _)) if g == *t && x == *l => (),
                        other => return fail("literal-lost", format!("literal {l:?} (t{t}) is read as {other:?}: literals {l2:?} expressions {r2:?} skips {k2:?}")),
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "lists of literals, expressions and skips with and without duplicates (of tags, of patterns, across kinds, against the end marker), empty and malformed patterns; the constructor must accept exactly the well-formed lists in any order, and each literal must be recognised. Non-trivial: at least two patterns; distinct by the lists.",
        assumptions: vec!["the regex crate decides whether a pattern is malformed", "the constructor refuses by panicking with its documented fatal message"],
        suites: vec![suite("construction", 40_000, 1_000_000, c05_case)],
    }
}

/// Several streams of shared analyzers, advanced in turns; each has to give what it gives alone.
pub fn sharing(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let lexes: Vec<Lex> = (0..s.range(1, 2)).map(|_| gen_lex(s, al, 4)).collect();
    let mut texts: Vec<String> = vec![];
    for _ in 0..s.range(2, 5) {
        let t = match s.below(4) {
            // others that share a beginning or have the same length
            0 if !texts.is_empty() => {
                let x: Vec<char> = s.pick(&texts).chars().collect();
                let k = s.below(x.len() + 1);
                x[..k].iter().chain(x[k..].iter().rev()).collect()
            }
            _ => gen_text(s, &lexes[0], al, 7),
        };
        texts.push(t);
    }
    ctx.show(|| lexes.iter().map(|l| show(l, &texts.join("\u{241e}"))).collect::<Vec<_>>().join("\n"));
    let mut real = vec![];
    for l in &lexes {
        real.push(build(l)?);
    }
    let mut wants: Vec<Vec<Vec<Item>>> = vec![];
    for l in &lexes {
        let mut v = vec![];
        for t in &texts {
            let m = model(l, t, "l")?;
            let mut items = m.items.clone();
            items.push(Item::Tok(l.end, String::new(), m.end.clone()));
            v.push(items);
        }
        wants.push(v);
    }
    let norm = |i: &Item| match i {
        Item::Ambig(t, x, l) => {
            let mut t = t.clone();
            t.sort();
            Item::Ambig(t, x.clone(), l.clone())
        }
        other => other.clone(),
    };
    let mut open: Vec<(usize, usize, usize, lexan::TokenStream<Tg>)> = vec![];
    let mut history = String::new();
    let key = |h: &str| mix(&[hash_str(&lexes.iter().map(|l| l.describe()).collect::<String>()), hash_str(&texts.join("\u{241e}")), hash_str(h)]);
    for _ in 0..s.range(2, 16) {
        if open.len() < 3 && (open.is_empty() || s.chance(1, 2)) {
            let (l, t) = (s.below(lexes.len()), s.below(texts.len()));
            match sut(|| real[l].token_stream(&texts[t], "l")) {
                Ok(st) => open.push((l, t, 0, st)),
                Err(e) => return fail("crash", format!("opening a stream crashed: {e}; after {history}")),
            }
            history += &format!("open {t} of {l}; ");
            continue;
        }
        let i = s.below(open.len());
        let n = if s.chance(1, 3) { 1000 } else { s.range(1, 4) };
        history += &format!("read {n} of stream {i}; ");
        let mut done = s.chance(1, 12);
        for _ in 0..n {
            let (l, t, at, st) = &mut open[i];
            let want = &wants[*l][*t];
            let got = match sut(|| item_of(&st.front_advance())) {
                Ok(x) => x,
                Err(e) => return fail("crash", format!("reading crashed: {e}; text {:?}, after {history}", texts[*t])),
            };
            if norm(&got) != norm(&want[*at]) {
                return fail("influence", format!("text {:?} of lexicon {l}, lexeme {at}: expected {} got {got}; after {history}", texts[*t], want[*at]));
            }
            *at += 1;
            if *at == want.len() {
                done = true;
                break;
            }
        }
        if done {
            history += &format!("end {i}; ");
            open.remove(i);
        }
    }
    ctx.case((history.matches("open").count() > 1).then(|| key(&history)));
    Ok(())
}

/// One analyzer read from on several threads.
pub fn sharing_threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let al = alphabet(s);
    let lex = gen_lex(s, al, 4);
    let texts: Vec<String> = (0..s.range(2, 6)).map(|_| gen_text(s, &lex, al, 8)).collect();
    ctx.show(|| show(&lex, &texts.join("\u{241e}")));
    let a = build(&lex)?;
    let mut wants = vec![];
    for t in &texts {
        wants.push(model(&lex, t, "l")?.items);
    }
    let n = s.range(2, 4);
    let orders: Vec<Vec<usize>> = (0..n).map(|_| (0..s.range(5, 30)).map(|_| s.below(texts.len())).collect()).collect();
    let gate = std::sync::Barrier::new(n);
    let bad: Vec<Option<String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (a, lex, texts, wants, gate) = (&a, &lex, &texts, &wants, &gate);
                sc.spawn(move || {
                    gate.wait();
                    for i in o {
                        let sorted = |v: &[Item]| v.iter().map(|i| (i.loc().clone(), i.bare())).collect::<Vec<_>>();
                        match read_all(a, lex.end, &texts[*i], "l", texts[*i].chars().count() + 1) {
                            Ok((got, Some(_))) if sorted(&got) == sorted(&wants[*i]) => {}
                            Ok((got, _)) => return Some(format!("text {:?}: expected {} got {}", texts[*i], show_items(&wants[*i]), show_items(&got))),
                            Err(e) => return Some(format!("text {:?}: {e}", texts[*i])),
                        }
                    }
                    None
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Some("the thread panicked".into()))).collect()
    });
    if let Some(d) = bad.into_iter().flatten().next() {
        return fail("threads", format!("{d}, while {} other threads read", n - 1));
    }
    ctx.class(&format!("{n} threads reading"));
    ctx.case(Some(mix(&[hash_str(&lex.describe()), hash_str(&format!("{texts:?}{orders:?}"))])));
    Ok(())
}

/// Lexemes, gaps, junk and lines of tens of thousands of characters, and hundreds of patterns; what to expect is known by
/// construction.
fn long_case(s: &mut Src, ctx: &mut Ctx) -> R {
    let len = |s: &mut Src| match s.weighted(&[3, 2, 2, 1]) {
        0 => s.range(1, 6),
        1 => s.range(250, 260),
        2 => s.range(1000, 5000),
        _ => *s.pick(&[65_534, 65_535, 65_536, 65_537, 70_001]),
    };
    // literals of capitals: nested prefixes, and others
    let mut lits: Vec<String> = vec![];
    let word: String = {
        let n = s.range(1, 600);
        (0..n).map(|_| *s.pick(&['A', 'B', 'C'])).collect()
    };
    for _ in 0..s.range(1, 4) {
        lits.push(word[..s.range(1, word.len())].to_string());
    }
    lits.push(word);
    if s.chance(1, 2) {
        let n = *s.pick(&[200usize, 256, 300]);
        lits.extend((0..n).map(|i| format!("Z{i}Q")));
    }
    lits.sort();
    lits.dedup();
    let mut res: Vec<String> = vec!["[a-zé]+".into(), "[0-9]".into()];
    if s.chance(1, 4) {
        res.extend((0..*s.pick(&[254usize, 300])).map(|i| format!("<{i}>")));
    }
    let mut skips: Vec<String> = vec!["[ ]+".into(), "\n".into()];
    if s.chance(1, 4) {
        skips.extend((0..300).map(|i| format!("%{i}%")));
    }
    let nl = lits.len();
    let lv: Vec<(Tg, &str)> = lits.iter().enumerate().map(|(i, x)| (Tg(i as u16), x.as_str())).collect();
    let rv: Vec<(Tg, &str)> = res.iter().enumerate().map(|(i, x)| (Tg((nl + i) as u16), x.as_str())).collect();
    let kv: Vec<&str> = skips.iter().map(|x| x.as_str()).collect();
    let end = 60_000u16;
    let a = match sut(|| lexan::LexicalAnalyzer::new(&lv, &rv, &kv, Tg(end))) {
        Ok(a) => a,
        Err(e) => return fail("refused", format!("a well-formed lexicon of {} patterns was refused: {e}", nl + res.len())),
    };
    let mut text = String::new();
    let mut want: Vec<Item> = vec![];
    let mut plan = String::new();
    for _ in 0..s.range(2, 8) {
        // a gap, which always is there
        let n = len(s);
        let k = s.below(skips.len());
        match k {
            0 => text += &" ".repeat(n),
            1 => text += &"\n".repeat(n),
            _ => text += &format!("%{}%", k - 2),
        }
        plan += &format!(" gap {k} of {n};");
        let at = |text: &str| loc_at(text, "l");
        match s.below(6) {
            0 | 1 => {
                let i = s.below(nl);
                want.push(Item::Tok(i as u16, lits[i].clone(), at(&text)));
                text += &lits[i];
                plan += &format!(" literal {i} of {} bytes;", lits[i].len());
            }
            2 | 3 => {
                let n = len(s);
                let c = *s.pick(&["a", "xy", "é"]);
                let w = c.repeat(n);
                want.push(Item::Tok(nl as u16, w.clone(), at(&text)));
                text += &w;
                plan += &format!(" {n} times {c};");
            }
            4 => {
                let n = len(s);
                let w = (*s.pick(&["#", "ü", "🦀"])).repeat(n);
                want.push(Item::Unexp(w.clone(), at(&text)));
                text += &w;
                plan += &format!(" junk, {} bytes;", w.len());
            }
            _ => {
                let i = s.below(res.len());
                let w = match i {
                    0 => "q".to_string(),
                    1 => "7".to_string(),
                    _ => res[i].clone(),
                };
                want.push(Item::Tok((nl + i) as u16, w.clone(), at(&text)));
                text += &w;
                plan += &format!(" a match of {};", res[i]);
            }
        }
    }
    if s.chance(1, 2) {
        let n = len(s);
        text += &"\n".repeat(n);
        plan += &format!(" {n} line feeds");
    }
    ctx.show(|| format!("{nl} literals, {} expressions, {} skips;{plan}", res.len(), skips.len()));
    want.push(Item::Tok(end, String::new(), loc_at(&text, "l")));
    let (mut got, e) = match read_all(&a, end, &text, "l", want.len() + 1) {
        Ok(x) => x,
        Err(e) => return fail("crash", format!("{e};{plan}")),
    };
    got.extend(e);
    let brief = |i: Option<&Item>| match i {
        None => "nothing".to_string(),
        Some(i) => {
            let t = i.to_string();
            format!("{}... ({} bytes) at {:?}", t.chars().take(60).collect::<String>(), t.len(), i.loc())
        }
    };
    if let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
        return fail("long", format!("lexeme {i}: expected {} got {};{plan}", brief(want.get(i)), brief(got.get(i))));
    }
    ctx.case(Some(mix(&[hash_str(&lits.join(" ")), hash_str(&plan)])));
    if text.len() > 65_536 {
        ctx.class("texts of more than 65536 bytes");
    }
    if nl + res.len() > 256 {
        ctx.class("lexicons of more than 256 patterns");
    }
    Ok(())
}
