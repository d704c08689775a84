//! Reference tokeniser and the bridge to the analyzer under test.
use crate::rx::Rx;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tg(pub u16);

impl fmt::Display for Tg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}

#[derive(Clone, Debug)]
pub struct Lex {
    pub lits: Vec<(u16, String)>,
    pub res: Vec<(u16, Rx)>,
    pub skips: Vec<Rx>,
    pub end: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Loc {
    pub label: String,
    pub line: usize,
    pub off: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Tok(u16, String, Loc),
    Unexp(String, Loc),
    Ambig(Vec<u16>, String, Loc),
    Empty(Loc),
}

impl Item {
    pub fn loc(&self) -> &Loc {
        match self {
            Item::Tok(_, _, l) | Item::Unexp(_, l) | Item::Ambig(_, _, l) | Item::Empty(l) => l,
        }
    }
    /// Everything but the location.
    pub fn bare(&self) -> Item {
        let l = Loc { label: String::new(), line: 0, off: 0 };
        match self {
            Item::Tok(t, x, _) => Item::Tok(*t, x.clone(), l),
            Item::Unexp(x, _) => Item::Unexp(x.clone(), l),
            Item::Ambig(t, x, _) => {
                let mut t = t.clone();
                t.sort();
                Item::Ambig(t, x.clone(), l)
            }
            Item::Empty(_) => Item::Empty(l),
        }
    }
}

impl fmt::Display for Item {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Item::Tok(t, x, l) => write!(f, "t{t}({x:?})@{}:{}:{}", l.label, l.line, l.off),
            Item::Unexp(x, l) => write!(f, "junk({x:?})@{}:{}:{}", l.label, l.line, l.off),
            Item::Ambig(t, x, l) => write!(f, "ambiguous{t:?}({x:?})@{}:{}:{}", l.label, l.line, l.off),
            Item::Empty(l) => write!(f, "past-end@{}:{}:{}", l.label, l.line, l.off),
        }
    }
}

pub fn show_items(v: &[Item]) -> String {
    v.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")
}

/// The position just after `before`: lines end at line feeds, offsets count bytes.
pub fn loc_at(before: &str, label: &str) -> Loc {
    let line = 1 + before.bytes().filter(|b| *b == b'\n').count();
    let off = 1 + before.bytes().rev().take_while(|b| *b != b'\n').count();
    Loc { label: label.to_string(), line, off }
}

#[derive(Clone, Debug)]
pub struct Lexed {
    pub items: Vec<Item>, // without the end marker
    pub spans: Vec<(usize, usize)>, // byte spans
    pub end: Loc,
}

impl Lex {
    /// Length in chars of a non-empty preferred match.
    fn hit(rx: &Rx, t: &[char]) -> Result<Option<usize>, ()> {
        Ok(rx.prefix(t)?.filter(|n| *n > 0))
    }
    fn skip(&self, t: &[char], mut i: usize) -> Result<usize, ()> {
        'o: loop {
            for r in &self.skips {
                if let Some(n) = Self::hit(r, &t[i..])? {
                    i += n;
                    continue 'o;
                }
            }
            return Ok(i);
        }
    }
    fn lit_at(&self, t: &[char], i: usize) -> Option<(u16, usize)> {
        let mut best: Option<(u16, usize)> = None;
        for (tag, l) in &self.lits {
            let lc: Vec<char> = l.chars().collect();
            if t[i..].starts_with(&lc) && best.is_none_or(|b| b.1 < lc.len()) {
                best = Some((*tag, lc.len()));
            }
        }
        best
    }
    pub fn run(&self, text: &str, label: &str) -> Result<Lexed, ()> {
        let t: Vec<char> = text.chars().collect();
        let s = |a: usize, b: usize| -> String { t[a..b].iter().collect() };
        let mut out = vec![];
        let mut spans = vec![];
        let mut i = 0;
        loop {
            i = self.skip(&t, i)?;
            if i >= t.len() {
                return Ok(Lexed { items: out, spans, end: loc_at(text, label) });
            }
            let before = s(0, i);
            let loc = loc_at(&before, label);
            let lit = self.lit_at(&t, i);
            let mut best = 0;
            let mut tags = vec![];
            for (tag, r) in &self.res {
                if let Some(n) = Self::hit(r, &t[i..])? {
                    if n > best {
                        best = n;
                        tags = vec![*tag];
                    } else if n == best {
                        tags.push(*tag);
                    }
                }
            }
            // compare lengths in bytes; the same text prefix, so chars order alike
            let (item, n) = match lit {
                Some((tag, n)) if n >= best => (Item::Tok(tag, s(i, i + n), loc), n),
                _ if tags.len() == 1 => (Item::Tok(tags[0], s(i, i + best), loc), best),
                _ if tags.len() > 1 => (Item::Ambig(tags, s(i, i + best), loc), best),
                _ => {
                    let mut j = i + 1;
                    while j < t.len() {
                        let mut ok = self.lit_at(&t, j).is_some();
                        for r in self.res.iter().map(|x| &x.1).chain(self.skips.iter()) {
                            ok = ok || Self::hit(r, &t[j..])?.is_some();
                        }
                        if ok {
                            break;
                        }
                        j += 1;
                    }
                    (Item::Unexp(s(i, j), loc), j - i)
                }
            };
            let e = before.len() + s(i, i + n).len();
            spans.push((before.len(), e));
            out.push(item);
            i += n;
        }
    }
    pub fn describe(&self) -> String {
        let mut o = String::new();
        for (t, l) in &self.lits {
            o += &format!("t{t}={l:?} ");
        }
        for (t, r) in &self.res {
            o += &format!("t{t}=/{}/ ", r.render().escape_debug());
        }
        for r in &self.skips {
            o += &format!("skip=/{}/ ", r.render().escape_debug());
        }
        o + &format!("end=t{}", self.end)
    }
    /// Builds the analyzer under test (panics as the constructor does).
    pub fn real(&self) -> lexan::LexicalAnalyzer<Tg> {
        let pats: Vec<(Tg, String)> = self.res.iter().map(|(t, r)| (Tg(*t), r.render())).collect();
        let skips: Vec<String> = self.skips.iter().map(|r| r.render()).collect();
        let l: Vec<(Tg, &str)> = self.lits.iter().map(|(t, s)| (Tg(*t), s.as_str())).collect();
        let r: Vec<(Tg, &str)> = pats.iter().map(|(t, s)| (*t, s.as_str())).collect();
        let k: Vec<&str> = skips.iter().map(|s| s.as_str()).collect();
        lexan::LexicalAnalyzer::new(&l, &r, &k, Tg(self.end))
    }
}

pub fn loc_of(l: &lexan::Location) -> Loc {
    Loc { label: l.label().clone(), line: l.line_number(), off: l.offset() }
}

pub fn item_of(r: &Result<lexan::Token<Tg>, lexan::Error<Tg>>) -> Item {
    if let Err(e) = r {
        let is = (matches!(e, lexan::Error::UnexpectedText(..)), matches!(e, lexan::Error::AmbiguousMatches(..)), matches!(e, lexan::Error::AdvancedWhenEmpty(..)));
        assert_eq!((e.is_unexpected_text(), e.is_ambiguous_match(), e.is_advance_when_empty()), is, "kind of {e:?}");
    }
    match r {
        Ok(t) => Item::Tok(t.tag().0, t.lexeme().clone(), loc_of(t.location())),
        Err(lexan::Error::UnexpectedText(s, l)) => Item::Unexp(s.clone(), loc_of(l)),
        Err(lexan::Error::AmbiguousMatches(v, s, l)) => Item::Ambig(v.0.iter().map(|t| t.0).collect(), s.clone(), loc_of(l)),
        Err(lexan::Error::AdvancedWhenEmpty(l)) => Item::Empty(loc_of(l)),
    }
}
