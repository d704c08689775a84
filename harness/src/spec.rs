//! Specification texts: a grammar written out as pieces, laid out and rendered.
use crate::gram::{Assoc, Gram, PrecRef, Sym};
use crate::tape::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Word,
    Punct,
    /// A regular expression: must be the last thing with a bracket on its line.
    Regex,
    Code,
}

/// Where an include directive may stand (before the piece).
#[derive(Clone, Debug, PartialEq)]
pub struct Piece {
    pub text: String,
    pub kind: K,
    /// An include directive is allowed before this piece.
    pub inj: bool,
    /// Start of a new line in the plain layout.
    pub nl: bool,
    /// What the piece is: "token-name 3", "rhs 2 1", "lhs 4", ...
    pub role: String,
}

/// The ways of writing a grammar that must not matter, plus what the actions do.
#[derive(Clone, Debug)]
pub struct Style {
    pub preamble: Option<String>,
    pub attr: String,
    pub target: String,
    pub target_first: bool,
    /// Write the conflict counts even when they are zero; reduce/reduce first.
    pub counts: bool,
    pub rr_first: bool,
    pub tok_order: Vec<usize>,
    pub skip_order: Vec<usize>,
    /// Draws deciding literal or name for every reference.
    pub refs: Vec<bool>,
    /// Draws deciding whether a production joins the previous one's group.
    pub join: Vec<bool>,
    /// Production numbers without action.
    pub bare: Vec<usize>,
    /// The semantic action of production k with n symbols.
    pub action: fn(usize, usize) -> String,
    pub pred: fn(u32, usize) -> String,
}

pub fn marker(k: usize, n: usize) -> String {
    let args: Vec<String> = (1..=n).map(|i| format!("${i}.clone()")).collect();
    format!("!{{ $$ = vrt::red({k}, vec![{}]); for (t, l) in vrt::inj() {{ $INJECT(t, l); }} !}}", args.join(", "))
}

pub fn predicate(k: u32, n: usize) -> String {
    let args: Vec<String> = (1..=n).map(|i| format!("${i}")).collect();
    let (before, after) = [("", ""), ("", " // settled ( here "), ("\n // several\n // lines {\n", "\n"), ("/* ?: */", "/* } */"), ("\"\n  a\n \n\".len() == 7 &&", "")][k as usize % 5];
    format!("?({before} vrt::pred({k}, &[{}], $? ){after} ?)", args.join(", "))
}

impl Style {
    pub fn plain(g: &Gram) -> Style {
        Style {
            preamble: None,
            attr: "VAttr".into(),
            target: "VTarget".into(),
            target_first: false,
            counts: false,
            rr_first: false,
            tok_order: (0..g.toks.len()).collect(),
            skip_order: (0..g.skips.len()).collect(),
            refs: vec![true],
            join: vec![true],
            bare: vec![],
            action: marker,
            pred: predicate,
        }
        .standard()
    }
    fn standard(mut self) -> Style {
        self.preamble = Some(" pub use vrt::{Attr as VAttr, Target as VTarget}; ".into());
        self
    }
    pub fn random(s: &mut Src, g: &Gram) -> Style {
        let mut st = Style::plain(g);
        st.target_first = s.chance(1, 2);
        st.counts = s.chance(1, 3);
        st.rr_first = s.chance(1, 2);
        if s.chance(1, 2) {
            s.shuffle(&mut st.tok_order[..]);
        }
        if s.chance(1, 2) {
            s.shuffle(&mut st.skip_order[..]);
        }
        st.refs = (0..s.range(1, 7)).map(|_| s.chance(1, 2)).collect();
        st.join = (0..s.range(1, 5)).map(|_| s.chance(1, 2)).collect();
        st
    }
}

fn p(text: impl Into<String>, kind: K, role: impl Into<String>) -> Piece {
    Piece { text: text.into(), kind, inj: false, nl: false, role: role.into() }
}

struct B {
    v: Vec<Piece>,
    inj: bool,
    nl: bool,
    refs: Vec<bool>,
    nref: usize,
}

impl B {
    fn add(&mut self, text: impl Into<String>, kind: K, role: impl Into<String>) {
        let mut q = p(text, kind, role);
        q.inj = std::mem::take(&mut self.inj);
        q.nl = std::mem::take(&mut self.nl);
        self.v.push(q);
    }
    fn line(&mut self) {
        self.nl = true;
    }
    fn tok(&mut self, g: &Gram, t: usize, role: String) {
        let as_lit = self.refs[self.nref % self.refs.len()];
        self.nref += 1;
        if g.toks[t].lit && as_lit {
            self.add(format!("\"{}\"", g.toks[t].text), K::Punct, role);
        } else {
            self.add(g.toks[t].name.clone(), K::Word, role);
        }
    }
    fn pref(&mut self, g: &Gram, r: PrecRef, role: String) {
        match r {
            PrecRef::Tag(k) => self.add(g.tags[k].clone(), K::Word, role),
            PrecRef::Tok(t) => self.tok(g, t, role),
        }
    }
}

/// The specification as a list of pieces. Predicates are written only for the augmented generator.
pub fn pieces(g: &Gram, st: &Style, aug: bool) -> Vec<Piece> {
    let mut b = B { v: vec![], inj: false, nl: false, refs: st.refs.clone(), nref: 0 };
    if let Some(c) = &st.preamble {
        b.inj = true;
        b.add(format!("%{{{c}%}}"), K::Code, "preamble");
        b.inj = true;
    }
    for i in 0..2 {
        b.line();
        if (i == 0) == st.target_first {
            b.add("%target", K::Word, "target-kw");
            b.add(st.target.clone(), K::Word, "target");
        } else {
            b.add("%attr", K::Word, "attr-kw");
            b.add(st.attr.clone(), K::Word, "attr");
        }
        b.inj = true;
    }
    let mut c = vec![];
    if g.sr > 0 || st.counts {
        c.push(("%shift_reduce", g.sr, "sr"));
    }
    if g.rr > 0 || (st.counts && st.rr_first) {
        c.push(("%reduce_reduce", g.rr, "rr"));
    }
    if st.rr_first {
        c.reverse();
    }
    for (kw, n, role) in c {
        b.line();
        b.add(kw, K::Word, format!("{role}-kw"));
        b.add(n.to_string(), K::Word, role);
        b.inj = true;
    }
    if b.v.iter().filter(|q| q.role == "sr" || q.role == "rr").count() == 1 {
        // taken for the place between two counts
        b.inj = false;
    }
    b.line();
    b.add("%%", K::Word, "section 1");
    for t in &st.tok_order {
        b.inj = true;
        b.line();
        b.add("%token", K::Word, format!("token-kw {t}"));
        b.add(g.toks[*t].name.clone(), K::Word, format!("token-name {t}"));
        if g.toks[*t].lit {
            b.add(format!("\"{}\"", g.toks[*t].text), K::Punct, format!("token-text {t}"));
        } else {
            b.add(g.toks[*t].text.clone(), K::Regex, format!("token-text {t}"));
        }
    }
    for k in &st.skip_order {
        b.inj = true;
        b.line();
        b.add("%skip", K::Word, format!("skip-kw {k}"));
        b.add(g.skips[*k].clone(), K::Regex, format!("skip {k}"));
    }
    for (i, (a, v)) in g.levels.iter().enumerate() {
        b.inj = true;
        b.line();
        let kw = match a {
            Assoc::Left => "%left",
            Assoc::Right => "%right",
            Assoc::Non => "%nonassoc",
        };
        b.add(kw, K::Word, format!("prec-kw {i}"));
        for (j, r) in v.iter().enumerate() {
            b.pref(g, *r, format!("prec {i} {j}"));
        }
    }
    b.inj = true;
    b.line();
    b.add("%%", K::Word, "section 2");
    let mut open = false;
    for (i, q) in g.prods.iter().enumerate() {
        let join = open && g.prods[i - 1].lhs == q.lhs && st.join[i % st.join.len()];
        b.line();
        if join {
            b.add("|", K::Punct, format!("bar {i}"));
        } else {
            if open {
                b.add(".", K::Punct, format!("dot {i}"));
                b.line();
            }
            b.inj = true;
            b.add(g.nts[q.lhs].clone(), K::Word, format!("lhs {i}"));
            b.add(":", K::Punct, format!("colon {i}"));
        }
        open = true;
        for (j, x) in q.rhs.iter().enumerate() {
            let role = format!("rhs {i} {j}");
            match x {
                Sym::T(t) => b.tok(g, *t, role),
                Sym::N(n) => b.add(g.nts[*n].clone(), K::Word, role),
                Sym::Err => b.add("%error", K::Word, role),
            }
        }
        if aug && let Some(k) = q.pred {
            b.add((st.pred)(k, q.rhs.len()), K::Code, format!("pred {i}"));
        }
        if let Some(r) = q.prec {
            b.add("%prec", K::Word, format!("prodprec-kw {i}"));
            b.pref(g, r, format!("prodprec {i}"));
        }
        if !st.bare.contains(&i) {
            b.add((st.action)(i, q.rhs.len()), K::Code, format!("action {i}"));
        }
    }
    b.add(".", K::Punct, "dot last");
    b.v
}

/// Line and offset of every piece, as the specification parser counts them.
#[derive(Clone, Debug, Default)]
pub struct Laid {
    pub text: String,
    pub at: Vec<(usize, usize)>,
}

const COMMENTS: [&str; 7] = [" // plain comment\n", "/* c */", " /* two\nlines **/ ", "// \"quote %token : . | %% /* \n", "/* // \" %} !} ?) ( : . */", "/**/", " //\r\n"];

/// `draws` choose the separators; an empty list gives the plain layout.
pub fn lay(ps: &[Piece], draws: &[usize]) -> Laid {
    let mut l = Laid::default();
    let mut bytes_before = 0;
    for (i, q) in ps.iter().enumerate() {
        let prev = if i == 0 { None } else { Some(&ps[i - 1]) };
        let sep: String = if draws.is_empty() {
            match prev {
                None => "".into(),
                Some(a) if q.nl || a.kind == K::Regex => "\n".into(),
                Some(_) => " ".into(),
            }
        } else {
            let mut o = String::new();
            let d = draws[i % draws.len()] + i / draws.len();
            if prev.is_some_and(|a| a.kind == K::Regex) {
                o += ["\n", "\r\n", " \t\n\n", " // no bracket\n"][d % 4];
            }
            let tight = prev.is_none_or(|a| a.kind != K::Word || q.kind != K::Word);
            o += match d % 23 {
                0..=6 => " ",
                7..=9 => "\n",
                10 => "\t",
                11 => "\r\n",
                12 => "  \n\n ",
                13 | 14 => "",
                k => COMMENTS[k % 7],
            };
            if o.is_empty() && !tight {
                o.push(' ');
            }
            o
        };
        l.text += &sep;
        // location of the piece
        let t = &l.text;
        let line = 1 + t.bytes().filter(|b| *b == b'\n').count();
        let off = t.len() - t.rfind('\n').map_or(0, |x| x + 1) + 1;
        l.at.push((line, off));
        let _ = bytes_before;
        l.text += &q.text;
        bytes_before = l.text.len();
    }
    l.text.push('\n');
    l
}

pub fn draws(s: &mut Src) -> Vec<usize> {
    let n = s.range(3, 17);
    (0..n).map(|_| s.below(23 * 4)).collect()
}

/// Everything at once, plainly laid out.
pub fn text(g: &Gram, aug: bool) -> String {
    lay(&pieces(g, &Style::plain(g), aug), &[]).text
}
