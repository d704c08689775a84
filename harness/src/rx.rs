//! A small regular-expression language with its own (naive, backtracking,
//! leftmost-first) matcher, used as the oracle for pattern matching.
use crate::tape::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Rx {
    Ch(char),
    Class(bool, Vec<(char, char)>),
    Dot,
    Perl(char),
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep(Box<Rx>, usize, Option<usize>, bool),
    Group(Box<Rx>),
    End,
    Start,
    /// Word boundary, or none.
    Bound(bool),
    /// Start and end of a line.
    LStart,
    LEnd,
    /// Flag letter, what is written, what it means.
    Flag(char, Box<Rx>, Box<Rx>),
}

fn esc(c: char, out: &mut String) {
    match c {
        '\n' => out.push_str("\\n"),
        '\r' => out.push_str("\\r"),
        '\t' => out.push_str("\\t"),
        c if "\\.+*?()|[]{}^$#&-~/".contains(c) => {
            out.push('\\');
            out.push(c);
        }
        c => out.push(c),
    }
}

impl Rx {
    pub fn lit(s: &str) -> Rx {
        Rx::Cat(s.chars().map(Rx::Ch).collect())
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.r(&mut s, 0);
        s
    }
    // level: 0 alternation allowed, 1 concatenation allowed, 2 atom only
    fn r(&self, o: &mut String, level: usize) {
        match self {
            Rx::Ch(c) => esc(*c, o),
            Rx::Class(neg, items) => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                for (a, b) in items {
                    esc(*a, o);
                    if a != b {
                        o.push('-');
                        esc(*b, o);
                    }
                }
                o.push(']');
            }
            Rx::Dot => o.push('.'),
            Rx::Perl(c) => {
                o.push('\\');
                o.push(*c);
            }
            Rx::Cat(v) => {
                if level > 1 || v.is_empty() {
                    o.push_str("(?:");
                }
                for x in v {
                    x.r(o, 2 - (!matches!(x, Rx::Alt(_) | Rx::Cat(_)) as usize));
                }
                if level > 1 || v.is_empty() {
                    o.push(')');
                }
            }
            Rx::Alt(v) => {
                if level > 0 {
                    o.push_str("(?:");
                }
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    x.r(o, 1);
                }
                if level > 0 {
                    o.push(')');
                }
            }
            Rx::Rep(x, lo, hi, lazy) => {
                let atom = matches!(**x, Rx::Ch(_) | Rx::Class(..) | Rx::Dot | Rx::Perl(_) | Rx::Group(_));
                if atom {
                    x.r(o, 2);
                } else {
                    o.push_str("(?:");
                    x.r(o, 0);
                    o.push(')');
                }
                match (lo, hi) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (a, Some(b)) if a == b => o.push_str(&format!("{{{a}}}")),
                    (a, Some(b)) => o.push_str(&format!("{{{a},{b}}}")),
                    (a, None) => o.push_str(&format!("{{{a},}}")),
                }
                if *lazy {
                    o.push('?');
                }
            }
            Rx::Group(x) => {
                o.push('(');
                x.r(o, 0);
                o.push(')');
            }
            Rx::End | Rx::LEnd => o.push('$'),
            Rx::Start | Rx::LStart => o.push('^'),
            Rx::Bound(b) => o.push_str(if *b { "\\b" } else { "\\B" }),
            Rx::Flag(f, x, _) => {
                // the flag holds to the end of the expression, or of the group
                if level == 0 {
                    o.push_str(&format!("(?{f})"));
                    x.r(o, 0);
                } else {
                    o.push_str(&format!("(?{f}:"));
                    x.r(o, 0);
                    o.push(')');
                }
            }
        }
    }
    pub fn nullable(&self) -> bool {
        match self {
            Rx::Ch(_) | Rx::Class(..) | Rx::Dot | Rx::Perl(_) => false,
            Rx::Cat(v) => v.iter().all(|x| x.nullable()),
            Rx::Alt(v) => v.iter().any(|x| x.nullable()),
            Rx::Rep(x, lo, _, _) => *lo == 0 || x.nullable(),
            Rx::Group(x) => x.nullable(),
            Rx::End | Rx::Start | Rx::Bound(_) | Rx::LStart | Rx::LEnd => true,
            Rx::Flag(_, x, _) => x.nullable(),
        }
    }
    /// The meaning of an expression under a flag.
    fn under(&self, f: char) -> Rx {
        let u = |v: &[Rx]| v.iter().map(|x| x.under(f)).collect::<Vec<_>>();
        match self {
            Rx::Ch(c) if f == 'i' => {
                let mut v = vec![(*c, *c)];
                for d in c.to_uppercase().chain(c.to_lowercase()) {
                    v.push((d, d));
                }
                Rx::Class(false, v)
            }
            Rx::Class(n, it) if f == 'i' => {
                let mut v = it.clone();
                for (a, b) in it {
                    for c in *a..=*b {
                        for d in c.to_uppercase().chain(c.to_lowercase()) {
                            v.push((d, d));
                        }
                    }
                }
                Rx::Class(*n, v)
            }
            Rx::Dot if f == 's' => Rx::Class(true, vec![]),
            Rx::Start if f == 'm' => Rx::LStart,
            Rx::End if f == 'm' => Rx::LEnd,
            Rx::Cat(v) => Rx::Cat(u(v)),
            Rx::Alt(v) => Rx::Alt(u(v)),
            Rx::Rep(x, a, b, lazy) => Rx::Rep(Box::new(x.under(f)), *a, *b, *lazy ^ (f == 'U')),
            Rx::Group(x) => Rx::Group(Box::new(x.under(f))),
            Rx::Flag(_, _, y) => y.under(f),
            x => x.clone(),
        }
    }
    fn flagged(&self) -> bool {
        match self {
            Rx::Cat(v) | Rx::Alt(v) => v.iter().any(|x| x.flagged()),
            Rx::Rep(x, ..) | Rx::Group(x) => x.flagged(),
            Rx::Flag(..) => true,
            _ => false,
        }
    }
    fn word(t: &[char], i: usize) -> bool {
        i < t.len() && Self::perl_has('w', t[i])
    }
    fn class_has(neg: bool, items: &[(char, char)], c: char) -> bool {
        items.iter().any(|(a, b)| *a <= c && c <= *b) != neg
    }
    fn perl_has(k: char, c: char) -> bool {
        match k {
            'd' => c.is_ascii_digit(),
            'w' => c.is_alphanumeric() || c == '_' || c == '\u{301}',
            's' => c.is_whitespace(),
            'S' => !c.is_whitespace(),
            _ => unreachable!(),
        }
    }
    /// Calls `k` with every end position in preference order until it accepts.
    fn m(&self, t: &[char], i: usize, fuel: &mut u32, k: &mut dyn FnMut(usize, &mut u32) -> bool) -> bool {
        if *fuel == 0 {
            return false;
        }
        *fuel -= 1;
        match self {
            Rx::Ch(c) => i < t.len() && t[i] == *c && k(i + 1, fuel),
            Rx::Class(n, it) => i < t.len() && Self::class_has(*n, it, t[i]) && k(i + 1, fuel),
            Rx::Dot => i < t.len() && t[i] != '\n' && k(i + 1, fuel),
            Rx::Perl(p) => i < t.len() && Self::perl_has(*p, t[i]) && k(i + 1, fuel),
            Rx::Group(x) => x.m(t, i, fuel, k),
            Rx::End => i == t.len() && k(i, fuel),
            Rx::Start => i == 0 && k(i, fuel),
            Rx::LEnd => (i == t.len() || t[i] == '\n') && k(i, fuel),
            Rx::LStart => (i == 0 || t[i - 1] == '\n') && k(i, fuel),
            Rx::Bound(b) => ((i > 0 && Self::word(t, i - 1)) != Self::word(t, i)) == *b && k(i, fuel),
            Rx::Flag(_, _, y) => y.m(t, i, fuel, k),
            Rx::Cat(v) => Self::cat(v, t, i, fuel, k),
            Rx::Alt(v) => {
                for x in v {
                    if x.m(t, i, fuel, k) {
                        return true;
                    }
                }
                false
            }
            Rx::Rep(x, lo, hi, lazy) => Self::rep(x, *lo, *hi, *lazy, t, i, fuel, k),
        }
    }
    fn cat(v: &[Rx], t: &[char], i: usize, fuel: &mut u32, k: &mut dyn FnMut(usize, &mut u32) -> bool) -> bool {
        match v.split_first() {
            None => k(i, fuel),
            Some((x, rest)) => x.m(t, i, fuel, &mut |j, f| Self::cat(rest, t, j, f, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(x: &Rx, lo: usize, hi: Option<usize>, lazy: bool, t: &[char], i: usize, fuel: &mut u32, k: &mut dyn FnMut(usize, &mut u32) -> bool) -> bool {
        if *fuel == 0 {
            return false;
        }
        let more_ok = hi != Some(0);
        let hi1 = hi.map(|h| h.saturating_sub(1));
        if lo > 0 {
            return x.m(t, i, fuel, &mut |j, f| Self::rep(x, lo - 1, hi1, lazy, t, j, f, k));
        }
        if lazy && k(i, fuel) {
            return true;
        }
        if more_ok && x.m(t, i, fuel, &mut |j, f| j > i && Self::rep(x, 0, hi1, lazy, t, j, f, k)) {
            return true;
        }
        !lazy && k(i, fuel)
    }
    /// Length (in chars) of the preferred match at the start; None = no match.
    /// Err if the search was too long to decide.
    pub fn prefix(&self, t: &[char]) -> Result<Option<usize>, ()> {
        let mut fuel = 20_000;
        let mut end = None;
        self.m(t, 0, &mut fuel, &mut |j, _| {
            end = Some(j);
            true
        });
        if fuel == 0 { Err(()) } else { Ok(end) }
    }
    /// Some text in the language (approximately; `End` is ignored).
    pub fn sample(&self, s: &mut Src, o: &mut String, alphabet: &[char]) {
        match self {
            Rx::Ch(c) => o.push(*c),
            Rx::Class(neg, items) => {
                let cs: Vec<char> = alphabet.iter().copied().filter(|c| Self::class_has(*neg, items, *c)).collect();
                if !cs.is_empty() {
                    o.push(*s.pick(&cs));
                }
            }
            Rx::Dot => {
                let cs: Vec<char> = alphabet.iter().copied().filter(|c| *c != '\n').collect();
                o.push(*s.pick(&cs));
            }
            Rx::Perl(p) => {
                let cs: Vec<char> = alphabet.iter().copied().filter(|c| Self::perl_has(*p, *c)).collect();
                if !cs.is_empty() {
                    o.push(*s.pick(&cs));
                }
            }
            Rx::Cat(v) => v.iter().for_each(|x| x.sample(s, o, alphabet)),
            Rx::Alt(v) => s.pick(v).sample(s, o, alphabet),
            Rx::Rep(x, lo, hi, _) => {
                let top = hi.unwrap_or(lo + 2).min(lo + 2);
                for _ in 0..s.range(*lo, top) {
                    x.sample(s, o, alphabet);
                }
            }
            Rx::Group(x) => x.sample(s, o, alphabet),
            Rx::End | Rx::Start | Rx::Bound(_) | Rx::LStart | Rx::LEnd => (),
            Rx::Flag(_, _, y) => y.sample(s, o, alphabet),
        }
    }
}

/// Generates an expression over `alphabet`; loops never have nullable bodies.
pub fn gen_rx(s: &mut Src, alphabet: &[char], depth: usize) -> Rx {
    let k = if depth == 0 { s.below(4) } else { s.weighted(&[8, 4, 2, 2, 12, 8, 10, 4, 2, 1, 1, 2]) };
    match k {
        0 => Rx::Ch(*s.pick(alphabet)),
        1 => {
            let n = s.range(1, 2);
            let mut items: Vec<(char, char)> = (0..n)
                .map(|_| {
                    let a = *s.pick(alphabet);
                    if a.is_ascii_lowercase() && s.chance(1, 3) { (a, 'c') } else { (a, a) }
                })
                .collect();
            items.iter_mut().for_each(|x| {
                if x.0 > x.1 {
                    x.1 = x.0
                }
            });
            Rx::Class(s.chance(1, 4), items)
        }
        2 => Rx::Perl(*s.pick(&['d', 'w', 's', 'S'])),
        3 => Rx::Dot,
        4 => {
            let n = s.range(2, 3);
            Rx::Cat((0..n).map(|_| gen_rx(s, alphabet, depth - 1)).collect())
        }
        5 => {
            let n = s.range(2, 3);
            Rx::Alt((0..n).map(|_| gen_rx(s, alphabet, depth - 1)).collect())
        }
        6 => {
            let x = gen_rx(s, alphabet, depth - 1);
            let x = if x.nullable() { Rx::Cat(vec![Rx::Ch(*s.pick(alphabet)), x]) } else { x };
            let lazy = s.chance(1, 4);
            match s.below(5) {
                0 => Rx::Rep(Box::new(x), 1, None, lazy),
                1 => Rx::Rep(Box::new(x), 0, None, lazy),
                2 => Rx::Rep(Box::new(x), 0, Some(1), lazy),
                3 => Rx::Rep(Box::new(x), 2, Some(2), false),
                _ => Rx::Rep(Box::new(x), 1, Some(3), lazy),
            }
        }
        7 => Rx::Group(Box::new(gen_rx(s, alphabet, depth - 1))),
        8 => Rx::Cat(vec![gen_rx(s, alphabet, depth - 1), Rx::End]),
        9 => Rx::Cat(vec![Rx::Start, gen_rx(s, alphabet, depth - 1)]),
        10 => {
            let b = Rx::Bound(s.chance(2, 3));
            let mut v = vec![gen_rx(s, alphabet, depth - 1)];
            if s.chance(1, 2) {
                v.push(gen_rx(s, alphabet, depth - 1));
            }
            let at = s.below(v.len() + 1);
            v.insert(at, b);
            Rx::Cat(v)
        }
        _ => {
            let x = gen_rx(s, alphabet, depth - 1);
            // (swapping greediness twice is no use as a model)
            let f = if x.flagged() { 'i' } else { *s.pick(&['i', 's', 'm', 'U']) };
            let y = x.under(f);
            Rx::Flag(f, Box::new(x), Box::new(y))
        }
    }
}
