//! Runtime that generated parsers are compiled against: attributes are
//! strings describing how they came about, and everything is traced.
use std::cell::RefCell;
use std::fmt::{Debug, Display};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Attr(pub String);

impl<T: Copy + Ord + Debug + Display> From<lexan::Token<T>> for Attr {
    fn from(t: lexan::Token<T>) -> Self {
        Attr(cap(t.to_string()))
    }
}
impl<T: Copy + Ord + Debug + Display> From<lalr1::Error<T>> for Attr {
    fn from(e: lalr1::Error<T>) -> Self {
        Attr(cap(format!("<{e}>")))
    }
}
impl<T: Copy + Ord + Debug + Display> From<alalr1::Error<T>> for Attr {
    fn from(e: alalr1::Error<T>) -> Self {
        Attr(cap(format!("<{e}>")))
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^= h >> 31;
    h.wrapping_mul(0x94D0_49BB_1331_11EB) ^ (h >> 17)
}

/// Long descriptions are abbreviated, keeping them distinguishable.
pub fn cap(s: String) -> String {
    if s.len() <= 240 {
        return s;
    }
    let head: String = s.chars().take(60).collect();
    format!("{head}~{:016x}", hash(&s))
}

pub fn node(k: u32, attrs: &[Attr]) -> Attr {
    let mut s = format!("({k}");
    for a in attrs {
        s.push(' ');
        s.push_str(&a.0);
    }
    s.push(')');
    Attr(cap(s))
}

#[derive(Default)]
pub struct Log {
    pub events: Vec<String>,
    pub reductions: usize,
    /// Events beyond the usual limit that are allowed.
    pub more: usize,
    /// Texts to inject by the action of the n-th reduction.
    pub plan: Vec<(usize, Vec<(String, String)>)>,
}

thread_local! {
    pub static LOG: RefCell<Log> = RefCell::new(Log::default());
}

pub const LIMIT: usize = 4000;

pub fn event(s: String) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.events.push(s);
        if l.events.len() > LIMIT + l.more {
            drop(l);
            panic!("step limit");
        }
    })
}

/// The semantic action of production `k`.
pub fn red(k: u32, attrs: Vec<Attr>) -> Attr {
    let a = node(k, &attrs);
    LOG.with(|l| l.borrow_mut().reductions += 1);
    event(format!("R {}", a.0));
    a
}

/// What the action that ran last should inject.
pub fn inj() -> Vec<(String, String)> {
    LOG.with(|l| {
        let l = l.borrow();
        l.plan.iter().filter(|p| p.0 == l.reductions).flat_map(|p| p.1.clone()).collect()
    })
}

pub fn pred_value(k: u32, args: &[&str], tag: &str) -> bool {
    match k % 5 {
        0 => true,
        1 => false,
        _ => hash(&format!("{k}|{}|{tag}", args.join("|"))) & 4 == 4,
    }
}

pub fn pred(k: u32, args: &[&Attr], tag: impl Display) -> bool {
    let v: Vec<&str> = args.iter().map(|a| a.0.as_str()).collect();
    pred_value(k, &v, &tag.to_string())
}

#[derive(Default, Debug, Clone)]
pub struct Target;

impl<T: Ord + Copy + Debug + Display + Eq> lalr1::ReportError<T> for Target {
    fn report_error(&mut self, e: &lalr1::Error<T>) {
        event(format!("E {e}"));
    }
}
impl<T: Ord + Copy + Debug + Display + Eq> alalr1::ReportError<T> for Target {
    fn report_error(&mut self, e: &alalr1::Error<T>) {
        event(format!("E {e}"));
    }
}

pub fn start(plan: Vec<(usize, Vec<(String, String)>)>) {
    LOG.with(|l| *l.borrow_mut() = Log { plan, ..Log::default() });
}

/// Allows so many events in all from here on.
pub fn allow(n: usize) {
    LOG.with(|l| l.borrow_mut().more = n.saturating_sub(LIMIT));
}

pub fn finish() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut l.borrow_mut().events))
}

pub fn result<E: Display>(r: &Result<(), E>) {
    match r {
        Ok(()) => event("OK".into()),
        Err(e) => event(format!("FAIL {e}")),
    }
}
