//! Table-driven implementations of the two parser traits: the real drivers
//! of the crates under test run on any table.
use crate::sim::{Act, Tab};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;
use std::sync::Arc;
use vrt::Attr;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tag {
    rank: u16,
    pub id: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Nt(pub u16);

thread_local! {
    static TAB: RefCell<Rc<Tab>> = RefCell::new(Rc::new(Tab::default()));
    static RANK: RefCell<Rc<Vec<usize>>> = RefCell::new(Rc::new(vec![]));
    static FUEL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        TAB.with(|t| f.write_str(&t.borrow().names[self.id as usize]))
    }
}
impl fmt::Display for Nt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "N{}", self.0)
    }
}

/// The entries of a lexical analyzer by tag number.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LexSpec {
    pub lits: Vec<(usize, String)>,
    pub res: Vec<(usize, String)>,
    pub skips: Vec<String>,
    pub end: usize,
}

/// With DEFAULT, errors are left to the reporters of the crates.
#[derive(Clone)]
pub struct TdOf<const DEFAULT: bool> {
    lex: Arc<lexan::LexicalAnalyzer<Tag>>,
    tab: Rc<Tab>,
    rank: Rc<Vec<usize>>,
}

pub type Td = TdOf<false>;

fn mk(rank: &[usize], id: usize) -> Tag {
    Tag { rank: rank[id] as u16, id: id as u16 }
}

impl Td {
    /// `rank` orders the tags as the terminal enumeration does.
    pub fn new(tab: Tab, rank: Vec<usize>, lex: &LexSpec) -> Result<Td, String> {
        let tab = Rc::new(tab);
        TAB.with(|t| *t.borrow_mut() = Rc::clone(&tab));
        let lits: Vec<(Tag, &str)> = lex.lits.iter().map(|(i, s)| (mk(&rank, *i), s.as_str())).collect();
        let res: Vec<(Tag, &str)> = lex.res.iter().map(|(i, s)| (mk(&rank, *i), s.as_str())).collect();
        let skips: Vec<&str> = lex.skips.iter().map(|s| s.as_str()).collect();
        let lex = crate::run::sut(|| lexan::LexicalAnalyzer::new(&lits, &res, &skips, mk(&rank, lex.end)))?;
        Ok(Td { lex: Arc::new(lex), tab, rank: Rc::new(rank) })
    }
    /// Another parser with the same analyzer, possibly for another thread.
    pub fn share(&self) -> impl FnOnce() -> Td + Send + use<> {
        let (lex, tab, rank) = (Arc::clone(&self.lex), (*self.tab).clone(), (*self.rank).clone());
        move || Td { lex, tab: Rc::new(tab), rank: Rc::new(rank) }
    }
    pub fn by_default(&self) -> TdOf<true> {
        TdOf { lex: Arc::clone(&self.lex), tab: Rc::clone(&self.tab), rank: Rc::clone(&self.rank) }
    }
}

impl<const D: bool> TdOf<D>
where
    TdOf<D>: lalr1::ReportError<Tag> + alalr1::ReportError<Tag>,
{
    fn enter(&self, plan: Vec<(usize, Vec<(String, String)>)>, fuel: usize) {
        TAB.with(|t| *t.borrow_mut() = Rc::clone(&self.tab));
        RANK.with(|t| *t.borrow_mut() = Rc::clone(&self.rank));
        FUEL.with(|f| f.set(fuel));
        vrt::start(plan);
        vrt::allow(fuel);
    }
    pub fn lalr1(&mut self, text: &str, label: &str, plan: Vec<(usize, Vec<(String, String)>)>, fuel: usize) -> Vec<String> {
        self.enter(plan, fuel);
        match crate::run::sut(|| vrt::result(&lalr1::Parser::parse_text(self, text, label))) {
            Ok(()) => vrt::finish(),
            Err(e) => {
                let mut v = vrt::finish();
                v.push(format!("PANIC {e}"));
                v
            }
        }
    }
    pub fn alalr1(&mut self, text: &str, label: &str, plan: Vec<(usize, Vec<(String, String)>)>, fuel: usize) -> Vec<String> {
        self.enter(plan, fuel);
        match crate::run::sut(|| vrt::result(&alalr1::Parser::parse_text(self, text, label))) {
            Ok(()) => vrt::finish(),
            Err(e) => {
                let mut v = vrt::finish();
                v.push(format!("PANIC {e}"));
                v
            }
        }
    }
}

type Job = Box<dyn FnOnce()>;

thread_local! {
    static NEST: RefCell<Option<(usize, Job)>> = const { RefCell::new(None) };
}

/// Something that the action of the n-th reduction from now on does.
pub fn nest(n: usize, f: Option<Job>) {
    NEST.with(|x| *x.borrow_mut() = f.map(|f| (n, f)));
}

/// A semantic action may use other parsers, also ones of the same kind.
fn meanwhile() {
    let f = NEST.with(|x| {
        let mut x = x.borrow_mut();
        match x.as_mut() {
            Some((n, _)) if *n > 1 => {
                *n -= 1;
                None
            }
            Some(_) => x.take(),
            None => None,
        }
    });
    if let Some((_, f)) = f {
        let (t, r, b) = (tab(), RANK.with(|x| Rc::clone(&x.borrow())), FUEL.with(|x| x.get()));
        let log = vrt::LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
        f();
        TAB.with(|x| *x.borrow_mut() = t);
        RANK.with(|x| *x.borrow_mut() = r);
        FUEL.with(|x| x.set(b));
        vrt::LOG.with(|l| *l.borrow_mut() = log);
    }
}

fn tab() -> Rc<Tab> {
    TAB.with(|t| Rc::clone(&t.borrow()))
}

fn burn() {
    FUEL.with(|f| {
        let n = f.get();
        if n == 0 {
            panic!("step limit");
        }
        f.set(n - 1);
    })
}

fn set(v: &[usize]) -> lalr1::OrderedSet<Tag> {
    RANK.with(|r| {
        let r = r.borrow();
        v.iter().map(|i| mk(&r, *i)).collect()
    })
}

/// Numbers as the drivers see them, and back.
fn out(n: usize) -> u32 {
    n as u32 * tab().scale.max(1)
}

fn back(n: u32) -> usize {
    let k = tab().scale.max(1);
    if n % k != 0 {
        panic!("no such number: {n}");
    }
    (n / k) as usize
}

fn viable(t: &Tag) -> lalr1::OrderedSet<u32> {
    burn();
    tab().viable[t.id as usize].iter().map(|s| out(*s)).collect()
}

fn eg(state: u32) -> u32 {
    match tab().err_goto[back(state)] {
        Some(s) => out(s),
        None => panic!("no error go to state for {state}"),
    }
}

fn goto(lhs: &Nt, state: u32) -> u32 {
    match tab().gotos[back(state)].get(&(lhs.0 as usize)) {
        Some(s) => out(*s),
        None => panic!("malformed goto table: ({lhs}, {state})"),
    }
}

fn sem<F: FnMut(String, String)>(p: u32, attrs: Vec<Attr>, mut inject: F) -> Attr {
    match tab().prods[back(p)].2 {
        Some(k) => {
            let a = vrt::red(k, attrs);
            meanwhile();
            for (t, l) in vrt::inj() {
                inject(t, l);
            }
            a
        }
        None => attrs.first().cloned().unwrap_or_default(),
    }
}

impl lalr1::ReportError<Tag> for TdOf<true> {}
impl alalr1::ReportError<Tag> for TdOf<true> {}

impl lalr1::ReportError<Tag> for Td {
    fn report_error(&mut self, e: &lalr1::Error<Tag>) {
        vrt::event(format!("E {e}"));
    }
}
impl alalr1::ReportError<Tag> for Td {
    fn report_error(&mut self, e: &alalr1::Error<Tag>) {
        vrt::event(format!("E {e}"));
    }
}

impl<const D: bool> lalr1::Parser<Tag, Nt, Attr> for TdOf<D>
where
    TdOf<D>: lalr1::ReportError<Tag>,
{
    fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<Tag> {
        &self.lex
    }
    fn next_action(&self, state: u32, token: &lexan::Token<Tag>) -> lalr1::Action {
        burn();
        match &self.tab.act[back(state)][token.tag().id as usize] {
            Act::Shift(s) => lalr1::Action::Shift(out(*s)),
            Act::Reduce(p) => lalr1::Action::Reduce(out(*p)),
            Act::Accept => lalr1::Action::Accept,
            Act::Err => lalr1::Action::SyntaxError,
            Act::If(..) => panic!("a predicate in a plain parser"),
        }
    }
    fn production_data(p: u32) -> (Nt, usize) {
        let t = tab();
        let n = back(p);
        (Nt(t.prods[n].0 as u16), t.prods[n].1)
    }
    fn goto_state(lhs: &Nt, state: u32) -> u32 {
        goto(lhs, state)
    }
    fn do_semantic_action<F: FnMut(String, String)>(&mut self, p: u32, attrs: Vec<Attr>, inject: F) -> Attr {
        sem(p, attrs, inject)
    }
    fn viable_error_recovery_states(tag: &Tag) -> lalr1::OrderedSet<u32> {
        viable(tag)
    }
    fn error_goto_state(state: u32) -> u32 {
        eg(state)
    }
    fn look_ahead_set(state: u32) -> lalr1::OrderedSet<Tag> {
        set(&tab().la[back(state)])
    }
}

impl<const D: bool> alalr1::Parser<Tag, Nt, Attr> for TdOf<D>
where
    TdOf<D>: alalr1::ReportError<Tag>,
{
    fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<Tag> {
        &self.lex
    }
    fn next_action(&self, state: u32, stack: &alalr1::ParseStack<Tag, Nt, Attr>, token: &lexan::Token<Tag>) -> alalr1::Action {
        burn();
        let mut act = &self.tab.act[back(state)][token.tag().id as usize];
        while let Act::If(k, pos, yes, no) = act {
            let args: Vec<&Attr> = pos.iter().map(|n| stack.at_len_minus_n(*n)).collect();
            act = if vrt::pred(*k, &args, token.tag()) { yes } else { no };
        }
        match act {
            Act::Shift(s) => alalr1::Action::Shift(out(*s)),
            Act::Reduce(p) => alalr1::Action::Reduce(out(*p)),
            Act::Accept => alalr1::Action::Accept,
            _ => alalr1::Action::SyntaxError,
        }
    }
    fn production_data(p: u32) -> (Nt, usize) {
        let t = tab();
        let n = back(p);
        (Nt(t.prods[n].0 as u16), t.prods[n].1)
    }
    fn goto_state(lhs: &Nt, state: u32) -> u32 {
        goto(lhs, state)
    }
    fn do_semantic_action<F: FnMut(String, String)>(&mut self, p: u32, attrs: Vec<Attr>, inject: F) -> Attr {
        sem(p, attrs, inject)
    }
    fn viable_error_recovery_states(tag: &Tag) -> lalr1::OrderedSet<u32> {
        viable(tag)
    }
    fn error_goto_state(state: u32) -> u32 {
        eg(state)
    }
    fn look_ahead_set(state: u32) -> lalr1::OrderedSet<Tag> {
        set(&tab().la[back(state)])
    }
}
