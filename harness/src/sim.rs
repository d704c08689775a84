//! Reference parse driver over a table, and the table type shared with the
//! table-driven parser under test.
use crate::lalr::{Act as RAct, Auto, END, ERROR};
use std::collections::{BTreeMap, BTreeSet};
use vrt::Attr;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(usize),
    /// Production number in the table.
    Reduce(usize),
    Accept,
    Err,
    /// Predicate: id, positions counted from the top of the stack (1 = top), then, else.
    If(u32, Vec<usize>, Box<Act>, Box<Act>),
}

/// What a semantic action does, where it is not the plain marker.
#[derive(Clone, Debug)]
pub struct What {
    pub k: u32,
    /// Positions (from 1) of the attributes it shows.
    pub picks: Vec<usize>,
    pub res: Res,
    pub inj: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Node,
    Default,
    Pick(usize),
    Wrap,
    Fresh,
}

#[derive(Clone, Debug, Default)]
pub struct Tab {
    pub names: Vec<String>,         // token displays; index = tag, 0 = end marker
    pub act: Vec<Vec<Act>>,         // [state][tag]
    pub gotos: Vec<BTreeMap<usize, usize>>,
    pub err_goto: Vec<Option<usize>>,
    pub viable: Vec<BTreeSet<usize>>, // [tag]
    pub la: Vec<Vec<usize>>,        // expected tags, in print order
    pub prods: Vec<(usize, usize, Option<u32>)>, // lhs, length, marker of the action
    /// Actions that are not plain markers, by production.
    pub acts: BTreeMap<usize, What>,
    /// What the drivers are told states and productions are multiples of, 0 for 1.
    pub scale: u32,
}

/// The table of the reference automaton; markers are production numbers of the grammar.
/// `rank` gives the print order of tags.
pub fn tab_of(a: &Auto, names: &[String], rank: &[usize]) -> Tab {
    let chain = |ps: &[usize]| -> Act {
        let mut out = Act::Err;
        for p in ps.iter().rev() {
            let r = Act::Reduce(*p);
            out = match a.prods[*p].pred {
                None => r,
                Some(k) => {
                    let n = a.prods[*p].rhs.len();
                    Act::If(k, (1..=n).rev().collect(), Box::new(r), Box::new(out))
                }
            };
        }
        out
    };
    let ns = a.states.len();
    let last = a.prods.len();
    Tab {
        names: names.to_vec(),
        act: (0..ns)
            .map(|s| {
                (0..a.ntok)
                    .map(|t| match a.act(s, t) {
                        RAct::Shift(j) => Act::Shift(j),
                        RAct::Accept => Act::Accept,
                        RAct::Err => Act::Err,
                        RAct::Reduce(ps) => chain(&ps),
                    })
                    .collect()
            })
            .collect(),
        gotos: a.states.iter().map(|s| s.next.iter().filter_map(|(x, j)| if let crate::lalr::S::N(n) = x { Some((*n, *j)) } else { None }).collect()).collect(),
        err_goto: (0..ns).map(|s| a.goto(s, ERROR)).collect(),
        viable: (0..a.ntok).map(|t| (0..ns).filter(|s| a.viable(*s, t)).collect()).collect(),
        la: (0..ns)
            .map(|s| {
                let mut v: Vec<usize> = a.expected(s).into_iter().collect();
                v.sort_by_key(|t| rank[*t]);
                v
            })
            .collect(),
        acts: BTreeMap::new(),
        scale: 0,
        prods: a.prods.iter().enumerate().map(|(i, p)| (p.lhs, p.rhs.len(), if i == 0 || (i + 1 == last && p.lhs == ERROR) { None } else { Some(i as u32 - 1) })).collect(),
    }
}

/// One element of the input as the tokeniser presents it.
#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Tok { tag: usize, lexeme: String, loc: String },
    Bad { msg: String },
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub items: Vec<In>,
    pub end_loc: String,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub shifts: usize,
    pub reductions: usize,
    pub errors: usize,
    pub recoveries: usize,
    pub discarded: usize,
    pub popped: usize,
    pub steps: usize,
    pub preds: usize,
    pub excluded: usize,
    /// Recoveries without a token consumed since the previous one.
    pub again: usize,
    pub gave_up: bool,
    pub accepted: bool,
    /// The parse was still going at the step limit.
    pub endless: bool,
    pub reds: Vec<usize>,
    pub states: BTreeSet<usize>,
}

struct Src {
    stack: Vec<(Vec<In>, usize, String)>,
    end: Option<String>,
}

impl Src {
    fn push(&mut self, s: &Stream) {
        if !s.items.is_empty() {
            self.stack.push((s.items.clone(), 0, s.end_loc.clone()));
        }
    }
    fn front(&self) -> Option<&In> {
        self.stack.last().map(|(v, i, _)| &v[*i])
    }
    fn advance(&mut self) {
        if let Some(t) = self.stack.last_mut() {
            t.1 += 1;
        }
        while let Some((v, i, e)) = self.stack.last() {
            if *i < v.len() {
                break;
            }
            self.end = Some(e.clone());
            self.stack.pop();
        }
    }
}

pub struct Plan {
    /// Streams injected by the action of the n-th (1-based) reduction.
    pub at: Vec<(usize, Vec<Stream>)>,
}

fn token_text(names: &[String], tag: usize, lexeme: &str, loc: &str) -> String {
    format!("{}({lexeme}) at {loc}", names[tag])
}

/// Runs the reference driver; the trace has the format of `vrt`.
pub fn run(t: &Tab, input: &Stream, plan: &Plan, max_steps: usize) -> (Vec<String>, Stats) {
    let mut tr: Vec<String> = vec![];
    let mut st = Stats::default();
    let mut src = Src { stack: vec![], end: Some(input.end_loc.clone()) };
    src.push(input);
    let mut states: Vec<usize> = vec![0];
    let mut attrs: Vec<Attr> = vec![];
    let mut last: Option<usize> = None;
    // states recovery resumed in since a token was last shifted or discarded
    let mut tried: BTreeSet<usize> = BTreeSet::new();
    let mut result: Option<String> = None;
    let mut done = 0;
    loop {
        st.steps += 1;
        if st.steps > max_steps || tr.len() > max_steps.max(vrt::LIMIT) - 8 {
            st.endless = true;
            return (tr, st);
        }
        let cur = *states.last().unwrap();
        st.states.insert(cur);
        let (tag, text) = match src.front() {
            Some(In::Bad { msg }) => (None, msg.clone()),
            Some(In::Tok { tag, lexeme, loc }) => (Some(*tag), token_text(&t.names, *tag, lexeme, loc)),
            None => (Some(END), token_text(&t.names, END, "", src.end.as_deref().unwrap_or("1:1"))),
        };
        let mut act = match tag {
            None => &Act::Err,
            Some(g) => &t.act[cur][g],
        };
        while let Act::If(k, pos, yes, no) = act {
            st.preds += 1;
            let args: Vec<&str> = pos.iter().map(|n| attrs[attrs.len() - n].0.as_str()).collect();
            act = if vrt::pred_value(*k, &args, &t.names[tag.unwrap()]) { yes } else { no };
        }
        match act {
            Act::Accept => {
                st.accepted = true;
                break;
            }
            Act::Shift(j) => {
                st.shifts += 1;
                tried.clear();
                states.push(*j);
                attrs.push(Attr(vrt::cap(text)));
                src.advance();
            }
            Act::Reduce(p) => {
                let (lhs, n, marker) = t.prods[*p];
                st.reductions += 1;
                st.reds.push(*p);
                let rhs = attrs.split_off(attrs.len() - n);
                states.truncate(states.len() - n);
                let a = match marker {
                    Some(k) => {
                        let what = t.acts.get(p);
                        let a = match what {
                            None => vrt::node(k, &rhs),
                            Some(w) => vrt::node(w.k, &w.picks.iter().map(|i| rhs[i - 1].clone()).collect::<Vec<_>>()),
                        };
                        tr.push(format!("R {}", a.0));
                        let usual = || rhs.first().cloned().unwrap_or_default();
                        let a = match what.map(|w| &w.res) {
                            None | Some(Res::Node) => a,
                            Some(Res::Default) => usual(),
                            Some(Res::Pick(i)) => rhs[i - 1].clone(),
                            Some(Res::Wrap) => Attr(vrt::cap(format!("<{}>", usual().0))),
                            Some(Res::Fresh) => Attr::default(),
                        };
                        done += 1;
                        for (at, ss) in &plan.at {
                            if *at == done && what.is_none_or(|w| w.inj) {
                                ss.iter().for_each(|s| src.push(s));
                            }
                        }
                        a
                    }
                    None => rhs.first().cloned().unwrap_or_default(),
                };
                let j = t.gotos[*states.last().unwrap()][&lhs];
                attrs.push(a);
                states.push(j);
            }
            Act::If(..) => unreachable!(),
            Act::Err => {
                st.errors += 1;
                let exp: Vec<&str> = t.la[cur].iter().map(|x| t.names[*x].as_str()).collect();
                let kind = if tag.is_none() { "Lexical" } else { "Syntax" };
                let msg = format!("{kind} error: {text} expected {}.", exp.join(", "));
                tr.push(format!("E {msg}"));
                result = Some(msg.clone());
                let mut to = None;
                while let Some(f) = src.front() {
                    if let In::Tok { tag, .. } = f {
                        for i in (0..states.len()).rev() {
                            if t.viable[*tag].contains(&states[i]) {
                                if last == Some(states[i]) || tried.contains(&states[i]) {
                                    st.excluded += 1;
                                    continue;
                                }
                                to = Some(i);
                                break;
                            }
                        }
                        if to.is_some() {
                            break;
                        }
                    }
                    st.discarded += 1;
                    tried.clear();
                    src.advance();
                }
                match to {
                    None => {
                        st.gave_up = true;
                        break;
                    }
                    Some(i) => {
                        st.recoveries += 1;
                        st.popped += states.len() - 1 - i;
                        last = Some(states[i]);
                        st.again += !tried.insert(states[i]) as usize + (tried.len() > 1) as usize;
                        states.truncate(i + 1);
                        attrs.truncate(i);
                        states.push(t.err_goto[states[i]].unwrap());
                        attrs.push(Attr(vrt::cap(format!("<{msg}>"))));
                    }
                }
            }
        }
    }
    tr.push(match result {
        None => "OK".into(),
        Some(m) => format!("FAIL {m}"),
    });
    (tr, st)
}
