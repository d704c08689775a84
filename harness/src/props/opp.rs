//! Operator grammars, with grouping decided by an operator-precedence parser.
use crate::cli::{Aug, BOTH};
use crate::gram::{Assoc, Gram, PrecRef, Prod, Sym, Tok};
use crate::pipe::{self, Probe};
use crate::run::*;
use crate::spec;
use crate::tape::{Src, mix};
use crate::text::{self, TI};

/// Token numbers (1-based) of a random expression.
fn expr(s: &mut Src, bin: &[usize], pre: &[usize], post: &[usize], open: usize, fuel: &mut usize, out: &mut Vec<usize>) {
    if !pre.is_empty() && s.chance(1, 4) {
        out.push(*s.pick(pre) + 1);
    }
    if *fuel > 2 && s.chance(1, 8) {
        *fuel -= 2;
        out.push(open + 1);
        expr(s, bin, pre, post, open, fuel, out);
        out.push(open + 2);
    } else {
        out.push(1);
    }
    if !post.is_empty() && s.chance(1, 5) {
        out.push(*s.pick(post) + 1);
    }
    if *fuel > 0 && !bin.is_empty() && s.chance(5, 6) {
        *fuel -= 1;
        out.push(*s.pick(bin) + 1);
        expr(s, bin, pre, post, open, fuel, out);
    }
}

struct Climb<'a> {
    g: &'a Gram,
    toks: &'a [usize],
    i: usize,
    bin: &'a [(usize, usize)],
    pre: &'a [(usize, usize)],
    post: &'a [(usize, usize)],
    open: usize,
    out: Vec<usize>,
}

impl Climb<'_> {
    /// Whether, with production `p` complete, the operator waiting is shifted instead.
    fn shifts(&self, p: usize, op: usize) -> bool {
        let (pa, pp) = self.g.prod_prec(&self.g.prods[p]);
        let (_, tp) = self.g.prec_of(PrecRef::Tok(op));
        tp > pp || (tp == pp && pa != Assoc::Left)
    }
    fn waiting(&self) -> Option<usize> {
        self.toks.get(self.i).map(|t| t - 1)
    }
    fn infix(&self) -> Option<usize> {
        let w = self.waiting()?;
        (self.bin.iter().chain(self.post).any(|b| b.0 == w)).then_some(w)
    }
    /// Parses an operand and all operators that bind tighter than the production waiting outside.
    fn operand(&mut self, outer: Option<usize>) {
        let w = self.waiting().unwrap();
        self.i += 1;
        if let Some((_, p)) = self.pre.iter().find(|x| x.0 == w) {
            let p = *p;
            self.operand(Some(p));
            self.out.push(p);
        } else if w == self.open {
            self.operand(None);
            self.i += 1;
            self.out.push(1);
        } else {
            self.out.push(0);
        }
        while let Some(op) = self.infix() {
            if let Some(p) = outer
                && !self.shifts(p, op)
            {
                return;
            }
            self.i += 1;
            if let Some((_, p)) = self.post.iter().find(|x| x.0 == op) {
                self.out.push(*p);
            } else {
                let p = self.bin.iter().find(|x| x.0 == op).unwrap().1;
                self.operand(Some(p));
                self.out.push(p);
            }
        }
    }
}

pub fn operators(s: &mut Src, ctx: &mut Ctx) -> R {
    // tokens: 0 the atom, then operators, then brackets
    let big = s.chance(1, 15);
    let nbin = if big { s.range(6, 24) } else { s.range(1, 5) };
    let npre = s.below(if big { 6 } else { 3 });
    let npost = s.below(if big { 4 } else { 2 });
    let shared = npre > 0 && s.chance(1, 2);
    let nops = nbin + npost + if shared { npre - 1 } else { npre };
    let names = ["Plus", "Minus", "Times", "Div", "Pow", "Bang", "Neg", "Amp"];
    let lits = ["+", "-", "*", "/", "^", "!", "~", "&"];
    let mut toks = vec![Tok { name: "Num".into(), lit: false, text: "([0-9]+)".into(), lexemes: vec!["1".into(), "22".into()] }];
    let mut order: Vec<usize> = (0..8.max(nops)).collect();
    s.shuffle(&mut order[..]);
    for k in order.iter().take(nops) {
        let (n, l) = if *k < 8 { (names[*k].to_string(), lits[*k].to_string()) } else { (format!("Op{k}"), format!("{}{}", lits[*k % 8], ['=', '>', '@', '%'][*k / 8 % 4])) };
        toks.push(Tok { name: n, lit: true, text: l.clone(), lexemes: vec![l] });
    }
    let open = toks.len();
    for (n, l) in [("LBr", "("), ("RBr", ")")] {
        toks.push(Tok { name: n.into(), lit: true, text: l.into(), lexemes: vec![l.into()] });
    }
    let bin_t: Vec<usize> = (1..=nbin).collect();
    let post_t: Vec<usize> = (nbin + 1..=nbin + npost).collect();
    let mut pre_t: Vec<usize> = (nbin + npost + 1..=nops).collect();
    if shared {
        pre_t.push(1);
    }
    let mut prods = vec![Prod { lhs: 0, rhs: vec![Sym::T(0)], prec: None, pred: None }, Prod { lhs: 0, rhs: vec![Sym::T(open), Sym::N(0), Sym::T(open + 1)], prec: None, pred: None }];
    let (mut bin, mut pre, mut post) = (vec![], vec![], vec![]);
    for t in &bin_t {
        bin.push((*t, prods.len()));
        prods.push(Prod { lhs: 0, rhs: vec![Sym::N(0), Sym::T(*t), Sym::N(0)], prec: None, pred: None });
    }
    for t in &post_t {
        post.push((*t, prods.len()));
        prods.push(Prod { lhs: 0, rhs: vec![Sym::N(0), Sym::T(*t)], prec: None, pred: None });
    }
    for t in &pre_t {
        pre.push((*t, prods.len()));
        prods.push(Prod { lhs: 0, rhs: vec![Sym::T(*t), Sym::N(0)], prec: None, pred: None });
    }
    let mut g = Gram { toks, tags: vec![], levels: vec![], nts: vec!["E".into()], prods, skips: vec![r"(\s+)".into()], sr: 0, rr: 0 };
    let nlev = if big { s.range(3, 20) } else { s.range(1, 4) };
    g.levels = (0..nlev).map(|_| (*s.pick(&[Assoc::Left, Assoc::Right, Assoc::Left, Assoc::Right, Assoc::Non]), vec![])).collect();
    for t in 1..=nops {
        if s.chance(9, 10) {
            let l = s.below(nlev);
            g.levels[l].1.push(PrecRef::Tok(t));
        }
    }
    for k in 0..s.below(3) {
        g.tags.push(["Umin", "Tight"][k].into());
        let l = s.below(nlev);
        g.levels[l].1.push(PrecRef::Tag(k));
    }
    g.levels.retain(|l| !l.1.is_empty());
    for i in 2..g.prods.len() {
        let unary = g.prods[i].rhs.len() == 2;
        if s.chance(if unary { 2 } else { 1 }, 4) {
            let n = g.tags.len();
            g.prods[i].prec = Some(if n > 0 && s.chance(3, 4) { PrecRef::Tag(s.below(n)) } else { PrecRef::Tok(s.range(1, nops)) });
        }
    }
    ctx.show(|| g.describe());
    let r = pipe::reference(&g)?;
    let mut lists = vec![];
    for _ in 0..25 {
        let mut fuel = s.range(1, if big { 40 } else { 8 });
        let mut v = vec![];
        expr(s, &bin_t, &pre_t, &post_t, open, &mut fuel, &mut v);
        lists.push(v.into_iter().map(|t| TI::Tok(t, 0)).collect::<Vec<_>>());
    }
    let ps = pipe::probes(&g, &r.tab, lists, &[]);
    // the grouping as a sequence of reductions, decided without the automaton
    let mut wants = vec![];
    for p in &ps {
        let toks: Vec<usize> = p.items.iter().filter_map(|i| if let TI::Tok(t, _) = i { Some(*t) } else { None }).collect();
        let mut c = Climb { g: &g, toks: &toks, i: 0, bin: &bin, pre: &pre, post: &post, open, out: vec![] };
        c.operand(None);
        if c.i != toks.len() {
            return err(format!("operator parser stopped early: {} {}", g.describe(), text::show(&g, &p.items)));
        }
        wants.push(c.out);
    }
    let ids = |t: &[String]| -> Option<Vec<usize>> {
        if t.last().map(|x| x.as_str()) != Some("OK") {
            return None;
        }
        t.iter().filter_map(|e| e.strip_prefix("R (")).map(|e| e.split([' ', ')']).next().unwrap().parse().ok()).collect()
    };
    let mut ps: Vec<Probe> = ps;
    for (p, w) in ps.iter_mut().zip(&wants) {
        // the probe's statistics carry the wanted reductions
        p.stats.reds = w.clone();
        if ids(&p.want).as_ref() != Some(w) {
            return err(format!("reference automaton and operator parser disagree: {} {}: {:?} {:?}", g.describe(), text::show(&g, &p.items), p.want, w));
        }
    }
    let agree = |p: &Probe, got: &[String]| -> bool { ids(got).as_ref() == Some(&p.stats.reds) };
    for w in BOTH {
        let (rs, _) = pipe::must(ctx, w, &g, &spec::text(&g, w == Aug), &["--ignore-sr-conflicts"])?;
        pipe::check(ctx, w, &g, &rs, &ps, &agree, pipe::share(&g, 60), "grouping")?;
    }
    // declared left or right associativity leaves nothing to acknowledge
    let all = g.levels.iter().all(|l| l.0 != Assoc::Non) && (1..=nops).all(|t| g.prec_of(PrecRef::Tok(t)).1 > 0);
    if all && !g.prods[2..].iter().any(|q| g.prod_prec(q).1 == 0) {
        for w in BOTH {
            pipe::must(ctx, w, &g, &spec::text(&g, w == Aug), &[])?;
        }
        ctx.class("fully declared operator grammars");
    }
    for p in &ps {
        let ops = p.items.iter().filter(|i| matches!(i, TI::Tok(t, _) if *t >= 2 && *t <= nops + 1)).count();
        ctx.case((ops >= 2).then(|| mix(&[super::genp::tkey(&g, &p.items)])));
    }
    Ok(())
}
