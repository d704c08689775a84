//! C10-C14, C17, C24: what generated parsers do.
use crate::cli::{Aug, BOTH, Plain};
use crate::earley;
use crate::gram::{self, GOpts, Gram};
use crate::lalr::Auto;
use crate::pipe::{self, Probe, Ref};
use crate::run::*;
use crate::spec;
use crate::tape::{Src, hash_str, mix};
use crate::text::{self, TI};

pub const IGNORE: [&str; 2] = ["--ignore-sr-conflicts", "--ignore-rr-conflicts"];

pub fn tkey(g: &Gram, items: &[TI]) -> u64 {
    mix(&[g.key(), hash_str(&format!("{items:?}"))])
}

/// Token numbers of a text without junk.
fn nums(items: &[TI]) -> Vec<usize> {
    items.iter().filter_map(|i| if let TI::Tok(t, _) = i { Some(*t) } else { None }).collect()
}

pub fn c10() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 6), max_toks: if s.chance(1, 5) { 9 } else { 6 }, ..GOpts::default() };
        let Some(g) = gram::repair(gram::grammar(s, &o)) else { return Err(Stop::Discard("conflicts remain")) };
        language(s, ctx, g)
    };
    let deep = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { max_toks: 7, max_nts: 8, ..GOpts::default() };
        let g = gram::nullable_heavy(s, &o);
        let Some(g) = gram::repair(g) else { return Err(Stop::Discard("conflicts remain")) };
        language(s, ctx, g)
    };
    let large = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 6), ..GOpts::default() };
        let Some(g) = gram::repair_in(gram::large(s, &o), 80, 24) else { return Err(Stop::Discard("conflicts remain")) };
        language(s, ctx, g)
    };
    let huge = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 6), ..GOpts::default() };
        let Some(g) = gram::repair_in(gram::huge(s, &o), 120, 40) else { return Err(Stop::Discard("conflicts remain")) };
        language(s, ctx, g)
    };
    Prop {
        id: "C10",
        rule: "A case is one text given to the parsers both generators make from one random conflict-free grammar (including indirectly, hidden and right recursive shapes, chains of nullable symbols, grammars only LALR merging makes interesting, and error productions); texts reach every automaton state with every token, or are random or perturbed sentences. Non-trivial: the text has at least two tokens and the grammar at least two nonterminals or recursion. Distinct by grammar shape and text.",
        assumptions: vec!["membership is decided by an Earley recogniser", "the derivation of an accepted text is unique because the grammar has no conflicts"],
        suites: vec![suite("language", 3000, 40000, f), suite("nullable", 1500, 20000, deep), suite_b("large", 300, 6000, 400, large), suite_b("huge", 30, 600, 60, huge)],
    }
}

fn language(s: &mut Src, ctx: &mut Ctx, g: Gram) -> R {
    let r = pipe::reference(&g)?;
    if r.a.raw() != (0, 0) {
        return Err(Stop::Discard("conflicts settled by rules"));
    }
    ctx.show(|| g.describe());
    let lists = text::texts(s, &g, &r.a, 60, 20, false);
    let ps = pipe::probes(&g, &r.tab, lists, &[]);
    for p in &ps {
        let yes = earley::derives(&r.a.prods, &r.a.nullable, &nums(&p.items));
        if yes != (p.want.last().is_some_and(|x| x == "OK")) {
            return err(format!("reference automaton and recogniser disagree: {} {}", g.describe(), text::show(&g, &p.items)));
        }
    }
    let agree = |p: &Probe, got: &[String]| -> bool {
        if p.stats.errors == 0 { p.want == got } else { got.last().is_some_and(|x| x.starts_with("FAIL")) }
    };
    for w in BOTH {
        let (rs, _) = pipe::must(ctx, w, &g, &spec::text(&g, w == Aug), &[])?;
        pipe::check(ctx, w, &g, &rs, &ps, &agree, pipe::share(&g, 60), "language")?;
    }
    let rec = g.nts.len() > 1 || g.prods.iter().any(|q| q.rhs.contains(&gram::Sym::N(q.lhs)));
    for p in &ps {
        ctx.case((rec && p.items.len() >= 2).then(|| tkey(&g, &p.items)));
    }
    ctx.classn("accepted texts", ps.iter().filter(|p| p.stats.errors == 0).count() as u64);
    if r.a.merges > 0 {
        ctx.class("grammars whose look-aheads flow into finished states");
    }
    if r.a.states.len() > 256 {
        ctx.class("grammars with more than 256 states");
    }
    if r.a.nullable[2..].iter().any(|n| *n) {
        ctx.class("grammars with nullable symbols");
    }
    if g.uses_error() {
        ctx.class("grammars with error productions");
    }
    Ok(())
}

/// A line of the diagnostics naming a kind of conflict and two numbers.
fn says(stderr: &str, kind: &str, n: u32, m: u32) -> bool {
    stderr.lines().any(|l| {
        let l = l.to_lowercase();
        let ns: Vec<&str> = l.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
        l.contains(kind) && l.contains("conflicts") && ns.contains(&n.to_string().as_str()) && ns.contains(&m.to_string().as_str())
    })
}

pub fn c11() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 3), precs: s.chance(1, 2), preds: s.chance(1, 4), duel: s.chance(1, 3), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        counts(s, ctx, g)
    };
    let many = |s: &mut Src, ctx: &mut Ctx| -> R {
        let g = gram::conflicting(s);
        counts(s, ctx, g)
    };
    Prop {
        id: "C11",
        rule: "A case is one run of one command on one random grammar with declared conflict counts equal or near to the actual ones, with or without the ignore options. Non-trivial: the automaton has conflicts (settled or not). Distinct by grammar shape, declared counts and options.",
        assumptions: vec!["the counts come from the reference automaton: a shift/reduce conflict is a pair of a token and a production in a state, a reduce/reduce conflict a pair of productions in a state"],
        suites: vec![suite("counts", 4000, 50000, f), suite("many", 150, 3000, many)],
    }
}

fn counts(s: &mut Src, ctx: &mut Ctx, mut g: Gram) -> R {
    let r = pipe::reference(&g)?;
    let (sr, rr) = (r.a.sr, r.a.rr);
    let has_preds = g.prods.iter().any(|p| p.pred.is_some());
    ctx.show(|| format!("{} [{sr} shift/reduce, {rr} reduce/reduce]", g.describe()));
    let near = |s: &mut Src, n: u32| -> u32 {
        match s.weighted(&[10, 4, 4, 2, 1]) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            3 => 0,
            _ => n + *s.pick(&[256, 65536, 1 << 31, 10]),
        }
    };
    for _ in 0..3 {
        g.sr = near(s, sr);
        g.rr = near(s, rr);
        let (isr, irr) = (s.chance(1, 5), s.chance(1, 5));
        let mut opts = vec![];
        if isr {
            opts.push(IGNORE[0]);
        }
        if irr {
            opts.push(IGNORE[1]);
        }
        let mut st = spec::Style::plain(&g);
        st.counts = s.chance(1, 3);
        st.rr_first = s.chance(1, 2);
        let bad_sr = !isr && g.sr != sr;
        let bad_rr = !irr && g.rr != rr;
        for w in BOTH {
            if w == Plain && has_preds {
                continue;
            }
            let text = spec::lay(&spec::pieces(&g, &st, w == Aug), &[]).text;
            let out = crate::cli::generate(ctx, w, &text, &opts)?;
            let what = format!("{} on {} (declared {}/{}, actual {sr}/{rr}, options {opts:?})", w.cmd(), g.describe(), g.sr, g.rr);
            if let Some(c) = out.done.crash() {
                return fail("crash", format!("{what}: {c}"));
            }
            let tail = crate::cli::tail(&out.done.stderr.lines().rev().take(2).collect::<Vec<_>>().join("\n"));
            if !bad_sr && !bad_rr {
                if !out.done.ok() || out.rs.is_none() {
                    return fail("refused", format!("{what}: refused: {tail}"));
                }
            } else {
                if out.done.ok() {
                    return fail("accepted", format!("{what}: accepted"));
                }
                if out.rs.is_some() {
                    return fail("written", format!("{what}: refused, but a parser was written"));
                }
                let a = bad_sr && says(&out.done.stderr, "shift/reduce", sr, g.sr);
                let b = bad_rr && says(&out.done.stderr, "reduce/reduce", rr, g.rr);
                if !a && !b {
                    return fail("message", format!("{what}: the refusal does not state the numbers: {tail}"));
                }
            }
            let key = mix(&[g.key(), g.sr as u64, g.rr as u64, isr as u64 * 2 + irr as u64]);
            ctx.case((sr + rr > 0 || r.a.raw() != (0, 0)).then_some(key));
        }
        ctx.class(if bad_sr || bad_rr { "refused" } else { "accepted" });
        if (isr && g.sr != sr) || (irr && g.rr != rr) {
            ctx.class("a difference ignored by option");
        }
    }
    if sr > 0 {
        ctx.class("grammars with shift/reduce conflicts");
    }
    if rr > 0 {
        ctx.class("grammars with reduce/reduce conflicts");
    }
    let raw = r.a.raw();
    if raw.0 > sr || raw.1 > rr {
        ctx.class("grammars with conflicts settled by rules");
    }
    Ok(())
}

fn full(s: &mut Src, ctx: &mut Ctx, g: &Gram, r: &Ref, plain: bool, junk: bool, every: u64, sig: &str) -> R<Vec<Probe>> {
    let lists = text::texts(s, g, &r.a, 60, 20, junk);
    let ps = pipe::probes(g, &r.tab, lists, &[]);
    for w in BOTH {
        if w == Plain && !plain {
            continue;
        }
        let (rs, _) = pipe::must(ctx, w, g, &spec::text(g, w == Aug), &IGNORE)?;
        pipe::check(ctx, w, g, &rs, &ps, &pipe::exact, pipe::share(g, every), sig)?;
    }
    Ok(ps)
}

fn settled(a: &Auto) -> u64 {
    a.states.iter().map(|s| s.by_prec as u64).sum()
}

pub fn c12() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 8), precs: true, duel: s.chance(1, 3), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let r = pipe::reference(&g)?;
        if r.a.raw().0 == 0 {
            return Err(Stop::Discard("no shift/reduce conflict"));
        }
        if !o.duel && r.a.raw().1 > 0 {
            return Err(Stop::Discard("reduce/reduce conflicts"));
        }
        ctx.show(|| g.describe());
        let ps = full(s, ctx, &g, &r, true, false, 60, "precedence")?;
        let hot: Vec<usize> = (0..r.a.states.len()).filter(|i| r.a.states[*i].raw_sr > 0).collect();
        for p in &ps {
            ctx.case(hot.iter().any(|h| p.stats.states.contains(h)).then(|| tkey(&g, &p.items)));
        }
        if settled(&r.a) > 0 {
            ctx.class("grammars with conflicts settled by precedence");
        }
        if r.a.sr > 0 {
            ctx.class("grammars with default shifts");
        }
        Ok(())
    };
    Prop {
        id: "C12",
        rule: "A case is one text given to the parsers of both generators for a random grammar with shift/reduce conflicts and precedence declarations, or one random expression over a random operator grammar. Non-trivial: the parse goes through a state with a conflict (the expression has at least two operators). Distinct by grammar shape and text.",
        assumptions: vec!["random grammars: the reference automaton resolves conflicts as the statement says", "operator grammars: grouping is decided by an operator-precedence parser that knows no automaton"],
        suites: vec![suite("conflicts", 3000, 40000, f), suite("operators", 2000, 30000, super::opp::operators)],
    }
}

pub fn c13() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 3), precs: s.chance(1, 5), duel: true, ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let r = pipe::reference(&g)?;
        if r.a.raw().1 == 0 {
            return Err(Stop::Discard("no reduce/reduce conflict"));
        }
        ctx.show(|| g.describe());
        let ps = full(s, ctx, &g, &r, true, false, 60, "reduce/reduce")?;
        let hot: Vec<usize> = (0..r.a.states.len()).filter(|i| r.a.states[*i].raw_rr > 0).collect();
        for p in &ps {
            ctx.case(hot.iter().any(|h| p.stats.states.contains(h)).then(|| tkey(&g, &p.items)));
        }
        if r.a.states.iter().any(|s| s.by_err > 0) {
            ctx.class("grammars where a production ending in the error symbol yields");
        }
        if r.a.states.iter().any(|s| s.rr.len() > 1) {
            ctx.class("grammars with more than two competitors");
        }
        Ok(())
    };
    Prop {
        id: "C13",
        rule: "A case is one text given to the parsers of both generators for a random grammar with reduce/reduce conflicts. Non-trivial: the parse goes through a state with such a conflict. Distinct by grammar shape and text.",
        assumptions: vec!["the reference automaton resolves conflicts as the statement says"],
        suites: vec![suite("duels", 4000, 50000, f)],
    }
}

pub fn c14() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: s.chance(1, 4), precs: s.chance(1, 5), preds: true, duel: s.chance(3, 4), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        if !g.prods.iter().any(|p| p.pred.is_some()) {
            return Err(Stop::Discard("no predicate"));
        }
        let r = pipe::reference(&g)?;
        ctx.show(|| g.describe());
        let ps = full(s, ctx, &g, &r, false, false, 16, "predicates")?;
        for p in &ps {
            ctx.case((p.stats.preds > 0).then(|| tkey(&g, &p.items)));
        }
        let chains = r.a.states.iter().filter(|st| st.red.iter().any(|(p, la)| st.red.iter().any(|(q, lb)| p < q && la & lb != 0))).count();
        ctx.classn("states with competing productions kept apart by predicates", chains as u64);
        Ok(())
    };
    Prop {
        id: "C14",
        rule: "A case is one text given to the augmented generator's parser for a random grammar with predicates on competing and other productions; predicates depend on their production, the attributes they are shown and the waiting token. Non-trivial: a predicate is evaluated. Distinct by grammar shape and text.",
        assumptions: vec!["the reference evaluates the same predicates in declaration order"],
        suites: vec![suite("predicates", 3500, 40000, f)],
    }
}

pub fn c17() -> Prop {
    let f = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { errors: true, precs: s.chance(1, 5), duel: s.chance(1, 6), ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let r = pipe::reference(&g)?;
        ctx.show(|| g.describe());
        let ps = full(s, ctx, &g, &r, true, true, 60, "recovery")?;
        for p in &ps {
            ctx.case((p.stats.errors > 0).then(|| tkey(&g, &p.items)));
            ctx.classn("recoveries", p.stats.recoveries as u64);
            ctx.classn("texts given up", p.stats.gave_up as u64);
        }
        Ok(())
    };
    let e = |s: &mut Src, ctx: &mut Ctx| -> R {
        let o = GOpts { precs: s.chance(1, 3), max_toks: 9, ..GOpts::default() };
        let g = gram::mixed(s, &o);
        let r = pipe::reference(&g)?;
        ctx.show(|| g.describe());
        let ps = full(s, ctx, &g, &r, true, true, 60, "expected tokens")?;
        for p in &ps {
            ctx.case((p.stats.errors > 0).then(|| tkey(&g, &p.items)));
        }
        Ok(())
    };
    Prop {
        id: "C17",
        rule: "A case is one text given to the parsers of both generators for a random grammar, with error productions or without; texts reach every automaton state with every token, or are perturbed sentences with unlexable text. Non-trivial: at least one error is reported. Distinct by grammar shape and text.",
        assumptions: vec!["the reference automaton and driver supply reports and recoveries"],
        suites: vec![suite("recovery", 2500, 40000, f), suite("expected", 1500, 20000, e)],
    }
}
