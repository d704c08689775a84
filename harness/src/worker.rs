//! A process that uses the libraries of the generators as told by a plan.
//!
//! Plan lines, fields separated by tabs:
//! `thread`; `put FROM TO`; `WHICH MODE SPEC OUT` with WHICH plain or aug, MODE new, str, api,
//! ignoring, full (ignoring, and the report, too), parse (only read it) or `held` (made first, written out after all others of the thread).
//! Prints `THREAD.STEP OUTCOME` for every step that is not a put.
use lalr1_lib as plain;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;
use std::sync::Barrier;

enum Made {
    P(plain::ParserGenerator),
    A(alalr1_lib::ParserGenerator),
    Pg(plain::grammar::Grammar),
    Ag(alalr1_lib::grammar::Grammar),
}

impl Made {
    fn write(&self, out: &str, describe: bool) -> String {
        let r = match self {
            Made::P(g) => g.write_parser_code_to_file(out),
            Made::A(g) => g.write_parser_code_to_file(out),
            Made::Pg(g) => g.write_parser_code_to_file(Path::new(out)),
            Made::Ag(g) => g.write_parser_code_to_file(Path::new(out)),
        };
        let r = match self {
            Made::Pg(g) if describe => r.and_then(|_| g.write_description(&Path::new(out).with_extension("states"))),
            Made::Ag(g) if describe => r.and_then(|_| g.write_description(&Path::new(out).with_extension("states"))),
            _ => r,
        };
        match r {
            Ok(()) => "written".into(),
            Err(e) => format!("write: {e}"),
        }
    }
}

fn make(which: &str, mode: &str, spec: &str) -> Result<Made, String> {
    let s = |e: &dyn std::fmt::Display| e.to_string();
    match (which, mode) {
        ("plain", "new" | "held") => plain::ParserGenerator::new(spec).map(Made::P).map_err(|e| s(&e)),
        ("aug", "new" | "held") => alalr1_lib::ParserGenerator::new(spec).map(Made::A).map_err(|e| s(&e)),
        _ => {
            let text = std::fs::read_to_string(spec).map_err(|e| s(&e))?;
            let flag = mode == "ignoring" || mode == "full";
            match (which, mode) {
                ("plain", "str") => plain::ParserGenerator::try_from(text.as_str()).map(Made::P).map_err(|e| s(&e)),
                ("aug", "str") => alalr1_lib::ParserGenerator::try_from(text.as_str()).map(Made::A).map_err(|e| s(&e)),
                ("plain", _) => {
                    let sp = plain::grammar::Specification::new(&text, "some label").map_err(|e| s(&e))?;
                    plain::grammar::Grammar::try_from((sp, flag, flag)).map(Made::Pg).map_err(|e| s(&e))
                }
                _ => {
                    let sp = alalr1_lib::grammar::Specification::new(&text, "some label").map_err(|e| s(&e))?;
                    alalr1_lib::grammar::Grammar::try_from((sp, flag, flag)).map(Made::Ag).map_err(|e| s(&e))
                }
            }
        }
    }
}

/// What reading a specification comes to.
fn parse(which: &str, spec: &str) -> String {
    let text = match std::fs::read_to_string(spec) {
        Ok(t) => t,
        Err(e) => return e.to_string(),
    };
    let unread = |e: &lexan::Location, what: &str| format!("{what} at {}:{}", e.line_number(), e.offset());
    macro_rules! told {
        ($r:expr, $e:ident) => {
            match $r {
                Ok(_) => "read".to_string(),
                Err($e::Error::SyntaxError(t, _)) => unread(t.location(), "refused"),
                Err($e::Error::LexicalError(lexan::Error::UnexpectedText(_, l), _)) => unread(&l, "no token"),
                Err(e) => e.to_string(),
            }
        };
    }
    match which {
        "plain" => told!(plain::grammar::Specification::new(&text, "l"), lalr1),
        _ => told!(alalr1_lib::grammar::Specification::new(&text, "l"), alalr1),
    }
}

fn one_line(s: &str) -> String {
    s.replace('\n', " / ")
}

pub fn run(plan: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(plan) else {
        eprintln!("no plan {plan}");
        return 3;
    };
    let mut threads: Vec<Vec<Vec<&str>>> = vec![];
    for l in text.lines() {
        if l == "thread" {
            threads.push(vec![]);
        } else if let Some(t) = threads.last_mut() {
            t.push(l.split('\t').collect());
        }
    }
    std::panic::set_hook(Box::new(|_| ()));
    let gate = Barrier::new(threads.len());
    std::thread::scope(|sc| {
        for (ti, steps) in threads.iter().enumerate() {
            let gate = &gate;
            sc.spawn(move || {
                gate.wait();
                let mut held: Vec<(usize, Made, &str)> = vec![];
                for (si, st) in steps.iter().enumerate() {
                    match st[..] {
                        ["put", from, to] => {
                            if let Err(e) = std::fs::copy(from, to) {
                                println!("{ti}.{si} put: {e}");
                            }
                        }
                        [which, "parse", spec, _] => {
                            let o = catch_unwind(AssertUnwindSafe(|| parse(which, spec))).unwrap_or("panicked".into());
                            println!("{ti}.{si} {o}");
                        }
                        [which, mode, spec, out] => {
                            let r = catch_unwind(AssertUnwindSafe(|| make(which, mode, spec)));
                            let o = match r {
                                Err(_) => "panicked".to_string(),
                                Ok(Err(e)) => format!("refused {}", one_line(&e)),
                                Ok(Ok(m)) if mode == "held" => {
                                    held.push((si, m, out));
                                    continue;
                                }
                                Ok(Ok(m)) => catch_unwind(AssertUnwindSafe(|| m.write(out, mode == "full"))).unwrap_or("panicked".into()),
                            };
                            println!("{ti}.{si} {o}");
                        }
                        _ => println!("{ti}.{si} bad plan"),
                    }
                }
                for (si, m, out) in held {
                    let o = catch_unwind(AssertUnwindSafe(|| m.write(out, false))).unwrap_or("panicked".into());
                    println!("{ti}.{si} {o}");
                }
            });
        }
    });
    0
}
