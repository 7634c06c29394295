//! C23, C25: clients send SQL statements to servers over a transport that
//! cuts, delays, repeats, swaps or damages them; servers parse them and keep
//! a catalogue of what they name.
mod catalog;
mod dump;
mod form;
mod reference;
mod typed;
mod write;

use super::json::{damage_text, show, Pipe};
use super::schema::{receive, send};
use super::Cx;
use cathlamet::sql::sim_hooks::parser::SqlStatementParser;
use simrt::{count, fail, fault_value, plan, plan_pct, plan_range, Outcome};
use std::rc::Rc;

pub const REFUSED: &str = "good-statement-rejected";
pub const OTHER_TREE: &str = "statement-parsed-to-another-tree";
pub const ACCEPTED: &str = "damaged-statement-accepted";
pub const POISONED: &str = "parser-remembers-rejected-statement";
pub const STUCK: &str = "sql-stuck";
pub use typed::{DEPENDS, ILL_ACCEPTED, MISFIT, OTHER_COLUMNS, PANICS, WELL_REJECTED};
pub use catalog::{LOST_NAME, NAME_ORDER, OTHER_OBJECT, TWICE};

const MARKS: &[u8] = b"(),.*=<'; \n";
const LETTERS: &[u8] = b"(),.*/+-=!<>|'\"; \t\nabcdefghilmnorstuwxyABCEFILNOSTX_0123456789;:%\x00\x0b\x7f";

thread_local! {
    // building the lexer's tables takes as long as many runs; nothing in them changes
    static PARSER: Rc<SqlStatementParser> = Rc::new(SqlStatementParser::new());
}

fn parser() -> Rc<SqlStatementParser> {
    PARSER.with(|p| p.clone())
}

pub fn parse(p: &SqlStatementParser, text: &str) -> Result<Result<String, String>, String> {
    simrt::catch(|| match p.parse(text) {
        Ok(s) => Ok(dump::statement(&s)),
        Err(e) => Err(format!("{}", e)),
    })
}

#[derive(Clone)]
struct Sent {
    text: String,
    tree: String,
    damaged: bool,
}

fn gen_statement(cx: &Cx) -> (String, String) {
    let mut w = write::W::new(if plan_pct(3) { if cx.thorough { 900 } else { 300 } } else { plan_range(0, 45) as i64 });
    let tree = w.statement();
    (write::laid_out(&w.words), tree)
}

pub fn run(cx: &Cx) {
    simrt::seed_entropy(simrt::plan_u64());
    match cx.property {
        "C24" => typed::run(cx),
        "C25" => catalog::run(cx),
        _ => statements(cx),
    }
    match simrt::run_tasks() {
        Outcome::Done | Outcome::Halted => {}
        Outcome::Stuck(_) => fail(STUCK, "tasks never finish".into()),
    }
}

fn statements(cx: &Cx) {
    let parser = parser();
    for k in 0..plan_range(1, 3) {
        let n = plan_range(1, 5) as usize;
        let sent: Vec<Sent> = (0..n)
            .map(|_| {
                let (text, tree) = gen_statement(cx);
                Sent { text, tree, damaged: plan_pct(60) }
            })
            .collect();
        let piece = [1, 5, 60, 4000][plan(4) as usize].max(sent.iter().map(|s| s.text.len()).max().unwrap_or(0) as u64 / 40);
        // every statement has a connection of its own and may come more than once
        let mut order: Vec<usize> = (0..n).collect();
        for i in 0..n {
            if fault_value(4) == 1 {
                count("fault.repeated");
                order.push(i);
            }
        }
        for i in (1..order.len()).rev() {
            if fault_value(3) == 1 {
                count("fault.out_of_order");
                order.swap(i, fault_value(i as u64 + 1) as usize);
            }
        }
        let pipes: Rc<Vec<Pipe>> = Rc::new((0..order.len()).map(|_| Pipe::default()).collect());
        let (p2, s2, o2) = (pipes.clone(), sent.clone(), order.clone());
        simrt::spawn(format!("client{}", k), move || {
            for (p, i) in p2.iter().zip(o2) {
                let mut b = s2[i].text.clone().into_bytes();
                if s2[i].damaged {
                    let j = (i + 1) % s2.len();
                    b = damage_text(b, s2[j].text.as_bytes(), MARKS, LETTERS);
                }
                send(p, &b, piece);
                simrt::preempt("client");
            }
        });
        let q = parser.clone();
        simrt::spawn(format!("server{}", k), move || {
            let mut rejected = false;
            for (p, i) in pipes.iter().zip(order) {
                if !serve(&q, &receive(p), &sent[i], &mut rejected) {
                    return;
                }
            }
        });
    }
}

fn serve(parser: &SqlStatementParser, b: &[u8], sent: &Sent, rejected: &mut bool) -> bool {
    let text = match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(_) => {
            count("probe.not_utf8_any_more");
            return true;
        }
    };
    simrt::log(|| format!("received {}", show(b)));
    count("op.parse");
    let real = match parse(parser, text) {
        Ok(r) => r,
        Err(e) => {
            fail(if sent.damaged { ACCEPTED } else { REFUSED }, format!("the parser panicked on {}: {}", show(b), e));
            return false;
        }
    };
    if !sent.damaged {
        count("probe.intact_statement");
        if *rejected {
            count("probe.good_after_rejected");
        }
        match real {
            Ok(t) if t == sent.tree => {}
            Ok(t) => {
                fail(OTHER_TREE, format!("{} was parsed to {} instead of {}", show(b), t, sent.tree));
                return false;
            }
            Err(e) => {
                fail(if *rejected { POISONED } else { REFUSED }, format!("{} was rejected: {}", show(b), e));
                return false;
            }
        }
        return true;
    }
    // these two are letters of keywords to a comparison without regard to case
    if text.contains(['\u{17f}', '\u{212a}']) {
        return true;
    }
    match (real, reference::spelled(text)) {
        (Err(_), None) => {
            *rejected = true;
            count("probe.rejected");
            count("nontrivial");
        }
        (Ok(t), None) => {
            fail(ACCEPTED, format!("{} was accepted as {}", show(b), t));
            return false;
        }
        (Ok(t), Some(w)) => {
            if t != w {
                fail(OTHER_TREE, format!("{} was parsed to {} instead of {}", show(b), t, w));
                return false;
            }
            count("probe.damaged_but_well_formed");
            if w != sent.tree {
                count("nontrivial");
                count("probe.accepted_with_other_meaning");
            }
        }
        (Err(e), Some(_)) => {
            // only plain blanks are sure to be blanks
            let plain = !text.chars().any(|c| c.is_whitespace() && !" \t\r\n".contains(c));
            if plain {
                fail(REFUSED, format!("{} is a statement but was rejected: {}", show(b), e));
                return false;
            }
        }
    }
    true
}
