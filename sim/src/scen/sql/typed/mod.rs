//! C24: servers judge statements by their copies of a growing catalogue.
mod check;
mod eval;
mod make;
mod tree;

use super::{parser, Cx};
use crate::scen::json::{damage_text, show, Pipe};
use crate::scen::schema::{receive, send};
use cathlamet::sql::sim_hooks::ast::{typing, SqlStatement, Statement};
use cathlamet::sql::sim_hooks::schema::{Column, Database, RowSet, SchemaObject, Table, View};
use cathlamet::sql::sim_hooks::symbols::Name;
use cathlamet::sql::sim_hooks::types::DataType;
use check::{up, Catalogue, Col, Verdict};
use eval::{Data, Row, V};
use make::{pick, Maker, NAMES};
use simrt::{count, fail, fault_value, plan, plan_pct, plan_range};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use tree::{spell, K, KINDS, St};

pub const ILL_ACCEPTED: &str = "ill-typed-statement-accepted";
pub const WELL_REJECTED: &str = "well-typed-statement-rejected";
pub const OTHER_COLUMNS: &str = "result-columns-differ";
pub const PANICS: &str = "typing-panics";
pub const MISFIT: &str = "value-outside-its-type";
pub const DEPENDS: &str = "verdict-depends-on-something-else";

const HOME: &str = "Main";
const SCHEMATA: &[&str] = &["s", "T", "aux", "mai", "x"];
const TABLES: &[&str] = &["t", "u", "V", "w", "a", "tt", "t_", "Wide", "x"];

#[derive(Clone, Debug)]
enum Entry {
    Schema(String),
    Object { schema: String, name: String, cols: Vec<Col>, view: bool },
}

fn data_type(k: K) -> DataType {
    match k {
        K::Any => DataType::Generic,
        K::Text => DataType::Varchar,
        K::Number => DataType::Numeric,
        K::Truth => DataType::Logical,
        K::Date => DataType::Date,
        K::Time => DataType::Time,
        K::Stamp => DataType::Timestamp,
        K::Shape => DataType::Geometry,
    }
}

fn kind(t: DataType) -> K {
    match t {
        DataType::Generic => K::Any,
        DataType::Varchar => K::Text,
        DataType::Numeric => K::Number,
        DataType::Logical => K::Truth,
        DataType::Date => K::Date,
        DataType::Time => K::Time,
        DataType::Timestamp => K::Stamp,
        DataType::Geometry => K::Shape,
    }
}

/// What is defined, in the order in which it happened.
fn history() -> Vec<Entry> {
    let mut v = vec![Entry::Schema(HOME.into())];
    let mut schemata = vec![HOME.to_string()];
    let mut taken: Vec<(String, String)> = Vec::new();
    // few kinds: more that fits; few names: more to take for one another
    let kinds: Vec<K> = (0..plan_range(1, 7)).map(|_| pick(KINDS)).collect();
    let names = &NAMES[..plan_range(2, NAMES.len() as u64) as usize];
    let nullable = [0, 30, 100][plan(3) as usize];
    let n = plan_range(2, 9);
    while (v.len() as u64) < n || taken.is_empty() {
        if plan_pct(25) && schemata.len() <= SCHEMATA.len() {
            let s = pick(SCHEMATA).to_string();
            if !schemata.contains(&s) {
                schemata.push(s.clone());
                v.push(Entry::Schema(s));
            }
            continue;
        }
        let schema = if plan_pct(60) { HOME.to_string() } else { pick(&schemata) };
        let name = pick(TABLES).to_string();
        if taken.contains(&(schema.clone(), up(&name))) {
            continue;
        }
        taken.push((schema.clone(), up(&name)));
        let mut cols: Vec<Col> = Vec::new();
        for _ in 0..if plan_pct(20) { 1 } else { plan_range(1, 5) } {
            let c = pick(names);
            if !cols.iter().any(|x| up(x.name.as_ref().unwrap()) == up(c)) {
                let k = if plan_pct(1) { K::Any } else { pick(&kinds) };
                cols.push(Col { name: Some(super::catalog::respell(c)), kind: k, null: plan_pct(nullable) });
            }
        }
        v.push(Entry::Object { schema, name: super::catalog::respell(&name), cols, view: plan_pct(15) });
    }
    v
}

fn catalogue(h: &[Entry]) -> Catalogue {
    let mut c = Catalogue { tables: BTreeMap::new(), home: HOME.into() };
    for e in h {
        if let Entry::Object { schema, name, cols, .. } = e {
            c.tables.insert((up(schema), up(name)), cols.clone());
        }
    }
    c
}

fn apply(db: &mut Database, e: &Entry) {
    match e {
        Entry::Schema(s) => drop(db.create_schema(&Name::from(s.as_str()))),
        Entry::Object { schema, name, cols, view } => {
            let columns = cols
                .iter()
                .enumerate()
                .map(|(i, c)| Column {
                    name: Name::from(c.name.as_ref().unwrap().as_str()),
                    not_null: !c.null,
                    primary_key: i == 0 && !c.null,
                    data_type: data_type(c.kind),
                })
                .collect();
            let rows = RowSet { columns };
            let name = Name::from(name.as_str());
            let object = if *view {
                SchemaObject::View(View { name: name.clone(), rows, query: String::new() })
            } else {
                SchemaObject::Table(Table { name: name.clone(), rows, primary_key: Vec::new() })
            };
            if let Some(s) = db.schemata.get_mut(&Name::from(schema.as_str())) {
                s.objects.insert(name, object);
            }
        }
    }
}

/// How the system judges a statement.
#[derive(Clone, Debug, PartialEq)]
enum Real {
    Rejected(String),
    /// the columns of a result
    Fits(Option<Vec<(String, K, bool)>>),
}

fn judge(st: &SqlStatement, cx: &typing::SetContext) -> Result<Real, String> {
    simrt::catch(|| {
        if let Err(e) = st.validate_type(cx) {
            return Real::Rejected(format!("{}", e));
        }
        let s = match st {
            SqlStatement::Statement(s) | SqlStatement::ExplainQueryPlan(s) => s,
            _ => return Real::Fits(None),
        };
        match s {
            Statement::Select(s) => match typing::sim_hooks::columns(s, cx) {
                Ok(c) => Real::Fits(Some(c.into_iter().map(|(n, t, null)| (n.as_str().to_string(), kind(t), null)).collect())),
                // it was accepted all the same
                Err(_) => Real::Fits(None),
            },
            _ => Real::Fits(None),
        }
    })
}

struct Asked {
    st: St,
    /// every word of one spelling, in upper case
    words: Vec<String>,
}

#[derive(Default)]
struct Shared {
    history: Vec<Entry>,
    asked: Vec<Asked>,
    /// what was said about a statement, given the tables it may name
    known: HashMap<(usize, String), Result<Option<Vec<(K, bool)>>, ()>>,
    /// the same for texts
    texts: HashMap<(String, usize), Real>,
}

/// A copy of the catalogue.
struct Server {
    version: Cell<usize>,
    db: RefCell<Database>,
}

impl Server {
    fn catch_up(&self, h: &[Entry], to: usize) {
        while self.version.get() < to {
            apply(&mut self.db.borrow_mut(), &h[self.version.get()]);
            self.version.set(self.version.get() + 1);
        }
    }
    /// A new process that reads what it knew before, in some order.
    fn restart(&self, h: &[Entry]) {
        count("fault.restart");
        let mut order: Vec<&Entry> = h[..self.version.get()].iter().collect();
        for i in (1..order.len()).rev() {
            order.swap(i, fault_value(i as u64 + 1) as usize);
        }
        order.sort_by_key(|e| matches!(e, Entry::Object { .. }));
        let mut db = Database::new();
        order.iter().for_each(|e| apply(&mut db, e));
        *self.db.borrow_mut() = db;
    }
}

pub fn run(cx: &Cx) {
    let history = history();
    let first = (1..=history.len()).find(|n| matches!(history[n - 1], Entry::Object { .. })).unwrap();
    let slips = [0, 0, 12, 25, 60][plan(5) as usize];
    let budget = if plan_pct(5) { if cx.thorough { 300 } else { 120 } } else { plan_range(5, 60) as i64 };
    let n = plan_range(1, 6) as usize;
    let asked: Vec<Asked> = (0..n)
        .map(|_| {
            // clients may know more or less than a server
            let v = plan_range(first as u64, history.len() as u64) as usize;
            let cat = catalogue(&history[..v]);
            let st = Maker { cat: &cat, slips, budget }.statement();
            let words = spell(&st, false).iter().map(|w| up(w)).collect();
            Asked { st, words }
        })
        .collect();
    let shared = Rc::new(RefCell::new(Shared { history: history.clone(), asked, ..Shared::default() }));
    let servers: Vec<Rc<Server>> = (0..plan_range(1, 3))
        .map(|_| {
            let s = Server { version: Cell::new(0), db: RefCell::new(Database::new()) };
            s.catch_up(&history, if plan_pct(40) { history.len() } else { first });
            Rc::new(s)
        })
        .collect();
    for (k, s) in servers.iter().enumerate() {
        let (s, h) = (s.clone(), history.clone());
        simrt::spawn(format!("replicator{}", k), move || {
            while s.version.get() < h.len() {
                simrt::block_on(simrt::sleep(1 + fault_value(200_000)));
                count("fault.late_catalogue");
                s.catch_up(&h, s.version.get() + 1);
            }
        });
    }
    for k in 0..plan_range(1, 3) as usize {
        // (statement, server, spelling): any may come again, to any server
        let mut sent: Vec<(usize, usize, String, bool)> = Vec::new();
        let one = |i: usize| {
            let words = spell(&shared.borrow().asked[i].st, plan_pct(10));
            (i, plan(servers.len() as u64) as usize, super::write::laid_out(&words), plan_pct(8))
        };
        for i in 0..n {
            sent.push(one(i));
            while fault_value(4) == 1 {
                count("fault.repeated");
                sent.push(one(i));
            }
        }
        for i in (1..sent.len()).rev() {
            if fault_value(3) == 1 {
                count("fault.out_of_order");
                sent.swap(i, fault_value(i as u64 + 1) as usize);
            }
        }
        let piece = [5, 60, 4000][plan(3) as usize].max(sent.iter().map(|s| s.2.len()).max().unwrap_or(0) as u64 / 30);
        let pipes: Rc<Vec<Pipe>> = Rc::new((0..sent.len()).map(|_| Pipe::default()).collect());
        let (p2, s2) = (pipes.clone(), sent.clone());
        simrt::spawn(format!("client{}", k), move || {
            for (p, (i, _, text, damaged)) in p2.iter().zip(&s2) {
                let mut b = text.clone().into_bytes();
                if *damaged {
                    b = damage_text(b, s2[(i + 1) % s2.len()].2.as_bytes(), super::MARKS, super::LETTERS);
                }
                send(p, &b, piece);
                simrt::preempt("client");
            }
        });
        let (servers, shared, history) = (servers.clone(), shared.clone(), history.clone());
        simrt::spawn(format!("connection{}", k), move || {
            for (p, (i, server, _, damaged)) in pipes.iter().zip(&sent) {
                let b = receive(p);
                if !serve(&servers[*server], &shared, *i, *damaged, &b) {
                    return;
                }
                if simrt::fault(25, 2) == 1 {
                    servers[*server].restart(&history);
                }
            }
        });
    }
}

fn serve(server: &Server, shared: &Rc<RefCell<Shared>>, i: usize, damaged: bool, b: &[u8]) -> bool {
    let text = match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(_) => return true,
    };
    count("op.judge");
    let st = match simrt::catch(|| parser().parse(text).map_err(|e| format!("{}", e))) {
        Ok(Ok(st)) => st,
        // how texts are parsed is the other property's business
        _ => {
            count(if damaged { "probe.no_statement_any_more" } else { "probe.not_parsed" });
            return true;
        }
    };
    let version = server.version.get();
    let context = simrt::catch(|| typing::sim_hooks::context(&server.db.borrow(), Name::from(HOME)));
    let context = match context {
        Ok(c) => c,
        Err(e) => {
            fail(PANICS, format!("no context at {}: {}", version, e));
            return false;
        }
    };
    // the catalogue goes on, the context does not
    simrt::preempt("judge");
    let real = match judge(&st, &context) {
        Ok(r) => r,
        Err(e) => {
            fail(PANICS, format!("{} at catalogue {}: {}", show(b), version, e));
            return false;
        }
    };
    simrt::log(|| format!("{} at catalogue {}: {:?}", text, version, real));
    simrt::event("judged", version as u64, matches!(real, Real::Fits(_)) as u64);
    if let Real::Fits(Some(c)) = &real {
        if (1..c.len()).any(|i| c[..i].iter().any(|x| up(&x.0) == up(&c[i].0))) {
            fail(OTHER_COLUMNS, format!("{} at catalogue {} has two columns of one name: {:?}", show(b), version, c));
            return false;
        }
    }
    let shared = &mut *shared.borrow_mut();
    let before = shared.texts.entry((text.to_string(), version)).or_insert_with(|| real.clone());
    if *before != real {
        fail(DEPENDS, format!("{} at catalogue {}: {:?}, and before {:?}", show(b), version, real, before));
        return false;
    }
    if damaged {
        count("probe.damaged");
        return true;
    }
    intact(shared, i, version, text, real)
}

fn intact(shared: &mut Shared, i: usize, version: usize, text: &str, real: Real) -> bool {
    let cat = catalogue(&shared.history[..version]);
    let st = &shared.asked[i].st;
    // only the tables that are mentioned matter
    let words = &shared.asked[i].words;
    let tables: Vec<_> = cat.tables.iter().filter(|(k, _)| words.contains(&k.1)).collect();
    let plainly = match &real {
        Real::Rejected(_) => Err(()),
        Real::Fits(c) => Ok(c.as_ref().map(|c| c.iter().map(|c| (c.1, c.2)).collect::<Vec<_>>())),
    };
    let key = (i, format!("{:?}", tables));
    match shared.known.get(&key) {
        Some(k) if *k != plainly => {
            fail(DEPENDS, format!("{} at catalogue {}: {:?}, and before {:?}, with the same tables", text, version, plainly, k));
            return false;
        }
        Some(_) => count("probe.judged_again"),
        None => drop(shared.known.insert(key, plainly)),
    }
    let mut v = Verdict::default();
    let cols = v.statement(st, &cat);
    if let Some(why) = &v.wrong {
        count("probe.wrong");
        count("nontrivial");
        if let Real::Fits(_) = real {
            fail(ILL_ACCEPTED, format!("{} at catalogue {} was accepted: {}; {:?}", text, version, why, tables));
            return false;
        }
        return true;
    }
    if let (None, Some(cols)) = (v.open, &cols) {
        count("probe.right");
        match &real {
            Real::Rejected(e) => {
                fail(WELL_REJECTED, format!("{} at catalogue {} was rejected: {}; {:?}", text, version, e, tables));
                return false;
            }
            Real::Fits(None) => {}
            Real::Fits(Some(c)) => {
                let same = c.len() == cols.len()
                    && c.iter().zip(cols).all(|(c, w)| {
                        let name = w.known().map_or(true, |n| up(n) == up(&c.0));
                        name && c.1 == w.kind && (!c.2 || w.null)
                    });
                if !same {
                    fail(OTHER_COLUMNS, format!("{} at catalogue {}: {:?} instead of {:?}; {:?}", text, version, c, cols, tables));
                    return false;
                }
            }
        }
    } else {
        count("probe.open");
        simrt::log(|| format!("open: {:?}", v.open));
    }
    match real {
        Real::Fits(c) => evaluate(&cat, st, c, text, version),
        _ => true,
    }
}

/// What is accepted keeps its promises about values.
fn evaluate(cat: &Catalogue, st: &St, cols: Option<Vec<(String, K, bool)>>, text: &str, version: usize) -> bool {
    for _ in 0..2 {
        let mut rows: BTreeMap<(String, String), Vec<Row>> = BTreeMap::new();
        for (k, cols) in &cat.tables {
            let n = [0, 1, 2, 4][plan(4) as usize];
            let row = |_| -> Row {
                let value = |c: &Col| V::One(c.kind, if c.null && plan_pct(40) { None } else { Some(plan(4) as u8) });
                cols.iter().map(value).collect()
            };
            rows.insert(k.clone(), (0..n).map(row).collect());
        }
        let data = Data { cat, rows: &rows };
        match (st, &cols) {
            (St::Select(q), Some(cols)) => {
                let got = match eval::rows(q, &data) {
                    Ok(r) => r,
                    Err(()) => {
                        count("probe.not_evaluated");
                        return true;
                    }
                };
                count("op.evaluate");
                for r in &got {
                    if r.len() != cols.len() || !r.iter().zip(cols).all(|(v, c)| eval::fits(v, c.1, c.2)) {
                        fail(MISFIT, format!("{} at catalogue {} is said to return {:?} but returns {:?} from {:?}", text, version, cols, r, rows));
                        return false;
                    }
                }
                if !got.is_empty() {
                    count("probe.rows_fit");
                    count("nontrivial");
                }
            }
            _ => match eval::stored(st, &data) {
                Err(()) => {
                    count("probe.not_evaluated");
                    return true;
                }
                Ok(v) => {
                    for (c, v) in v {
                        if !eval::fits(&v, c.kind, c.null) {
                            fail(MISFIT, format!("{} at catalogue {} stores {:?} in {:?} given {:?}", text, version, v, c, rows));
                            return false;
                        }
                        count("probe.stored_fits");
                    }
                }
            },
        }
    }
    true
}
