//! C25: one catalogue, many spellings.
use super::write::ident;
use super::{parser, Cx};
use crate::scen::json::{damage_text, show, Pipe};
use crate::scen::schema::{receive, send};
use cathlamet::sql::sim_hooks::ast::SqlStatement;
use cathlamet::sql::sim_hooks::schema::{Column, Database, RowSet, SchemaObject, Table};
use cathlamet::sql::sim_hooks::symbols::Name;
use cathlamet::sql::sim_hooks::types::DataType;
use simrt::{count, fail, fault_value, plan, plan_pct, plan_range};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const TWICE: &str = "object-created-twice";
pub const LOST_NAME: &str = "object-not-found-under-its-name";
pub const OTHER_OBJECT: &str = "name-denotes-another-object";
pub const NAME_ORDER: &str = "names-compare-inconsistently";

const HOME: &str = "Main";

/// Letters beyond ASCII that have one letter in the other case.
const FOREIGN: &str = "\u{e9}\u{f1}\u{e5}\u{436}\u{44f}\u{3b4}\u{3c9}\u{105}\u{153}\u{10428}";

fn upper(s: &str) -> String {
    s.to_uppercase()
}

fn letter(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || FOREIGN.contains(c) || upper(FOREIGN).contains(c)
}

pub fn respell(s: &str) -> String {
    match plan(5) {
        0 => s.to_string(),
        1 => upper(s),
        2 => s.to_lowercase(),
        _ => s.chars().map(|c| if plan(2) == 1 { upper(&c.to_string()) } else { c.to_lowercase().to_string() }).collect(),
    }
}

/// Names that are easily taken for one another.
fn vocabulary(foreign: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![HOME.into()];
    let n = plan_range(2, 14);
    while (v.len() as u64) < n {
        let old = v[plan(v.len() as u64) as usize].clone();
        let x = match plan(if foreign { 9 } else { 7 }) {
            7 => format!("{}{}", old, FOREIGN.chars().nth(plan(10) as usize).unwrap()),
            8 => format!("{}{}", FOREIGN.chars().nth(plan(10) as usize).unwrap(), old),
            0 => format!("{}_", old),
            1 => format!("{}{}", old, plan(11)),
            2 => format!("_{}", old),
            3 => format!("{}{}", old, (b'A' + plan(26) as u8) as char),
            4 if old.len() > 1 && old.is_ascii() => old[..old.len() - 1].to_string(),
            5 => old.chars().rev().collect(),
            _ => ident(),
        };
        let keyword = super::reference::KEYWORDS.iter().any(|k| k.eq_ignore_ascii_case(&x));
        if !keyword && !x.starts_with(|c: char| c.is_ascii_digit()) && !v.iter().any(|y| upper(y) == upper(&x)) {
            v.push(x);
        } else if plan_pct(10) {
            v.push(ident());
        }
    }
    v
}

/// What the server knows, beside what it should know.
struct Server {
    db: Database,
    /// schema -> (first spelling, object -> (first spelling, mark))
    model: BTreeMap<String, (String, BTreeMap<String, (String, String)>)>,
    journal: Vec<(String, Option<(String, String)>)>,
    seen: Vec<String>,
}

fn columns(mark: &str) -> RowSet {
    let c = |name: &str, data_type| Column { name: Name::from(name), not_null: true, primary_key: false, data_type };
    let mut r = RowSet::meta_data();
    r.columns.push(c(mark, DataType::Numeric));
    r
}

fn mark_of(r: &RowSet) -> String {
    r.columns.last().map_or(String::new(), |c| c.name.as_str().to_string())
}

impl Server {
    fn new() -> Self {
        Server { db: Database::new(), model: BTreeMap::new(), journal: Vec::new(), seen: Vec::new() }
    }

    fn create(&mut self, schema: &str) -> bool {
        count("op.create_schema");
        let known = self.model.get(&schema.to_uppercase()).map(|x| x.0.clone());
        let r = self.db.create_schema(&Name::from(schema));
        match (r.is_ok(), known) {
            (true, None) => {
                self.model.insert(schema.to_uppercase(), (schema.into(), BTreeMap::new()));
                self.journal.push((schema.into(), None));
            }
            (false, Some(x)) => {
                count("probe.known_already");
                if x != schema {
                    count("nontrivial");
                }
            }
            (true, Some(x)) => {
                fail(TWICE, format!("schema {} was created although {} exists", schema, x));
                return false;
            }
            (false, None) => {
                fail(OTHER_OBJECT, format!("schema {} cannot be created as if it existed; there are {:?}", schema, self.model.keys()));
                return false;
            }
        }
        true
    }

    fn attach(&mut self, schema: &str, object: &str, mark: &str) -> bool {
        count("op.attach");
        let want = self.model.get_mut(&schema.to_uppercase());
        match (self.db.schemata.get_mut(&Name::from(schema)), want) {
            (None, None) => count("probe.no_such_schema"),
            (Some(x), None) => {
                fail(OTHER_OBJECT, format!("schema {} was never created but {} was found for it", schema, x.name));
                return false;
            }
            (None, Some(w)) => {
                fail(LOST_NAME, format!("schema {} is not found as {}", w.0, schema));
                return false;
            }
            (Some(x), Some(w)) => {
                if x.name.as_str() != w.0 {
                    fail(OTHER_OBJECT, format!("schema {} is {} instead of {}", schema, x.name, w.0));
                    return false;
                }
                if w.0 != schema {
                    count("nontrivial");
                }
                let name = Name::from(object);
                let here = x.objects.contains_key(&name);
                let known = w.1.contains_key(&object.to_uppercase());
                if here != known {
                    let class = if here { OTHER_OBJECT } else { LOST_NAME };
                    fail(class, format!("{}.{} is {} but should {}", schema, object, if here { "there" } else { "not there" }, if known { "be" } else { "not" }));
                    return false;
                }
                if here {
                    count("probe.known_already");
                } else {
                    x.objects.insert(name.clone(), SchemaObject::Table(Table { name, rows: columns(mark), primary_key: Vec::new() }));
                    w.1.insert(object.to_uppercase(), (object.into(), mark.into()));
                    self.journal.push((schema.into(), Some((object.into(), mark.into()))));
                }
            }
        }
        true
    }

    fn describe(&self, schema: &str, object: &str) -> bool {
        count("op.describe");
        let want = self.model.get(&schema.to_uppercase()).and_then(|s| s.1.get(&object.to_uppercase()));
        match (self.db.describe(&Name::from(schema), &Name::from(object)), want) {
            (Err(_), None) => count("probe.no_such_object"),
            (Ok(r), Some(w)) if mark_of(&r) == w.1 && r.columns.len() == 5 => {
                if w.0 != object {
                    count("nontrivial");
                }
            }
            (Ok(r), Some(w)) => {
                fail(OTHER_OBJECT, format!("{}.{} is described by {} instead of {}", schema, object, mark_of(&r), w.1));
                return false;
            }
            (Ok(r), None) => {
                fail(OTHER_OBJECT, format!("{}.{} was never attached but is described by {}", schema, object, mark_of(&r)));
                return false;
            }
            (Err(e), Some(w)) => {
                fail(LOST_NAME, format!("{}.{}, attached as {}, is not found: {}", schema, object, w.0, e));
                return false;
            }
        }
        true
    }

    /// A new process that knows what was written in the journal, in some order.
    fn restart(&mut self) -> bool {
        count("fault.restart");
        let mut j = std::mem::take(&mut self.journal);
        self.db = Database::new();
        self.model.clear();
        for i in (1..j.len()).rev() {
            j.swap(i, fault_value(i as u64 + 1) as usize);
        }
        // schemata first: attaching needs them
        let (schemata, objects): (Vec<_>, Vec<_>) = j.into_iter().partition(|x| x.1.is_none());
        schemata.iter().all(|(s, _)| self.create(s)) && objects.iter().all(|(s, o)| self.attach(s, &o.as_ref().unwrap().0, &o.as_ref().unwrap().1))
    }

    fn all_found(&self) -> bool {
        if self.db.schemata.len() != self.model.len() {
            fail(TWICE, format!("{} schemata instead of {}", self.db.schemata.len(), self.model.len()));
            return false;
        }
        for (_, (schema, objects)) in &self.model {
            for (_, (object, _)) in objects {
                if !self.describe(&respell(schema), &respell(object)) {
                    return false;
                }
            }
        }
        true
    }

    /// Comparisons of names have to fit together, or no map of names works.
    fn consistent(&self) -> bool {
        if self.seen.is_empty() {
            return true;
        }
        let mut pick = || Name::from(respell(&self.seen[plan(self.seen.len() as u64) as usize]).as_str());
        let (a, b, c) = (pick(), pick(), pick());
        count("op.compare");
        let same = upper(a.as_str()) == upper(b.as_str());
        let ab = a.cmp(&b);
        let what = if (a == b) != same {
            "equality"
        } else if (ab == Ordering::Equal) != same {
            "order against equality"
        } else if b.cmp(&a) != ab.reverse() || (b == a) != same {
            "symmetry"
        } else if a.partial_cmp(&b) != Some(ab) {
            "partial order"
        } else if (a == *b.as_str()) != same || a.partial_cmp(b.as_str()) != Some(ab) {
            "comparison with a plain string"
        } else if ab == b.cmp(&c) && ab != Ordering::Equal && a.cmp(&c) != ab {
            "transitivity"
        } else if a.to_string() != a.as_str() {
            "spelling"
        } else {
            return true;
        };
        fail(NAME_ORDER, format!("{} of {}, {} and {}", what, a, b, c));
        false
    }
}

pub fn run(_cx: &Cx) {
    let foreign = plan_pct(30);
    let names = Rc::new(vocabulary(foreign));
    let server = Rc::new(RefCell::new(Server::new()));
    server.borrow_mut().seen = names.to_vec();
    server.borrow_mut().create(HOME);
    let parser = parser();
    for k in 0..plan_range(1, 4) {
        let n = plan_range(1, 14) as usize;
        let some = |names: &Vec<String>| respell(&names[plan(names.len() as u64) as usize]);
        let mut asked: Vec<String> = (0..n)
            .map(|i| {
                let (schema, object) = (some(&names), some(&names));
                let full = if plan_pct(80) { format!("{}.{}", schema, object) } else { object };
                match plan(if foreign { 14 } else { 10 }) {
                    10 | 11 => format!("!{}", full),
                    12 | 13 => format!("?{}", full),
                    0..=2 => format!("+{}", schema),
                    3..=5 => format!("ATTACH FILE 'm{}_{}' AS {}", k, i, full),
                    _ => format!("{} {}", respell("DESCRIBE"), full),
                }
            })
            .collect();
        // requests may come again, later
        for i in 0..n {
            if fault_value(5) == 1 {
                count("fault.repeated");
                let x = asked[i].clone();
                asked.push(x);
            }
        }
        let damaged: Vec<bool> = asked.iter().map(|_| plan_pct(10)).collect();
        let piece = [3, 20, 400][plan(3) as usize];
        let pipes: Rc<Vec<Pipe>> = Rc::new((0..asked.len()).map(|_| Pipe::default()).collect());
        let p2 = pipes.clone();
        simrt::spawn(format!("client{}", k), move || {
            for ((p, text), bad) in p2.iter().zip(&asked).zip(damaged) {
                let mut b = text.clone().into_bytes();
                if bad {
                    b = damage_text(b, b"DESCRIBE a.b", b" .'", b"abAB_01.' ");
                }
                send(p, &b, piece);
                simrt::preempt("client");
            }
        });
        let (s, q) = (server.clone(), parser.clone());
        simrt::spawn(format!("connection{}", k), move || {
            for p in pipes.iter() {
                let b = receive(p);
                let mut s = s.borrow_mut();
                if !request(&mut s, &q, &b) || !s.consistent() {
                    return;
                }
                if simrt::fault(25, 2) == 1 && !(s.restart() && s.all_found()) {
                    return;
                }
            }
            s.borrow().all_found();
        });
    }
}

fn request(s: &mut Server, q: &cathlamet::sql::sim_hooks::parser::SqlStatementParser, b: &[u8]) -> bool {
    let text = match std::str::from_utf8(b) {
        Ok(t) => t,
        Err(_) => return true,
    };
    simrt::log(|| format!("request {}", show(b)));
    if let Some(name) = text.strip_prefix('+') {
        if name.is_empty() || !name.chars().all(letter) {
            return true;
        }
        return s.create(name);
    }
    // the grammar of SQL knows ASCII letters only, the catalogue more
    if let Some(name) = text.strip_prefix(['!', '?']) {
        let (schema, object) = name.split_once('.').unwrap_or((HOME, name));
        if schema.is_empty() || object.is_empty() || !schema.chars().chain(object.chars()).all(letter) {
            return true;
        }
        if !name.is_ascii() {
            count("probe.beyond_ascii");
        }
        return if text.starts_with('?') { s.describe(schema, object) } else { s.attach(schema, object, &format!("m{}", s.journal.len())) };
    }
    let parsed = match simrt::catch(|| q.parse(text).map_err(|e| format!("{}", e))) {
        Ok(r) => r,
        Err(e) => {
            fail(super::REFUSED, format!("the parser panicked on {}: {}", show(b), e));
            return false;
        }
    };
    match parsed {
        // what a damaged text means is the other property's business
        Err(_) => true,
        Ok(SqlStatement::Attach(a)) => {
            let schema = a.schema_name().map_or(HOME.to_string(), |n| n.as_str().to_string());
            s.attach(&schema, a.table_name().as_str(), &a.path)
        }
        Ok(SqlStatement::Describe(d)) => {
            let schema = d.schema_name().map_or(HOME.to_string(), |n| n.as_str().to_string());
            s.describe(&schema, d.table_name().as_str())
        }
        Ok(_) => true,
    }
}
