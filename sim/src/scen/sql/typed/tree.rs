//! Statements as the clients think of them, and how they are spelled.
use super::super::write::cased;
use simrt::{plan, plan_pct};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum K {
    Any,
    Text,
    Number,
    Truth,
    Date,
    Time,
    Stamp,
    Shape,
}

pub const KINDS: &[K] = &[K::Text, K::Number, K::Truth, K::Date, K::Time, K::Stamp, K::Shape];

impl K {
    pub fn ordered(self) -> bool {
        !matches!(self, K::Any | K::Truth | K::Shape)
    }
}

/// Schema and table, or relation and column.
pub type Path = (Option<String>, String);

#[derive(Clone, Debug)]
pub enum E {
    Lit(K, String),
    Col(Path),
    Tuple(Vec<E>),
    Neg(Box<E>),
    Not(Box<E>),
    IsNull(Box<E>),
    Calc(&'static str, Box<E>, Box<E>),
    Cmp(&'static str, Box<E>, Box<E>),
    Between(Box<E>, Box<E>, Box<E>),
    Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
    In(Box<E>, Set),
    Query(Box<Q>),
}

#[derive(Clone, Debug)]
pub enum Set {
    List(Vec<E>),
    Query(Box<Q>),
    Table(Path),
}

#[derive(Clone, Debug)]
pub struct Q {
    pub with: Vec<Cte>,
    pub body: Body,
    pub order: Vec<E>,
    pub limit: Option<(E, Option<E>)>,
}

#[derive(Clone, Debug)]
pub struct Cte {
    pub name: String,
    pub columns: Option<Vec<String>>,
    pub query: Q,
}

#[derive(Clone, Debug)]
pub struct Core {
    /// None: all
    pub items: Option<Vec<Item>>,
    pub from: Vec<Tab>,
    pub filter: Option<E>,
    pub group: Option<(Vec<E>, Option<E>)>,
}

#[derive(Clone, Debug)]
pub enum Body {
    Values(Vec<Vec<E>>),
    Core(Box<Core>),
    Op(&'static str, Box<Body>, Box<Body>),
}

#[derive(Clone, Debug)]
pub enum Item {
    AllFrom(String),
    Expr(E, Option<String>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum J {
    Inner,
    Left,
    Right,
    Full,
    Cross,
}

#[derive(Clone, Debug)]
pub enum Tab {
    Named(Path, Option<String>),
    Query(Box<Q>, Option<String>),
    Join(J, Box<Tab>, Box<Tab>, On),
}

#[derive(Clone, Debug)]
pub enum On {
    Expr(Box<E>),
    Using(Vec<String>),
}

#[derive(Clone, Debug)]
pub enum St {
    Select(Q),
    Insert { with: Vec<Cte>, table: Path, columns: Option<Vec<String>>, body: Body },
    Update { with: Vec<Cte>, table: Path, sets: Vec<(Vec<String>, E)>, filter: Option<E> },
    Delete { with: Vec<Cte>, table: Path, filter: Option<E> },
    Describe(Path),
    Attach(Path),
}

/// Writes a statement down. Names and keywords come out in whatever case.
pub struct Speller {
    pub words: Vec<String>,
    names: u64,
}

pub fn spell(st: &St, explain: bool) -> Vec<String> {
    let mut s = Speller { words: Vec::new(), names: plan(3) };
    if explain {
        s.kw(["EXPLAIN", "EXPLAIN QUERY PLAN"][plan(2) as usize]);
    }
    s.statement(st);
    s.words
}

impl Speller {
    fn kw(&mut self, k: &str) {
        self.words.extend(k.split(' ').map(|w| cased(w, plan(2))));
    }
    fn sym(&mut self, s: &str) {
        self.words.push(s.into());
    }
    fn name(&mut self, n: &str) {
        let n = match self.names {
            0 => n.to_string(),
            1 => n.to_uppercase(),
            _ => n.chars().map(|c| if plan(2) == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        };
        self.words.push(n);
    }
    fn path(&mut self, p: &Path) {
        if let Some(x) = &p.0 {
            self.name(x);
            self.sym(".");
        }
        self.name(&p.1);
    }
    fn list<A>(&mut self, v: &[A], mut f: impl FnMut(&mut Self, &A)) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.sym(",");
            }
            f(self, x);
        }
    }
    fn names(&mut self, v: &[String]) {
        self.list(v, |s, n| s.name(n));
    }

    pub fn statement(&mut self, st: &St) {
        match st {
            St::Select(q) => self.query(q),
            St::Insert { with, table, columns, body } => {
                self.with(with);
                self.kw("INSERT INTO");
                self.path(table);
                if let Some(c) = columns {
                    self.sym("(");
                    self.names(c);
                    self.sym(")");
                }
                self.body(body);
            }
            St::Update { with, table, sets, filter } => {
                self.with(with);
                self.kw("UPDATE");
                self.path(table);
                self.kw("SET");
                self.list(sets, |s, (c, e)| {
                    s.names(c);
                    s.sym("=");
                    s.expr(e);
                });
                self.filter("WHERE", filter);
            }
            St::Delete { with, table, filter } => {
                self.with(with);
                self.kw("DELETE FROM");
                self.path(table);
                self.filter("WHERE", filter);
            }
            St::Describe(p) => {
                self.kw("DESCRIBE");
                self.path(p);
            }
            St::Attach(p) => {
                self.kw("ATTACH FILE");
                self.sym("'f'");
                self.kw("AS");
                self.path(p);
            }
        }
    }

    fn filter(&mut self, k: &str, e: &Option<E>) {
        if let Some(e) = e {
            self.kw(k);
            self.expr(e);
        }
    }

    fn with(&mut self, w: &[Cte]) {
        if w.is_empty() {
            return;
        }
        self.kw("WITH");
        self.list(w, |s, c| {
            s.name(&c.name);
            if let Some(n) = &c.columns {
                s.sym("(");
                s.names(n);
                s.sym(")");
            }
            s.kw("AS");
            s.sym("(");
            s.query(&c.query);
            s.sym(")");
        });
    }

    fn query(&mut self, q: &Q) {
        self.with(&q.with);
        self.body(&q.body);
        if !q.order.is_empty() {
            self.kw("ORDER BY");
            self.list(&q.order, |s, e| {
                s.expr(e);
                let d = plan(3);
                if d > 0 {
                    s.kw(["ASC", "DESC"][d as usize - 1]);
                }
            });
        }
        if let Some((n, o)) = &q.limit {
            self.kw("LIMIT");
            self.expr(n);
            if let Some(o) = o {
                if plan(2) == 0 {
                    self.sym(",");
                } else {
                    self.kw("OFFSET");
                }
                self.expr(o);
            }
        }
    }

    fn body(&mut self, b: &Body) {
        match b {
            Body::Values(rows) => {
                self.kw("VALUES");
                self.list(rows, |s, r| {
                    s.sym("(");
                    s.list(r, |s, e| s.expr(e));
                    s.sym(")");
                });
            }
            Body::Op(op, l, r) => {
                self.body(l);
                self.kw(op);
                self.body(r);
            }
            Body::Core(c) => {
                self.kw(["SELECT", "SELECT ALL", "SELECT DISTINCT"][plan(3) as usize]);
                match &c.items {
                    None => self.sym("*"),
                    Some(v) => self.list(v, |s, i| match i {
                        Item::AllFrom(n) => {
                            s.name(n);
                            s.sym(".");
                            s.sym("*");
                        }
                        Item::Expr(e, a) => {
                            s.expr(e);
                            s.alias(a);
                        }
                    }),
                }
                if !c.from.is_empty() {
                    self.kw("FROM");
                    self.list(&c.from, |s, t| s.table(t, false));
                }
                self.filter("WHERE", &c.filter);
                if let Some((g, h)) = &c.group {
                    self.kw("GROUP BY");
                    self.list(g, |s, e| s.expr(e));
                    self.filter("HAVING", h);
                }
            }
        }
    }

    fn alias(&mut self, a: &Option<String>) {
        if let Some(a) = a {
            if plan(2) == 0 {
                self.kw("AS");
            }
            self.name(a);
        }
    }

    fn table(&mut self, t: &Tab, single: bool) {
        match t {
            Tab::Named(p, a) => {
                self.path(p);
                self.alias(a);
            }
            Tab::Query(q, a) => {
                self.sym("(");
                self.query(q);
                self.sym(")");
                self.alias(a);
            }
            Tab::Join(j, l, r, on) => {
                if single {
                    self.sym("(");
                }
                self.table(l, false);
                self.kw(match j {
                    J::Inner => ["JOIN", "INNER JOIN"][plan(2) as usize],
                    J::Left => ["LEFT JOIN", "LEFT OUTER JOIN"][plan(2) as usize],
                    J::Right => ["RIGHT JOIN", "RIGHT OUTER JOIN"][plan(2) as usize],
                    J::Full => ["FULL JOIN", "FULL OUTER JOIN"][plan(2) as usize],
                    J::Cross => "CROSS JOIN",
                });
                self.table(r, true);
                match on {
                    On::Expr(e) => {
                        self.kw("ON");
                        self.expr(e);
                    }
                    On::Using(n) => {
                        self.kw("USING");
                        self.sym("(");
                        self.names(n);
                        self.sym(")");
                    }
                }
                if single {
                    self.sym(")");
                }
            }
        }
    }

    /// An operand of something else.
    fn part(&mut self, e: &E) {
        let alone = matches!(e, E::Lit(..) | E::Col(_) | E::Tuple(_) | E::Query(_));
        if alone && !plan_pct(5) {
            self.expr(e);
        } else {
            self.sym("(");
            self.expr(e);
            self.sym(")");
        }
    }

    fn expr(&mut self, e: &E) {
        match e {
            E::Lit(_, t) => self.words.extend(t.split(' ').map(|x| x.to_string())),
            E::Col(p) => self.path(p),
            E::Tuple(v) => {
                self.sym("(");
                self.list(v, |s, e| s.expr(e));
                self.sym(")");
            }
            E::Neg(x) => {
                self.sym("-");
                self.part(x);
            }
            E::Not(x) => match &**x {
                E::IsNull(y) if plan(2) == 0 => {
                    self.part(y);
                    self.kw(["IS NOT NULL", "NOTNULL", "NOT NULL"][plan(3) as usize]);
                }
                E::In(y, set) if plan(2) == 0 => {
                    self.part(y);
                    self.kw("NOT IN");
                    self.set(set);
                }
                E::Between(y, l, u) if plan(2) == 0 => {
                    self.part(y);
                    self.kw("NOT BETWEEN");
                    self.part(l);
                    self.kw("AND");
                    self.part(u);
                }
                _ => {
                    self.kw("NOT");
                    self.part(x);
                }
            },
            E::IsNull(x) => {
                self.part(x);
                self.kw(["IS NULL", "ISNULL"][plan(2) as usize]);
            }
            E::Calc(op, l, r) | E::Cmp(op, l, r) => {
                self.part(l);
                if op.starts_with(|c: char| c.is_ascii_alphabetic()) {
                    self.kw(op);
                } else {
                    self.sym(op);
                }
                self.part(r);
            }
            E::Between(x, l, u) => {
                self.part(x);
                self.kw("BETWEEN");
                self.part(l);
                self.kw("AND");
                self.part(u);
            }
            E::Case(x, w, o) => {
                self.kw("CASE");
                if let Some(x) = x {
                    self.expr(x);
                }
                for (g, b) in w {
                    self.kw("WHEN");
                    self.expr(g);
                    self.kw("THEN");
                    self.expr(b);
                }
                if let Some(o) = o {
                    self.kw("ELSE");
                    self.expr(o);
                }
                self.kw("END");
            }
            E::In(x, set) => {
                self.part(x);
                self.kw("IN");
                self.set(set);
            }
            E::Query(q) => {
                self.sym("(");
                self.query(q);
                self.sym(")");
            }
        }
    }

    fn set(&mut self, set: &Set) {
        match set {
            Set::List(v) => {
                self.sym("(");
                self.list(v, |s, e| s.expr(e));
                self.sym(")");
            }
            Set::Query(q) => {
                self.sym("(");
                self.query(q);
                self.sym(")");
            }
            Set::Table(p) => self.path(p),
        }
    }
}
