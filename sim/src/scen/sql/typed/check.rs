//! Reference: which statements fit the catalogue for sure, which for sure do
//! not, and what their results look like. What SQL dialects disagree about is
//! left open.
use super::tree::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    /// None: nobody says how it is called; ?x: it may or may not be called x
    pub name: Option<String>,
    pub kind: K,
    pub null: bool,
}

impl Col {
    pub fn known(&self) -> Option<&String> {
        self.name.as_ref().filter(|n| !n.starts_with('?'))
    }
    /// Names that would come twice may get a number.
    fn maybe(&self, name: &str) -> bool {
        let (n, me) = (up(name), self.name.as_deref().map(up).unwrap_or_default());
        me.strip_prefix('?').and_then(|m| n.strip_prefix(m)).map_or(false, |r| r.bytes().all(|b| b.is_ascii_digit()))
    }
    fn doubtful(&mut self) {
        if let Some(n) = self.known() {
            self.name = Some(format!("?{}", n));
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Catalogue {
    /// schema, table in upper case -> columns
    pub tables: BTreeMap<(String, String), Vec<Col>>,
    pub home: String,
}

pub fn up(s: &str) -> String {
    s.to_ascii_uppercase()
}

impl Catalogue {
    pub fn table(&self, p: &Path) -> Option<&Vec<Col>> {
        let schema = p.0.as_ref().unwrap_or(&self.home);
        self.tables.get(&(up(schema), up(&p.1)))
    }
}

#[derive(Clone, Debug)]
pub enum Ty {
    One(K, bool),
    Many(Vec<Ty>),
}

impl Ty {
    fn null(&self) -> bool {
        match self {
            Ty::One(_, n) => *n,
            Ty::Many(v) => v.iter().any(|t| t.null()),
        }
    }
}

/// What a name may stand for.
#[derive(Clone, Debug)]
pub struct Rel {
    pub name: Option<String>,
    pub cols: Vec<Col>,
}

#[derive(Clone, Default)]
pub struct Scope {
    pub rels: Vec<Rel>,
    /// seen from outside only: a name that is found there is left open
    pub outer: Vec<Rel>,
}

#[derive(Clone)]
pub struct Env<'a> {
    pub cat: &'a Catalogue,
    pub ctes: Vec<(String, Vec<Col>)>,
}

#[derive(Default)]
pub struct Verdict {
    pub wrong: Option<String>,
    pub open: Option<&'static str>,
    /// nothing sensible can be said any more
    lost: bool,
}

impl Verdict {
    fn wrong<A>(&mut self, why: impl Into<String>) -> Option<A> {
        if !self.lost {
            self.wrong.get_or_insert(why.into());
        }
        None
    }
    fn open<A>(&mut self, why: &'static str) -> Option<A> {
        self.open.get_or_insert(why);
        None
    }

    fn lookup(&mut self, p: &Path, s: &Scope) -> Option<Ty> {
        let find = |rels: &[Rel]| find_in(rels, p);
        if p.0.is_none() && s.rels.iter().any(|r| r.name.as_deref().map(up) == Some(up(&p.1))) {
            return self.open("name of a relation and of a column");
        }
        let mut here = find(&s.rels);
        let here_too = |r: &&Rel| p.0.is_none() || r.name.as_deref().map(up) == p.0.as_deref().map(up);
        if s.rels.iter().filter(here_too).flat_map(|r| &r.cols).any(|c| c.maybe(&p.1)) {
            return self.open("column that may not have its name any more");
        }
        match here.len() {
            1 => here.pop(),
            0 if !find(&s.outer).is_empty() => self.open("column of an outer query"),
            0 if s.rels.iter().any(|r| r.cols.iter().any(|c| c.name.is_none())) => self.open("column without a name"),
            0 => self.wrong(format!("there is no column {:?}", p)),
            _ => self.wrong(format!("{:?} is ambiguous", p)),
        }
    }

    fn want(&mut self, t: &Option<Ty>, k: K) -> Option<bool> {
        match t {
            None => None,
            Some(Ty::One(K::Any, _)) => self.open("value without a type"),
            Some(Ty::One(x, n)) if *x == k => Some(*n),
            Some(t) => self.wrong(format!("{:?} instead of {:?}", t, k)),
        }
    }

    /// Both of the same kind: may the comparison be null?
    fn same(&mut self, a: &Option<Ty>, b: &Option<Ty>) -> Option<bool> {
        match (a.as_ref()?, b.as_ref()?) {
            (Ty::One(K::Any, _), Ty::One(..)) | (Ty::One(..), Ty::One(K::Any, _)) => self.open("value without a type"),
            (Ty::One(x, n), Ty::One(y, m)) if x == y => Some(*n || *m),
            (Ty::Many(x), Ty::Many(y)) if x.len() == y.len() => {
                let mut null = false;
                for (x, y) in x.iter().zip(y) {
                    null |= self.same(&Some(x.clone()), &Some(y.clone()))?;
                }
                Some(null)
            }
            (x, y) => self.wrong(format!("{:?} and {:?}", x, y)),
        }
    }

    fn truth(&mut self, e: &E, s: &Scope, env: &Env) {
        let t = self.expr(e, s, env);
        self.want(&t, K::Truth);
    }

    pub fn expr(&mut self, e: &E, s: &Scope, env: &Env) -> Option<Ty> {
        match e {
            E::Lit(k, _) => Some(Ty::One(*k, *k == K::Any)),
            E::Col(p) => self.lookup(p, s),
            E::Tuple(v) => {
                let t: Vec<Option<Ty>> = v.iter().map(|x| self.expr(x, s, env)).collect();
                Some(Ty::Many(t.into_iter().collect::<Option<_>>()?))
            }
            E::Neg(x) => {
                let t = self.expr(x, s, env);
                Some(Ty::One(K::Number, self.want(&t, K::Number)?))
            }
            E::Not(x) => {
                let t = self.expr(x, s, env);
                Some(Ty::One(K::Truth, self.want(&t, K::Truth)?))
            }
            E::IsNull(x) => match self.expr(x, s, env)? {
                Ty::One(..) => Some(Ty::One(K::Truth, false)),
                _ => self.open("null test of a tuple"),
            },
            E::Calc(op, l, r) => {
                let k = match *op {
                    "||" => K::Text,
                    "AND" | "OR" => K::Truth,
                    _ => K::Number,
                };
                let (l, r) = (self.expr(l, s, env), self.expr(r, s, env));
                let (l, r) = (self.want(&l, k), self.want(&r, k));
                Some(Ty::One(k, l? || r?))
            }
            E::Cmp(op, l, r) => {
                let (l, r) = (self.expr(l, s, env), self.expr(r, s, env));
                let null = match *op {
                    "LIKE" => {
                        let (l, r) = (self.want(&l, K::Text), self.want(&r, K::Text));
                        l? || r?
                    }
                    "=" | "!=" => self.same(&l, &r)?,
                    _ => {
                        if let (Some(Ty::Many(_)), Some(Ty::Many(_))) = (&l, &r) {
                            return self.open("order of tuples");
                        }
                        let null = self.same(&l, &r)?;
                        self.ordered(&l)?;
                        null
                    }
                };
                Some(Ty::One(K::Truth, null))
            }
            E::Between(x, l, u) => {
                let (x, l, u) = (self.expr(x, s, env), self.expr(l, s, env), self.expr(u, s, env));
                if [&x, &l, &u].iter().any(|t| matches!(t, Some(Ty::Many(_)))) {
                    return self.open("order of tuples");
                }
                let (a, b) = (self.same(&x, &l), self.same(&x, &u));
                self.ordered(&x)?;
                Some(Ty::One(K::Truth, a? || b?))
            }
            E::Case(x, w, o) => {
                let x = match x {
                    None => None,
                    Some(x) => Some(self.expr(x, s, env)),
                };
                let mut bodies = Vec::new();
                for (g, b) in w {
                    match &x {
                        None => self.truth(g, s, env),
                        Some(x) => {
                            let g = self.expr(g, s, env);
                            if let Some(Ty::Many(_)) = x {
                                self.open::<()>("case of a tuple");
                            }
                            self.same(x, &g);
                        }
                    }
                    bodies.push(self.expr(b, s, env));
                }
                if let Some(o) = o {
                    bodies.push(self.expr(o, s, env));
                }
                let bodies: Vec<Ty> = bodies.into_iter().collect::<Option<_>>()?;
                let mut null = o.is_none();
                if bodies.iter().any(|b| matches!(b, Ty::Many(_))) {
                    return self.open("case that yields a tuple");
                }
                for b in &bodies {
                    self.same(&Some(bodies[0].clone()), &Some(b.clone()))?;
                    null |= b.null();
                }
                match bodies[0] {
                    Ty::One(k, _) => Some(Ty::One(k, null)),
                    _ => None,
                }
            }
            E::In(x, set) => {
                let x = self.expr(x, s, env);
                if let Some(Ty::Many(_)) = x {
                    self.open::<()>("membership of a tuple");
                }
                let t = match set {
                    Set::List(v) => {
                        let t: Vec<Option<Ty>> = v.iter().map(|x| self.expr(x, s, env)).collect();
                        if t.is_empty() {
                            x?;
                            return Some(Ty::One(K::Truth, false));
                        }
                        if t.iter().any(|t| matches!(t, Some(Ty::Many(_)))) {
                            return self.open("membership of a tuple");
                        }
                        let t: Vec<Ty> = t.into_iter().collect::<Option<_>>()?;
                        for u in &t {
                            self.same(&Some(t[0].clone()), &Some(u.clone()))?;
                        }
                        match t[0] {
                            Ty::One(k, _) => Some(Ty::One(k, t.iter().any(|t| t.null()))),
                            _ => None,
                        }
                    }
                    Set::Query(q) => {
                        let c = self.query(q, env, &all(s));
                        self.single(c)
                    }
                    Set::Table(p) => {
                        let c = self.table(p, env);
                        self.single(c)
                    }
                };
                Some(Ty::One(K::Truth, self.same(&x, &t)?))
            }
            E::Query(q) => {
                let c = self.query(q, env, &all(s));
                match self.single(c)? {
                    Ty::One(k, _) => Some(Ty::One(k, true)),
                    t => Some(t),
                }
            }
        }
    }

    fn single(&mut self, c: Option<Vec<Col>>) -> Option<Ty> {
        let c = c?;
        if c.len() != 1 {
            return self.wrong(format!("{} columns instead of one", c.len()));
        }
        Some(Ty::One(c[0].kind, c[0].null))
    }

    fn ordered(&mut self, t: &Option<Ty>) -> Option<()> {
        match t {
            Some(Ty::One(k, _)) if k.ordered() => Some(()),
            Some(Ty::One(K::Any, _)) => self.open("value without a type"),
            Some(t) => self.wrong(format!("{:?} have no order", t)),
            None => None,
        }
    }

    pub fn table(&mut self, p: &Path, env: &Env) -> Option<Vec<Col>> {
        let hidden = |n: &String| env.ctes.iter().find(|(x, _)| up(x) == up(n));
        match &p.0 {
            None => {
                if let Some((_, c)) = hidden(&p.1) {
                    return Some(c.clone());
                }
            }
            Some(s) => {
                if hidden(s).is_some() {
                    return self.open("schema hidden by a common table expression");
                }
            }
        }
        match env.cat.table(p) {
            Some(c) => Some(c.clone()),
            None => self.wrong(format!("there is no table {:?}", p)),
        }
    }

    pub fn with<'a>(&mut self, with: &[Cte], env: &Env<'a>) -> Env<'a> {
        let mut e = env.clone();
        for (i, c) in with.iter().enumerate() {
            if with[..i].iter().any(|x| up(&x.name) == up(&c.name)) {
                self.wrong::<()>(format!("{} is defined twice", c.name));
            } else if e.ctes.iter().any(|(x, _)| up(x) == up(&c.name)) {
                self.open::<()>("common table expression of the same name further out");
            }
            let mut cols = self.query(&c.query, &e, &[]).unwrap_or_else(|| {
                self.open::<()>("no columns known");
                self.lost = true;
                Vec::new()
            });
            if let Some(n) = &c.columns {
                match listed(n, &cols) {
                    Some(at) => cols = at.into_iter().zip(n).map(|(i, n)| Col { name: Some(n.clone()), ..cols[i].clone() }).collect(),
                    None => {
                        self.open::<()>("columns of a common table expression have other names");
                        self.lost = true;
                    }
                }
            }
            e.ctes.retain(|(x, _)| up(x) != up(&c.name));
            e.ctes.push((c.name.clone(), cols));
        }
        e
    }

    pub fn query(&mut self, q: &Q, env: &Env, outer: &[Rel]) -> Option<Vec<Col>> {
        let env = self.with(&q.with, env);
        let cols = self.body(&q.body, &env, outer);
        if !q.order.is_empty() {
            match &cols {
                None => {}
                Some(c) => {
                    let s = Scope { rels: vec![Rel { name: None, cols: c.clone() }], outer: outer.to_vec() };
                    for e in &q.order {
                        let mut v = Verdict::default();
                        if let Some(Ty::Many(_)) = v.expr(e, &s, &env) {
                            self.open::<()>("order by a tuple");
                        }
                        // some order by columns that are not part of the result
                        if v.wrong.is_some() && columns_of(e).iter().any(|p| !c.iter().any(|c| p.0.is_none() && c.name.as_deref().map(up) == Some(up(&p.1)))) {
                            self.open::<()>("order by something else than the result");
                        } else if let Some(w) = v.wrong {
                            self.wrong::<()>(w);
                        }
                        if let Some(o) = v.open {
                            self.open::<()>(o);
                        }
                    }
                }
            }
        }
        if let Some((n, o)) = &q.limit {
            for e in std::iter::once(n).chain(o) {
                let t = self.expr(e, &Scope { rels: Vec::new(), outer: outer.to_vec() }, &env);
                if self.want(&t, K::Number) == Some(true) {
                    self.wrong::<()>("a limit that may be null");
                }
            }
        }
        cols
    }

    pub fn body(&mut self, b: &Body, env: &Env, outer: &[Rel]) -> Option<Vec<Col>> {
        match b {
            Body::Values(rows) => {
                let s = Scope { rels: Vec::new(), outer: outer.to_vec() };
                let rows: Vec<Vec<Option<Ty>>> = rows.iter().map(|r| r.iter().map(|e| self.expr(e, &s, env)).collect()).collect();
                if rows.iter().any(|r| r.len() != rows[0].len()) {
                    return self.wrong("rows of different lengths");
                }
                let mut cols = Vec::new();
                let mut fine = true;
                for i in 0..rows[0].len() {
                    let mut null = false;
                    for r in &rows {
                        match &r[i] {
                            Some(Ty::Many(_)) => {
                                self.wrong::<()>("a tuple as a value");
                                fine = false;
                            }
                            Some(t) => null |= t.null(),
                            None => fine = false,
                        }
                        fine &= self.same(&rows[0][i], &r[i]).is_some() || rows.len() == 1;
                    }
                    if let Some(Ty::One(kind, _)) = rows[0][i] {
                        cols.push(Col { name: None, kind, null });
                    }
                }
                if fine {
                    Some(cols)
                } else {
                    None
                }
            }
            Body::Op(_, l, r) => {
                let (l, r) = (self.body(l, env, outer), self.body(r, env, outer));
                let (l, r) = (l?, r?);
                if l.len() != r.len() {
                    return self.wrong("different numbers of columns");
                }
                let mut cols = Vec::new();
                for (a, b) in l.iter().zip(&r) {
                    let null = self.same(&Some(Ty::One(a.kind, a.null)), &Some(Ty::One(b.kind, b.null)))?;
                    cols.push(Col { name: a.name.clone(), kind: a.kind, null });
                }
                Some(cols)
            }
            Body::Core(c) => self.core(c, env, outer),
        }
    }

    fn core(&mut self, c: &Core, env: &Env, outer: &[Rel]) -> Option<Vec<Col>> {
        let mut rels = Vec::new();
        let mut known = true;
        for t in &c.from {
            match self.tab(t, env, outer, &rels) {
                Some(mut r) => rels.append(&mut r),
                None => known = false,
            }
        }
        for (i, r) in rels.iter().enumerate() {
            if r.name.is_some() && rels[..i].iter().any(|x| x.name.as_deref().map(up) == r.name.as_deref().map(up)) {
                self.wrong::<()>(format!("relation {:?} twice", r.name));
                known = false;
            }
        }
        if !known {
            // nothing sensible can be said about names
            self.open::<()>("unknown relations");
            return None;
        }
        let s = Scope { rels, outer: outer.to_vec() };
        if let Some(f) = &c.filter {
            self.truth(f, &s, env);
        }
        if let Some((g, h)) = &c.group {
            for e in g {
                if let Some(Ty::Many(_)) = self.expr(e, &s, env) {
                    self.open::<()>("group by a tuple");
                }
            }
            if let Some(h) = h {
                self.truth(h, &s, env);
            }
            // only the columns of the grouping can be used
            let by: Vec<String> = g.iter().filter_map(|e| if let E::Col(p) = e { Some(format!("{:?}", p)) } else { None }).collect();
            let mut used: Vec<Path> = h.iter().flat_map(columns_of).collect();
            match &c.items {
                None => {
                    self.open::<()>("all columns of a grouping");
                }
                Some(v) => {
                    for i in v {
                        match i {
                            Item::AllFrom(_) => {
                                self.open::<()>("all columns of a grouping");
                            }
                            Item::Expr(e, _) => used.extend(columns_of(e)),
                        }
                    }
                }
            }
            let twice = |v: &Vec<Path>| (1..v.len()).any(|i| v[..i].iter().any(|p| up(&p.1) == up(&v[i].1)));
            if twice(&g.iter().filter_map(|e| if let E::Col(p) = e { Some(p.clone()) } else { None }).collect()) {
                self.open::<()>("a grouping with two columns of one name");
            }
            if used.iter().any(|p| !by.contains(&format!("{:?}", p))) {
                self.open::<()>("a column that is not part of the grouping");
            }
        }
        let mut cols = Vec::new();
        let mut fine = true;
        match &c.items {
            None => {
                if s.rels.is_empty() {
                    self.open::<()>("all columns of nothing");
                }
                cols = s.rels.iter().flat_map(|r| r.cols.clone()).collect();
            }
            Some(v) => {
                for i in v {
                    match i {
                        Item::AllFrom(n) => match s.rels.iter().find(|r| r.name.as_deref().map(up) == Some(up(n))) {
                            Some(r) => cols.extend(r.cols.clone()),
                            None if outer.iter().any(|r| r.name.as_deref().map(up) == Some(up(n))) => return self.open("relation of an outer query"),
                            None => return self.wrong(format!("there is no relation {}", n)),
                        },
                        Item::Expr(e, a) => {
                            let name = match (a, e) {
                                (Some(a), _) => Some(a.clone()),
                                (None, E::Col(p)) => Some(p.1.clone()),
                                _ => None,
                            };
                            match self.expr(e, &s, env) {
                                Some(Ty::One(kind, null)) => cols.push(Col { name, kind, null }),
                                Some(_) => {
                                    fine = false;
                                    self.wrong::<()>("a tuple as a column");
                                }
                                None => fine = false,
                            }
                        }
                    }
                }
            }
        }
        if !fine {
            return None;
        }
        // what becomes of names that appear twice is open
        let plain = |c: &Col| c.name.as_ref().map(|n| up(n.trim_start_matches('?')));
        let twice = (1..cols.len()).any(|i| cols[i].name.is_some() && cols[..i].iter().any(|c| plain(c) == plain(&cols[i])));
        if twice {
            cols.iter_mut().for_each(|c| c.doubtful());
        }
        Some(cols)
    }

    pub fn tab(&mut self, t: &Tab, env: &Env, outer: &[Rel], before: &[Rel]) -> Option<Vec<Rel>> {
        match t {
            Tab::Named(p, a) => {
                let cols = self.table(p, env)?;
                Some(vec![Rel { name: Some(a.clone().unwrap_or(p.1.clone())), cols }])
            }
            Tab::Query(q, a) => {
                let cols = self.query(q, env, outer)?;
                Some(vec![Rel { name: a.clone(), cols }])
            }
            Tab::Join(j, l, r, on) => {
                let l = self.tab(l, env, outer, before);
                let so_far: Vec<Rel> = before.iter().chain(l.iter().flatten()).cloned().collect();
                let r = self.tab(r, env, outer, &so_far);
                let (mut l, mut r) = (l?, r?);
                match on {
                    On::Expr(e) => {
                        let s = Scope {
                            rels: l.iter().chain(&r).cloned().collect(),
                            outer: outer.iter().chain(before).cloned().collect(),
                        };
                        for p in columns_of(e) {
                            // others take what comes before the join into account
                            let m = |r: &[Rel]| {
                                let named = r.iter().any(|r| p.0.is_none() && r.name.as_deref().map(up) == Some(up(&p.1)));
                                named || r.iter().any(|r| r.cols.iter().any(|c| c.maybe(&p.1) || c.name.as_deref().map(up) == Some(up(&p.1))))
                            };
                            if m(before) {
                                self.open::<()>("join constraint with a column that is also found before the join");
                            }
                        }
                        self.truth(e, &s, env);
                    }
                    On::Using(n) => {
                        for n in n {
                            let count = |v: &[Rel]| v.iter().flat_map(|r| &r.cols).filter(|c| c.name.as_deref().map(up) == Some(up(n))).count();
                            let unnamed = |v: &[Rel]| v.iter().flat_map(|r| &r.cols).any(|c| c.known().is_none());
                            let doubt = l.iter().chain(&r).flat_map(|r| &r.cols).any(|c| c.maybe(n));
                            match (count(&l), count(&r)) {
                                _ if doubt => drop(self.open::<()>("join by a column that may not have its name any more")),
                                (1, 1) => {
                                    let get = |v: &[Rel]| v.iter().flat_map(|r| &r.cols).find(|c| c.name.as_deref().map(up) == Some(up(n))).map(|c| Ty::One(c.kind, c.null));
                                    self.same(&get(&l), &get(&r));
                                }
                                (a, b) if (a == 0 && !unnamed(&l)) || (b == 0 && !unnamed(&r)) => {
                                    self.wrong::<()>(format!("{} is not on both sides", n));
                                }
                                _ => {
                                    self.open::<()>("join by a column that is there twice");
                                }
                            }
                            // is it one column now, or two of the same name?
                            for c in l.iter_mut().chain(&mut r).flat_map(|r| &mut r.cols) {
                                if c.name.as_deref().map(up) == Some(up(n)) {
                                    c.doubtful();
                                }
                            }
                        }
                    }
                }
                let all_null = |v: &mut Vec<Rel>| v.iter_mut().flat_map(|r| &mut r.cols).for_each(|c| c.null = true);
                if matches!(j, J::Left | J::Full) {
                    all_null(&mut r);
                }
                if matches!(j, J::Right | J::Full) {
                    all_null(&mut l);
                }
                l.append(&mut r);
                Some(l)
            }
        }
    }

    fn fits(&mut self, kind: K, null: bool, to: &Col) {
        if kind == K::Any {
            self.open::<()>("value without a type");
        } else if kind != to.kind {
            self.wrong::<()>(format!("{:?} for {:?}", kind, to));
        } else if null && !to.null {
            self.wrong::<()>(format!("null for {:?}", to));
        }
    }

    /// The columns of the result, if there is one.
    pub fn statement(&mut self, st: &St, cat: &Catalogue) -> Option<Vec<Col>> {
        let env = Env { cat, ctes: Vec::new() };
        match st {
            St::Select(q) => return self.query(q, &env, &[]),
            St::Attach(_) => {}
            St::Describe(p) => drop(self.table(p, &env)),
            St::Insert { with, table, columns, body } => {
                let target = self.table(table, &env);
                let inner = self.with(with, &env);
                let values = self.body(body, &inner, &[]);
                let (target, values) = (target?, values?);
                let find = |n: &String| target.iter().find(|c| c.name.as_deref().map(up) == Some(up(n)));
                let to: Vec<&Col> = match columns {
                    None => {
                        if values.len() < target.len() {
                            self.open::<()>("fewer values than columns");
                        }
                        target.iter().take(values.len().max(1)).collect()
                    }
                    Some(n) => {
                        if (1..n.len()).any(|i| n[..i].iter().any(|x| up(x) == up(&n[i]))) {
                            return self.wrong("column assigned twice");
                        }
                        match n.iter().map(find).collect::<Option<_>>() {
                            Some(v) => v,
                            None => return self.wrong("no such column"),
                        }
                    }
                };
                if to.len() != values.len() {
                    return self.wrong("number of values");
                }
                for (c, v) in to.iter().zip(&values) {
                    self.fits(v.kind, v.null, c);
                }
                for c in &target {
                    if !c.null && !to.iter().any(|x| x.name == c.name) {
                        return self.wrong("value missing");
                    }
                }
            }
            St::Update { with, table, sets, filter } => {
                let inner = self.with(with, &env);
                let target = self.table(table, &env)?;
                let s = Scope { rels: vec![Rel { name: Some(table.1.clone()), cols: target.clone() }], outer: Vec::new() };
                let mut seen: Vec<String> = Vec::new();
                for (names, e) in sets {
                    let t = self.expr(e, &s, &inner);
                    for n in names {
                        if seen.contains(&up(n)) {
                            self.wrong::<()>("column assigned twice");
                        }
                        seen.push(up(n));
                        match (target.iter().find(|c| c.name.as_deref().map(up) == Some(up(n))), &t) {
                            (None, _) => drop(self.wrong::<()>("no such column")),
                            (Some(_), None) => {}
                            (Some(c), Some(Ty::One(k, null))) => self.fits(*k, *null, c),
                            (Some(_), Some(Ty::Many(_))) => drop(self.open::<()>("assignment of a tuple")),
                        }
                    }
                }
                if let Some(f) = filter {
                    self.truth(f, &s, &inner);
                }
            }
            St::Delete { with, table, filter } => {
                let inner = self.with(with, &env);
                let target = self.table(table, &env)?;
                let s = Scope { rels: vec![Rel { name: Some(table.1.clone()), cols: target }], outer: Vec::new() };
                if let Some(f) = filter {
                    self.truth(f, &s, &inner);
                }
            }
        }
        Some(Vec::new())
    }
}

/// Which columns a list of names picks, if that is clear.
pub fn listed(names: &[String], cols: &[Col]) -> Option<Vec<usize>> {
    let same = |c: &Col, n: &String| c.name.as_deref().map(up) == Some(up(n));
    let clear = |n: &String| names.iter().filter(|x| up(x) == up(n)).count() == 1 && cols.iter().filter(|c| same(c, n)).count() == 1 && !cols.iter().any(|c| c.maybe(n));
    if !names.iter().all(clear) {
        return None;
    }
    names.iter().map(|n| cols.iter().position(|c| same(c, n))).collect()
}

fn find_in(rels: &[Rel], p: &Path) -> Vec<Ty> {
    rels.iter()
        .filter(|r| p.0.is_none() || r.name.as_deref().map(up) == p.0.as_deref().map(up))
        .flat_map(|r| &r.cols)
        .filter(|c| c.name.as_deref().map(up) == Some(up(&p.1)))
        .map(|c| Ty::One(c.kind, c.null))
        .collect()
}

fn all(s: &Scope) -> Vec<Rel> {
    s.rels.iter().chain(&s.outer).cloned().collect()
}

/// The columns an expression mentions itself, not in nested queries.
pub fn columns_of(e: &E) -> Vec<Path> {
    let mut v = Vec::new();
    each(e, &mut |p| v.push(p.clone()));
    v
}

fn each(e: &E, f: &mut dyn FnMut(&Path)) {
    match e {
        E::Lit(..) | E::Query(_) => {}
        E::Col(p) => f(p),
        E::Tuple(v) => v.iter().for_each(|x| each(x, f)),
        E::Neg(x) | E::Not(x) | E::IsNull(x) => each(x, f),
        E::Calc(_, l, r) | E::Cmp(_, l, r) => {
            each(l, f);
            each(r, f);
        }
        E::Between(x, l, u) => {
            each(x, f);
            each(l, f);
            each(u, f);
        }
        E::Case(x, w, o) => {
            x.iter().for_each(|x| each(x, f));
            for (g, b) in w {
                each(g, f);
                each(b, f);
            }
            o.iter().for_each(|x| each(x, f));
        }
        E::In(x, set) => {
            each(x, f);
            if let Set::List(v) = set {
                v.iter().for_each(|x| each(x, f));
            }
        }
    }
}
