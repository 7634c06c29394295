//! Clients' statements: mostly what fits the catalogue, with slips.
use super::check::{up, Catalogue, Col, Env, Rel, Scope, Verdict};
use super::tree::*;
use simrt::{plan, plan_pct, plan_range};

pub const NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "ab", "a1", "b_", "t", "u"];
const RELS: &[&str] = &["x", "y", "z", "t", "u", "xy", "a", "main"];

pub fn pick<A: Clone>(v: &[A]) -> A {
    v[plan(v.len() as u64) as usize].clone()
}

pub struct Maker<'a> {
    pub cat: &'a Catalogue,
    /// one in how many decisions is a slip; 0: none
    pub slips: u64,
    pub budget: i64,
}

impl<'a> Maker<'a> {
    fn slip(&self) -> bool {
        self.slips > 0 && plan(self.slips) == 0
    }

    fn env(&self) -> Env<'a> {
        Env { cat: self.cat, ctes: Vec::new() }
    }

    fn table(&self, env: &Env) -> Path {
        let wrong = self.slip();
        if !env.ctes.is_empty() && plan_pct(45) {
            return (None, pick(&env.ctes).0);
        }
        if wrong {
            return match plan(3) {
                0 => (None, pick(NAMES).into()),
                1 => (Some(pick(RELS).into()), pick(NAMES).into()),
                _ => (Some(pick(NAMES).into()), pick(NAMES).into()),
            };
        }
        let keys: Vec<&(String, String)> = self.cat.tables.keys().collect();
        let (s, t) = pick(&keys).clone();
        let home = up(&self.cat.home) == s;
        (if home && plan_pct(70) { None } else { Some(s) }, t)
    }

    fn column(&self, k: Option<K>, s: &Scope) -> Option<E> {
        let mut v: Vec<Path> = Vec::new();
        for (i, r) in s.rels.iter().enumerate() {
            for c in &r.cols {
                let n = match c.known() {
                    Some(n) if k.map_or(true, |k| k == c.kind) => n,
                    _ => continue,
                };
                let taken = s.rels.iter().any(|r| r.name.as_deref().map(up) == Some(up(n)));
                let owners = s.rels.iter().flat_map(|r| &r.cols).filter(|c| c.name.as_deref().map(up) == Some(up(n))).count();
                if owners == 1 && !taken {
                    v.push((None, n.clone()));
                }
                if let Some(x) = &r.name {
                    if s.rels[..i].iter().chain(&s.rels[i + 1..]).all(|r| r.name.as_deref().map(up) != Some(up(x))) {
                        v.push((Some(x.clone()), n.clone()));
                    }
                }
            }
        }
        if self.slip() {
            v.push((None, pick(NAMES).into()));
            v.push((Some(pick(RELS).into()), pick(NAMES).into()));
        }
        if v.is_empty() {
            None
        } else {
            Some(E::Col(pick(&v)))
        }
    }

    fn literal(&self, k: K) -> E {
        let t = match k {
            K::Text => format!("'{}'", pick(&["", "a", "b", "O", "DATE", "NULL"])),
            K::Number => pick(&["0", "1", "2", "3", "10", "2.5", "0x1F", ".5", "7E2"]).to_string(),
            K::Date => pick(&["CURRENT_DATE", "DATE '2021-01-01'", "date ''"]).to_string(),
            K::Time => pick(&["CURRENT_TIME", "TIME '10:00'", "Time 'x'"]).to_string(),
            K::Stamp => pick(&["CURRENT_TIMESTAMP", "TIMESTAMP '1'", "timestamp '2021'"]).to_string(),
            K::Truth => {
                let (l, r) = (self.literal(K::Number), self.literal(K::Number));
                return E::Cmp(pick(&["=", "!=", "<"]), Box::new(l), Box::new(r));
            }
            K::Shape | K::Any => return E::Lit(K::Any, "NULL".into()),
        };
        E::Lit(k, t)
    }

    pub fn expr(&mut self, k: K, s: &Scope, env: &Env<'a>, depth: u32) -> E {
        self.budget -= 1;
        let k = if self.slip() { pick(KINDS) } else { k };
        if plan(200) == 0 {
            return E::Lit(K::Any, "NULL".into());
        }
        if depth == 0 || self.budget < 0 || plan_pct(30) {
            if plan_pct(65) {
                if let Some(e) = self.column(Some(k), s) {
                    return e;
                }
            }
            return match k {
                // nobody can write these down
                K::Shape if self.budget > 0 && depth > 0 => self.scalar(k, env, depth),
                _ => self.literal(k),
            };
        }
        let d = depth - 1;
        let b = Box::new;
        match plan(8) {
            0 => return self.case(k, s, env, d),
            1 if plan_pct(50) => return self.scalar(k, env, d),
            _ => {}
        }
        match k {
            K::Number => match plan(5) {
                0 => E::Neg(b(self.expr(K::Number, s, env, d))),
                _ => E::Calc(pick(&["+", "-", "*", "/"]), b(self.expr(K::Number, s, env, d)), b(self.expr(K::Number, s, env, d))),
            },
            K::Text => E::Calc("||", b(self.expr(K::Text, s, env, d)), b(self.expr(K::Text, s, env, d))),
            K::Truth => self.predicate(s, env, d),
            _ => match self.column(Some(k), s) {
                Some(e) => e,
                None => self.literal(k),
            },
        }
    }

    fn case(&mut self, k: K, s: &Scope, env: &Env<'a>, d: u32) -> E {
        let of = if plan_pct(40) { Some(pick(KINDS)) } else { None };
        let x = of.map(|o| Box::new(self.expr(o, s, env, d)));
        let w = (0..plan_range(1, 3)).map(|_| (self.expr(of.unwrap_or(K::Truth), s, env, d), self.expr(k, s, env, d))).collect();
        let o = if plan_pct(60) { Some(Box::new(self.expr(k, s, env, d))) } else { None };
        E::Case(x, w, o)
    }

    fn scalar(&mut self, k: K, env: &Env<'a>, d: u32) -> E {
        E::Query(Box::new(self.query(env, Some(&[k]), d)))
    }

    fn tuple(&mut self, k: &[K], s: &Scope, env: &Env<'a>, d: u32) -> E {
        let mut v: Vec<E> = k.iter().map(|k| self.expr(*k, s, env, d)).collect();
        if self.slip() {
            v.push(self.expr(pick(KINDS), s, env, d));
        }
        E::Tuple(v)
    }

    fn predicate(&mut self, s: &Scope, env: &Env<'a>, d: u32) -> E {
        let b = Box::new;
        let any = pick(KINDS);
        let orderly = if self.slip() { any } else { pick(&[K::Text, K::Number, K::Number, K::Date, K::Time, K::Stamp]) };
        match plan(10) {
            0 => E::Not(b(self.expr(K::Truth, s, env, d))),
            1 => {
                let x = E::IsNull(b(self.expr(any, s, env, d)));
                if plan_pct(40) {
                    E::Not(b(x))
                } else {
                    x
                }
            }
            2 | 3 => E::Calc(pick(&["AND", "OR"]), b(self.expr(K::Truth, s, env, d)), b(self.expr(K::Truth, s, env, d))),
            4 => E::Cmp(pick(&["=", "!="]), b(self.expr(any, s, env, d)), b(self.expr(any, s, env, d))),
            5 => E::Cmp(pick(&["<", ">", "<=", ">="]), b(self.expr(orderly, s, env, d)), b(self.expr(orderly, s, env, d))),
            6 => match plan(3) {
                0 => {
                    let k: Vec<K> = (0..plan_range(2, 3)).map(|_| pick(KINDS)).collect();
                    E::Cmp(pick(&["=", "!="]), b(self.tuple(&k, s, env, d)), b(self.tuple(&k, s, env, d)))
                }
                _ => E::Cmp("LIKE", b(self.expr(K::Text, s, env, d)), b(self.expr(K::Text, s, env, d))),
            },
            7 => {
                let x = E::Between(b(self.expr(orderly, s, env, d)), b(self.expr(orderly, s, env, d)), b(self.expr(orderly, s, env, d)));
                if plan_pct(30) {
                    E::Not(b(x))
                } else {
                    x
                }
            }
            _ => {
                let x = b(self.expr(any, s, env, d));
                let set = match plan(4) {
                    0 => Set::Query(Box::new(self.query(env, Some(&[any]), d))),
                    1 => {
                        let fit: Vec<Path> = self.cat.tables.iter().filter(|(_, c)| c.len() == 1 && c[0].kind == any).map(|((s, t), _)| (Some(s.clone()), t.clone())).collect();
                        let ctes: Vec<Path> = env.ctes.iter().filter(|(_, c)| c.len() == 1 && c[0].kind == any).map(|(n, _)| (None, n.clone())).collect();
                        if !ctes.is_empty() && plan_pct(70) {
                            Set::Table(pick(&ctes))
                        } else if !fit.is_empty() {
                            Set::Table(pick(&fit))
                        } else if self.slip() {
                            Set::Table(self.table(env))
                        } else {
                            Set::List(Vec::new())
                        }
                    }
                    _ => {
                        let n = if plan_pct(8) { 0 } else { plan_range(1, 4) };
                        Set::List((0..n).map(|_| self.expr(any, s, env, d)).collect())
                    }
                };
                let x = E::In(x, set);
                if plan_pct(30) {
                    E::Not(b(x))
                } else {
                    x
                }
            }
        }
    }

    fn with(&mut self, env: &Env<'a>, d: u32) -> (Vec<Cte>, Env<'a>) {
        let mut v: Vec<Cte> = Vec::new();
        if d == 0 || self.budget < 0 || !plan_pct(20) {
            return (v, env.clone());
        }
        for _ in 0..plan_range(1, 3) {
            let so_far = Verdict::default().with(&v, env);
            let name = pick(RELS).to_string();
            if so_far.ctes.iter().any(|(n, _)| up(n) == up(&name)) && !self.slip() {
                continue;
            }
            let query = self.query(&so_far, None, d - 1);
            let cols = Verdict::default().query(&query, &so_far, &[]);
            let columns = match cols {
                // some of them, in any order
                Some(c) if plan_pct(35) => {
                    let mut n: Vec<String> = c.iter().filter_map(|c| c.known().cloned()).collect();
                    if plan_pct(60) {
                        for i in (1..n.len()).rev() {
                            n.swap(i, plan(i as u64 + 1) as usize);
                        }
                        n.truncate(plan_range(1, 5) as usize);
                    }
                    if n.is_empty() {
                        None
                    } else {
                        Some(n)
                    }
                }
                _ if self.slip() => Some(vec![pick(NAMES).to_string()]),
                _ => None,
            };
            v.push(Cte { name, columns, query });
        }
        let e = Verdict::default().with(&v, env);
        (v, e)
    }

    pub fn query(&mut self, env: &Env<'a>, want: Option<&[K]>, d: u32) -> Q {
        self.budget -= 2;
        let (with, inner) = self.with(env, d);
        let mut kinds: Option<Vec<K>> = want.map(|w| w.to_vec());
        if self.slip() {
            if let Some(k) = &mut kinds {
                if plan(2) == 0 {
                    k.push(pick(KINDS));
                } else if k.len() > 1 {
                    k.pop();
                }
            }
        }
        let mut body = self.core(&inner, kinds.as_deref(), d);
        while plan_pct(12) && self.budget > 0 {
            let cols = Verdict::default().body(&body, &inner, &[]);
            let mut kinds: Vec<K> = match cols {
                Some(c) => c.iter().map(|c| c.kind).collect(),
                None => break,
            };
            if self.slip() {
                match plan(3) {
                    0 => kinds.push(pick(KINDS)),
                    1 => drop(kinds.pop()),
                    _ => kinds.reverse(),
                }
            }
            if kinds.is_empty() {
                break;
            }
            let r = self.core(&inner, Some(&kinds), d);
            body = Body::Op(pick(&["UNION", "UNION ALL", "INTERSECT", "EXCEPT"]), Box::new(body), Box::new(r));
        }
        let mut order = Vec::new();
        if plan_pct(20) {
            if let Some(cols) = Verdict::default().body(&body, &inner, &[]) {
                let s = Scope { rels: vec![Rel { name: None, cols }], outer: Vec::new() };
                for _ in 0..plan_range(1, 2) {
                    match self.column(None, &s) {
                        Some(e) if plan_pct(60) => order.push(e),
                        _ => order.push(self.expr(pick(KINDS), &s, &inner, d.min(1))),
                    }
                }
            }
        }
        let none = Scope::default();
        let limit = if plan_pct(12) {
            let n = self.expr(K::Number, &none, &inner, d.min(1));
            Some((n, if plan_pct(40) { Some(self.expr(K::Number, &none, &inner, 0)) } else { None }))
        } else {
            None
        };
        Q { with, body, order, limit }
    }

    fn core(&mut self, env: &Env<'a>, want: Option<&[K]>, d: u32) -> Body {
        let random: Vec<K> = (0..plan_range(1, 3)).map(|_| pick(KINDS)).collect();
        let kinds = want.unwrap_or(&random);
        let none = Scope::default();
        if plan_pct(12) {
            let rows = (0..plan_range(1, 3)).map(|_| {
                let mut r: Vec<E> = kinds.iter().map(|k| self.expr(*k, &none, env, d.min(1))).collect();
                if self.slip() {
                    if plan(2) == 0 {
                        r.push(self.literal(pick(KINDS)));
                    } else if r.len() > 1 {
                        r.pop();
                    }
                }
                r
            });
            return Body::Values(rows.collect());
        }
        let mut from = Vec::new();
        let mut s = Scope::default();
        if !plan_pct(8) {
            for _ in 0..[1, 1, 1, 2, 3][plan(5) as usize] {
                let t = self.tab(env, &s, d, 2);
                if let Some(mut r) = Verdict::default().tab(&t, env, &[], &[]) {
                    s.rels.append(&mut r);
                }
                from.push(t);
            }
        }
        let filter = if plan_pct(45) { Some(self.expr(K::Truth, &s, env, d)) } else { None };
        let mut items = Vec::new();
        let mut group = None;
        if plan_pct(12) && !s.rels.is_empty() {
            // a grouping, and what can be made of it
            let by: Vec<E> = (0..plan_range(1, 3)).filter_map(|_| self.column(None, &s)).collect();
            if !by.is_empty() {
                let mut t = Scope::default();
                for e in &by {
                    if let E::Col(p) = e {
                        let ty = Verdict::default().expr(e, &s, env);
                        if let Some(super::check::Ty::One(kind, null)) = ty {
                            t.rels.push(Rel { name: p.0.clone(), cols: vec![Col { name: Some(p.1.clone()), kind, null }] });
                        }
                    }
                }
                let h = if plan_pct(50) { Some(self.expr(K::Truth, &t, env, d.min(1))) } else { None };
                group = Some((by, h));
                s = t;
            }
        }
        if want.is_none() && plan_pct(25) && !from.is_empty() && group.is_none() {
            return Body::Core(Box::new(Core { items: None, from, filter, group }));
        }
        for k in kinds {
            let named: Vec<&Rel> = s.rels.iter().filter(|r| r.name.is_some()).collect();
            if (want.is_none() || self.slip()) && plan_pct(20) && !named.is_empty() && group.is_none() {
                items.push(Item::AllFrom(pick(&named).name.clone().unwrap()));
                continue;
            }
            let e = self.expr(*k, &s, env, d.min(2));
            let a = if plan_pct(60) { Some(pick(NAMES).to_string()) } else { None };
            items.push(Item::Expr(e, a));
        }
        Body::Core(Box::new(Core { items: Some(items), from, filter, group }))
    }

    fn tab(&mut self, env: &Env<'a>, before: &Scope, d: u32, joins: u32) -> Tab {
        self.budget -= 1;
        let taken: Vec<String> = before.rels.iter().filter_map(|r| r.name.as_deref().map(up)).collect();
        if joins > 0 && plan_pct(25) {
            let l = self.tab(env, before, d, joins - 1);
            let mut s = Scope { rels: before.rels.clone(), outer: Vec::new() };
            let left = Verdict::default().tab(&l, env, &[], &[]).unwrap_or_default();
            s.rels.extend(left.clone());
            let r = self.tab(env, &s, d, joins.saturating_sub(1));
            let right = Verdict::default().tab(&r, env, &[], &[]).unwrap_or_default();
            let common: Vec<String> = left
                .iter()
                .flat_map(|r| &r.cols)
                .filter(|c| right.iter().flat_map(|r| &r.cols).any(|x| x.kind == c.kind && x.known().is_some() && x.name == c.name))
                .filter_map(|c| c.name.clone())
                .collect();
            let on = if !common.is_empty() && plan_pct(50) {
                On::Using(vec![pick(&common)])
            } else if self.slip() {
                On::Using(vec![pick(NAMES).to_string()])
            } else {
                let s = Scope { rels: left.into_iter().chain(right).collect(), outer: Vec::new() };
                On::Expr(Box::new(self.expr(K::Truth, &s, env, d.min(2))))
            };
            return Tab::Join(pick(&[J::Inner, J::Left, J::Right, J::Full, J::Cross]), Box::new(l), Box::new(r), on);
        }
        let alias = |me: &Self, own: Option<&str>| -> Option<String> {
            let must = own.map_or(false, |n| taken.contains(&up(n)));
            if !must && plan_pct(60) {
                return None;
            }
            for _ in 0..6 {
                let a = pick(RELS);
                if !taken.contains(&up(a)) || me.slip() {
                    return Some(a.to_string());
                }
            }
            None
        };
        if d > 0 && self.budget > 0 && plan_pct(18) {
            let q = self.query(env, None, d - 1);
            return Tab::Query(Box::new(q), alias(self, None));
        }
        let p = self.table(env);
        let a = alias(self, Some(&p.1));
        Tab::Named(p, a)
    }

    pub fn statement(&mut self) -> St {
        let env = self.env();
        let d = plan_range(1, 3) as u32;
        match plan(10) {
            0 | 1 => {
                let (with, inner) = self.with(&env, d);
                let table = self.table(&env);
                let cols = match self.cat.table(&table) {
                    Some(c) => c.clone(),
                    None => Vec::new(),
                };
                let mut to: Vec<Col> = cols.clone();
                let columns = if plan_pct(60) {
                    for i in (1..to.len()).rev() {
                        to.swap(i, plan(i as u64 + 1) as usize);
                    }
                    let slip = self.slip();
                    to.retain(|c| (!c.null && !slip) || plan_pct(70));
                    if self.slip() && !to.is_empty() {
                        to.push(pick(&to));
                    }
                    let mut n: Vec<String> = to.iter().map(|c| c.name.clone().unwrap()).collect();
                    if self.slip() || n.is_empty() {
                        n.push(pick(NAMES).to_string());
                    }
                    Some(n)
                } else {
                    if self.slip() {
                        to.pop();
                    }
                    None
                };
                let mut kinds: Vec<K> = to.iter().map(|c| c.kind).collect();
                if self.slip() || kinds.is_empty() {
                    kinds.push(pick(KINDS));
                }
                if plan_pct(50) {
                    // values that are never null
                    let v = kinds.iter().map(|k| if *k == K::Shape { E::Lit(K::Any, "NULL".into()) } else { self.literal(*k) }).collect();
                    return St::Insert { with, table, columns, body: Body::Values(vec![v]) };
                }
                let body = self.core(&inner, Some(&kinds), d);
                St::Insert { with, table, columns, body }
            }
            2 => {
                let (with, inner) = self.with(&env, d);
                let table = self.table(&env);
                let cols = self.cat.table(&table).cloned().unwrap_or_default();
                let s = Scope { rels: vec![Rel { name: Some(table.1.clone()), cols: cols.clone() }], outer: Vec::new() };
                let mut left = cols;
                let mut sets = Vec::new();
                for _ in 0..plan_range(1, 3) {
                    if left.is_empty() {
                        break;
                    }
                    let c = if self.slip() { pick(&left) } else { left.remove(plan(left.len() as u64) as usize) };
                    let mut names = vec![c.name.clone().unwrap()];
                    if plan_pct(15) {
                        if let Some(i) = left.iter().position(|x| x.kind == c.kind) {
                            names.push(left.remove(i).name.unwrap());
                        }
                    }
                    if self.slip() {
                        names.push(pick(NAMES).to_string());
                    }
                    let depth = if c.null { d } else { plan(2) as u32 };
                    let e = if plan(60) == 0 { self.tuple(&[c.kind, c.kind], &s, &inner, 0) } else { self.expr(c.kind, &s, &inner, depth) };
                    sets.push((names, e));
                }
                if sets.is_empty() {
                    return St::Describe(table);
                }
                let filter = if plan_pct(60) { Some(self.expr(K::Truth, &s, &inner, d)) } else { None };
                St::Update { with, table, sets, filter }
            }
            3 => {
                let (with, inner) = self.with(&env, d);
                let table = self.table(&env);
                let cols = self.cat.table(&table).cloned().unwrap_or_default();
                let s = Scope { rels: vec![Rel { name: Some(table.1.clone()), cols }], outer: Vec::new() };
                let filter = if plan_pct(85) { Some(self.expr(K::Truth, &s, &inner, d)) } else { None };
                St::Delete { with, table, filter }
            }
            4 if plan_pct(50) => {
                if plan_pct(50) {
                    St::Attach((None, pick(NAMES).to_string()))
                } else {
                    St::Describe(self.table(&env))
                }
            }
            _ => St::Select(self.query(&env, None, d)),
        }
    }
}
