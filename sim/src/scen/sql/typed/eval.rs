//! Evaluates statements on rows that fit the catalogue, to see which values
//! really come out. `Err` means that nothing can be said.
use super::check::{up, Catalogue, Col, Env, Rel, Verdict};
use super::tree::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    One(K, Option<u8>),
    Many(Vec<V>),
}

pub type Row = Vec<V>;
type R<A> = Result<A, ()>;

pub struct Data<'a> {
    pub cat: &'a Catalogue,
    pub rows: &'a BTreeMap<(String, String), Vec<Row>>,
}

#[derive(Clone)]
struct Here<'a> {
    data: &'a Data<'a>,
    ctes: Vec<(String, Vec<Col>, Vec<Row>)>,
}

/// Relations, and rows with a part of each of them.
struct Product {
    rels: Vec<Rel>,
    rows: Vec<Vec<Row>>,
}

const MANY: usize = 60;

impl V {
    fn null(&self) -> bool {
        matches!(self, V::One(_, None))
    }
    fn is(&self, k: K) -> R<Option<u8>> {
        match self {
            V::One(x, v) if *x == k || *x == K::Any => Ok(*v),
            _ => Err(()),
        }
    }
}

fn truth(v: &V) -> R<bool> {
    Ok(v.is(K::Truth)?.map_or(false, |b| b & 1 == 1))
}

/// None: unknown because of a null
fn equal(a: &V, b: &V) -> R<Option<bool>> {
    match (a, b) {
        (V::One(k, x), V::One(l, y)) if k == l || *k == K::Any || *l == K::Any => match (x, y) {
            (Some(x), Some(y)) => Ok(Some(x == y)),
            _ => Ok(None),
        },
        (V::Many(x), V::Many(y)) if x.len() == y.len() => {
            let mut r = Some(true);
            for (x, y) in x.iter().zip(y) {
                match equal(x, y)? {
                    Some(false) => return Ok(Some(false)),
                    None => r = None,
                    _ => {}
                }
            }
            Ok(r)
        }
        _ => Err(()),
    }
}

fn bit(b: Option<bool>) -> V {
    V::One(K::Truth, b.map(|b| b as u8))
}

impl<'a> Here<'a> {
    fn env(&self) -> Env<'a> {
        Env { cat: self.data.cat, ctes: self.ctes.iter().map(|(n, c, _)| (n.clone(), c.clone())).collect() }
    }

    fn with(&self, with: &[Cte]) -> R<Here<'a>> {
        let mut h = self.clone();
        for c in with {
            let mut rows = h.query(&c.query)?;
            let mut cols = Verdict::default().query(&c.query, &h.env(), &[]).ok_or(())?;
            if let Some(n) = &c.columns {
                let at = super::check::listed(n, &cols).ok_or(())?;
                for r in &mut rows {
                    *r = at.iter().map(|i| r.get(*i).cloned().ok_or(())).collect::<R<_>>()?;
                }
                cols = at.into_iter().zip(n).map(|(i, n)| Col { name: Some(n.clone()), ..cols[i].clone() }).collect();
            }
            h.ctes.retain(|(n, _, _)| up(n) != up(&c.name));
            h.ctes.push((c.name.clone(), cols, rows));
        }
        Ok(h)
    }

    fn table(&self, p: &Path) -> R<(Vec<Col>, Vec<Row>)> {
        if p.0.is_none() {
            if let Some((_, c, r)) = self.ctes.iter().find(|(n, _, _)| up(n) == up(&p.1)) {
                return Ok((c.clone(), r.clone()));
            }
        }
        let cols = self.data.cat.table(p).ok_or(())?;
        let key = (up(p.0.as_ref().unwrap_or(&self.data.cat.home)), up(&p.1));
        Ok((cols.clone(), self.data.rows.get(&key).cloned().unwrap_or_default()))
    }

    fn column(&self, p: &Path, rels: &[Rel], row: &[Row]) -> R<V> {
        let mut found = Vec::new();
        for (r, v) in rels.iter().zip(row) {
            if p.0.is_some() && r.name.as_deref().map(up) != p.0.as_deref().map(up) {
                continue;
            }
            for (c, v) in r.cols.iter().zip(v) {
                if c.name.as_deref().map(up) == Some(up(&p.1)) {
                    found.push(v.clone());
                }
            }
        }
        if found.len() == 1 {
            Ok(found.pop().unwrap())
        } else {
            Err(())
        }
    }

    fn expr(&self, e: &E, rels: &[Rel], row: &[Row]) -> R<V> {
        let get = |e: &E| self.expr(e, rels, row);
        Ok(match e {
            E::Lit(K::Any, _) => V::One(K::Any, None),
            E::Lit(k, t) => V::One(*k, Some(t.bytes().fold(0, |a: u8, b| a.wrapping_mul(7).wrapping_add(b)))),
            E::Col(p) => self.column(p, rels, row)?,
            E::Tuple(v) => V::Many(v.iter().map(get).collect::<R<_>>()?),
            E::Neg(x) => V::One(K::Number, get(x)?.is(K::Number)?.map(|x| x.wrapping_neg())),
            E::Not(x) => V::One(K::Truth, get(x)?.is(K::Truth)?.map(|x| x ^ 1)),
            E::IsNull(x) => match get(x)? {
                V::One(_, v) => bit(Some(v.is_none())),
                _ => return Err(()),
            },
            E::Calc(op, l, r) => {
                let (l, r) = (get(l)?, get(r)?);
                match *op {
                    "AND" | "OR" => {
                        let (l, r) = (l.is(K::Truth)?, r.is(K::Truth)?);
                        let short = (*op == "OR") as u8;
                        if l.map(|x| x & 1) == Some(short) || r.map(|x| x & 1) == Some(short) {
                            V::One(K::Truth, Some(short))
                        } else {
                            V::One(K::Truth, l.and(r))
                        }
                    }
                    op => {
                        let k = if op == "||" { K::Text } else { K::Number };
                        let (l, r) = (l.is(k)?, r.is(k)?);
                        V::One(k, l.and_then(|l| r.map(|r| l.wrapping_mul(3).wrapping_add(r))))
                    }
                }
            }
            E::Cmp(op, l, r) => {
                let (l, r) = (get(l)?, get(r)?);
                match *op {
                    "=" => bit(equal(&l, &r)?),
                    "!=" => bit(equal(&l, &r)?.map(|x| !x)),
                    op => {
                        equal(&l, &r)?;
                        match (l, r) {
                            (V::One(_, Some(l)), V::One(_, Some(r))) => bit(Some(match op {
                                "<" => l < r,
                                "<=" => l <= r,
                                ">" => l > r,
                                ">=" => l >= r,
                                _ => l & 1 == r & 1,
                            })),
                            (V::One(..), V::One(..)) => bit(None),
                            _ => return Err(()),
                        }
                    }
                }
            }
            E::Between(x, l, u) => {
                let (x, l, u) = (get(x)?, get(l)?, get(u)?);
                equal(&x, &l)?;
                equal(&x, &u)?;
                let part = |c: Option<bool>| c;
                let cmp = |a: &V, b: &V| match (a, b) {
                    (V::One(_, Some(a)), V::One(_, Some(b))) => part(Some(a <= b)),
                    _ => None,
                };
                match (cmp(&l, &x), cmp(&x, &u)) {
                    (Some(false), _) | (_, Some(false)) => bit(Some(false)),
                    (Some(true), Some(true)) => bit(Some(true)),
                    _ => bit(None),
                }
            }
            E::Case(x, w, o) => {
                let x = match x {
                    None => None,
                    Some(x) => Some(get(x)?),
                };
                let mut result = None;
                let mut kind = K::Any;
                for (g, b) in w {
                    let g = get(g)?;
                    let b = get(b)?;
                    if let V::One(k, _) = b {
                        kind = k;
                    }
                    let hit = match &x {
                        None => truth(&g)?,
                        Some(x) => equal(x, &g)? == Some(true),
                    };
                    if hit && result.is_none() {
                        result = Some(b);
                    }
                }
                match (result, o) {
                    (Some(r), _) => r,
                    (None, Some(o)) => get(o)?,
                    (None, None) => V::One(kind, None),
                }
            }
            E::In(x, set) => {
                let x = get(x)?;
                let values: Vec<V> = match set {
                    Set::List(v) => v.iter().map(get).collect::<R<_>>()?,
                    Set::Query(q) => self.query(q)?.into_iter().map(|mut r| r.pop().ok_or(())).collect::<R<_>>()?,
                    Set::Table(p) => self.table(p)?.1.into_iter().map(|mut r| r.pop().ok_or(())).collect::<R<_>>()?,
                };
                let mut r = Some(false);
                for v in &values {
                    match equal(&x, v)? {
                        Some(true) => {
                            r = Some(true);
                            break;
                        }
                        None => r = None,
                        _ => {}
                    }
                }
                bit(r)
            }
            E::Query(q) => {
                let cols = Verdict::default().query(q, &self.env(), &[]).ok_or(())?;
                if cols.len() != 1 {
                    return Err(());
                }
                match self.query(q)?.into_iter().next() {
                    Some(mut r) => r.pop().ok_or(())?,
                    None => V::One(cols[0].kind, None),
                }
            }
        })
    }

    fn query(&self, q: &Q) -> R<Vec<Row>> {
        let h = self.with(&q.with)?;
        let mut rows = h.body(&q.body)?;
        if let Some((n, _)) = &q.limit {
            let n = h.expr(n, &[], &[])?.is(K::Number)?;
            rows.truncate(n.map_or(MANY, |n| n as usize));
        }
        Ok(rows)
    }

    fn body(&self, b: &Body) -> R<Vec<Row>> {
        match b {
            Body::Values(rows) => rows.iter().map(|r| r.iter().map(|e| self.expr(e, &[], &[])).collect()).collect(),
            Body::Op(op, l, r) => {
                let (mut l, r) = (self.body(l)?, self.body(r)?);
                match *op {
                    "INTERSECT" => l.retain(|x| r.contains(x)),
                    "EXCEPT" => l.retain(|x| !r.contains(x)),
                    _ => l.extend(r),
                }
                l.truncate(MANY);
                Ok(l)
            }
            Body::Core(c) => {
                let p = self.from(&c.from)?;
                let mut out = Vec::new();
                for row in &p.rows {
                    if let Some(f) = &c.filter {
                        if !truth(&self.expr(f, &p.rels, row)?)? {
                            continue;
                        }
                    }
                    if let Some((_, Some(h))) = &c.group {
                        if !truth(&self.expr(h, &p.rels, row)?)? {
                            continue;
                        }
                    }
                    let mut v = Vec::new();
                    match &c.items {
                        None => v.extend(row.iter().flatten().cloned()),
                        Some(items) => {
                            for i in items {
                                match i {
                                    Item::Expr(e, _) => v.push(self.expr(e, &p.rels, row)?),
                                    Item::AllFrom(n) => {
                                        let at = p.rels.iter().position(|r| r.name.as_deref().map(up) == Some(up(n))).ok_or(())?;
                                        v.extend(row[at].iter().cloned());
                                    }
                                }
                            }
                        }
                    }
                    out.push(v);
                }
                Ok(out)
            }
        }
    }

    fn from(&self, tabs: &[Tab]) -> R<Product> {
        let mut p = Product { rels: Vec::new(), rows: vec![Vec::new()] };
        for t in tabs {
            let q = self.tab(t)?;
            p = Product { rels: p.rels.into_iter().chain(q.rels).collect(), rows: pairs(&p.rows, &q.rows).into_iter().map(|x| x.2).collect() };
        }
        Ok(p)
    }

    fn tab(&self, t: &Tab) -> R<Product> {
        Ok(match t {
            Tab::Named(p, a) => {
                let (cols, rows) = self.table(p)?;
                Product { rels: vec![Rel { name: Some(a.clone().unwrap_or(p.1.clone())), cols }], rows: rows.into_iter().map(|r| vec![r]).collect() }
            }
            Tab::Query(q, a) => {
                let cols = Verdict::default().query(q, &self.env(), &[]).ok_or(())?;
                Product { rels: vec![Rel { name: a.clone(), cols }], rows: self.query(q)?.into_iter().map(|r| vec![r]).collect() }
            }
            Tab::Join(j, l, r, on) => {
                let (l, r) = (self.tab(l)?, self.tab(r)?);
                let rels: Vec<Rel> = l.rels.iter().chain(&r.rels).cloned().collect();
                let mut rows = Vec::new();
                let (mut hit_l, mut hit_r) = (vec![false; l.rows.len()], vec![false; r.rows.len()]);
                for (i, k, row) in pairs(&l.rows, &r.rows) {
                    let hit = match on {
                        On::Expr(e) => truth(&self.expr(e, &rels, &row)?)?,
                        On::Using(n) => {
                            let mut hit = true;
                            for n in n {
                                let p = (None, n.clone());
                                let a = self.column(&p, &l.rels, &row[..l.rels.len()])?;
                                let b = self.column(&p, &r.rels, &row[l.rels.len()..])?;
                                hit &= equal(&a, &b)? == Some(true);
                            }
                            hit
                        }
                    };
                    if hit {
                        hit_l[i] = true;
                        hit_r[k] = true;
                        rows.push(row);
                    }
                }
                let none = |rels: &[Rel]| -> Vec<Row> { rels.iter().map(|r| r.cols.iter().map(|c| V::One(c.kind, None)).collect()).collect() };
                if matches!(j, J::Left | J::Full) {
                    for (i, x) in l.rows.iter().enumerate().filter(|x| !hit_l[x.0]) {
                        let _ = i;
                        rows.push(x.iter().cloned().chain(none(&r.rels)).collect());
                    }
                }
                if matches!(j, J::Right | J::Full) {
                    for (_, x) in r.rows.iter().enumerate().filter(|x| !hit_r[x.0]) {
                        rows.push(none(&l.rels).into_iter().chain(x.iter().cloned()).collect());
                    }
                }
                rows.truncate(MANY);
                Product { rels, rows }
            }
        })
    }
}

fn pairs(l: &[Vec<Row>], r: &[Vec<Row>]) -> Vec<(usize, usize, Vec<Row>)> {
    let mut v = Vec::new();
    for (i, x) in l.iter().enumerate() {
        for (k, y) in r.iter().enumerate() {
            if v.len() < MANY {
                v.push((i, k, x.iter().chain(y).cloned().collect()));
            }
        }
    }
    v
}

/// The rows a query returns.
pub fn rows(q: &Q, data: &Data) -> R<Vec<Row>> {
    Here { data, ctes: Vec::new() }.query(q)
}

/// The values a statement stores, each with its column.
pub fn stored(st: &St, data: &Data) -> R<Vec<(Col, V)>> {
    let h = Here { data, ctes: Vec::new() };
    let mut out = Vec::new();
    match st {
        St::Insert { with, table, columns, body } => {
            let (target, _) = h.table(table)?;
            let rows = h.with(with)?.body(body)?;
            for r in rows {
                let to: Vec<&Col> = match columns {
                    None => target.iter().collect(),
                    Some(n) => n.iter().map(|n| target.iter().find(|c| c.name.as_deref().map(up) == Some(up(n))).ok_or(())).collect::<R<_>>()?,
                };
                for c in &target {
                    let v = to.iter().position(|x| x.name == c.name).and_then(|i| r.get(i)).cloned();
                    out.push((c.clone(), v.unwrap_or(V::One(c.kind, None))));
                }
            }
        }
        St::Update { with, table, sets, filter } => {
            let inner = h.with(with)?;
            let (target, rows) = h.table(table)?;
            let rels = vec![Rel { name: Some(table.1.clone()), cols: target.clone() }];
            for r in rows {
                let row = vec![r];
                if let Some(f) = filter {
                    if !truth(&inner.expr(f, &rels, &row)?)? {
                        continue;
                    }
                }
                for (names, e) in sets {
                    let v = inner.expr(e, &rels, &row)?;
                    for n in names {
                        let c = target.iter().find(|c| c.name.as_deref().map(up) == Some(up(n))).ok_or(())?;
                        out.push((c.clone(), v.clone()));
                    }
                }
            }
        }
        _ => {}
    }
    Ok(out)
}

/// Does the value belong to the kind, and is null only where it may be?
pub fn fits(v: &V, kind: K, null: bool) -> bool {
    match v {
        V::Many(_) => false,
        V::One(k, _) => (null || !v.null()) && (*k == kind || *k == K::Any || kind == K::Any),
    }
}
