//! Independent reader of SQL statements (recursive descent over the grammar
//! the project documents in parser.lalrpop).
use super::form::*;

pub const KEYWORDS: &[&str] = &[
    "ALL", "AND", "AS", "ASC", "ATTACH", "BETWEEN", "BY", "CASE", "COLLATE", "CROSS", "CURRENT_DATE", "CURRENT_TIME",
    "CURRENT_TIMESTAMP", "DATE", "DELETE", "DESC", "DESCRIBE", "DISTINCT", "ELSE", "END", "EXPLAIN", "EXCEPT", "FILE", "FROM", "FULL",
    "GROUP", "HAVING", "IN", "INNER", "INSERT", "INTERSECT", "INTO", "IS", "ISNULL", "JOIN", "LEFT", "LIMIT", "LIKE", "NATURAL", "NOT",
    "NOTNULL", "NULL", "OFFSET", "ON", "OR", "ORDER", "OUTER", "PLAN", "QUERY", "RIGHT", "SELECT", "SET", "TABLE", "THEN", "TIME",
    "TIMESTAMP", "UPDATE", "UNION", "USING", "VALUES", "WHEN", "WHERE", "WITH",
];

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    K(&'static str),
    Id(String),
    Num(String),
    Str(String),
    S(&'static str),
}

pub fn tokens(text: &str) -> Option<Vec<T>> {
    let b = text.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let run = |mut i: usize, f: fn(u8) -> bool| {
        while i < b.len() && f(b[i]) {
            i += 1;
        }
        i
    };
    let digit: fn(u8) -> bool = |c| c.is_ascii_digit();
    let exponent = |i: usize| {
        if b.get(i) == Some(&b'E') {
            let j = if matches!(b.get(i + 1), Some(b'+') | Some(b'-')) { i + 2 } else { i + 1 };
            let k = run(j, digit);
            if k > j {
                return k;
            }
        }
        i
    };
    'next: while i < b.len() {
        let c = text[i..].chars().next().unwrap();
        if c.is_whitespace() {
            i += c.len_utf8();
            continue;
        }
        let from = i;
        if c.is_ascii_alphabetic() || c == '_' {
            i = run(i, |c| c.is_ascii_alphanumeric() || c == b'_');
            let w = &text[from..i];
            v.push(match KEYWORDS.iter().find(|k| k.eq_ignore_ascii_case(w)) {
                Some(k) => T::K(k),
                None => T::Id(w.into()),
            });
        } else if c.is_ascii_digit() {
            let hex = run(i + 2, |c| c.is_ascii_hexdigit());
            if text[i..].starts_with("0x") && hex > i + 2 {
                i = hex;
            } else {
                i = run(i, digit);
                if b.get(i) == Some(&b'.') {
                    i = run(i + 1, digit);
                }
                i = exponent(i);
            }
            v.push(T::Num(text[from..i].into()));
        } else if c == '.' && b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) {
            i = exponent(run(i + 1, digit));
            v.push(T::Num(text[from..i].into()));
        } else if c == '\'' {
            for (k, x) in text[i + 1..].char_indices() {
                if x == '\'' {
                    v.push(T::Str(text[from + 1..from + 1 + k].into()));
                    i = from + k + 2;
                    continue 'next;
                }
                if x.is_ascii_control() {
                    return None;
                }
            }
            return None;
        } else {
            const SYMBOLS: [&str; 15] = ["!=", "<=", ">=", "||", ",", ".", "(", ")", "*", "/", "+", "-", "=", "<", ">"];
            let s = SYMBOLS.iter().find(|s| text[i..].starts_with(**s))?;
            v.push(T::S(s));
            i += s.len();
        }
    }
    Some(v)
}

struct P {
    t: Vec<T>,
    i: usize,
}

type R = Option<String>;

impl P {
    fn peek(&self, k: usize) -> Option<&T> {
        self.t.get(self.i + k)
    }
    fn is(&self, x: &T) -> bool {
        self.peek(0) == Some(x)
    }
    fn eat(&mut self, x: T) -> bool {
        let r = self.is(&x);
        if r {
            self.i += 1;
        }
        r
    }
    fn kw(&mut self, k: &'static str) -> bool {
        self.eat(T::K(k))
    }
    fn sym(&mut self, s: &'static str) -> bool {
        self.eat(T::S(s))
    }
    fn need_kw(&mut self, k: &'static str) -> Option<()> {
        if self.kw(k) { Some(()) } else { None }
    }
    fn need(&mut self, s: &'static str) -> Option<()> {
        if self.sym(s) { Some(()) } else { None }
    }
    fn id(&mut self) -> R {
        match self.peek(0) {
            Some(T::Id(x)) => {
                let x = x.clone();
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
    fn string(&mut self) -> R {
        match self.peek(0) {
            Some(T::Str(x)) => {
                let x = x.clone();
                self.i += 1;
                Some(x)
            }
            _ => None,
        }
    }
    fn list<A>(&mut self, f: fn(&mut P) -> Option<A>) -> Option<Vec<A>> {
        let mut v = vec![f(self)?];
        while self.sym(",") {
            v.push(f(self)?);
        }
        Some(v)
    }
    fn qualified(&mut self, max: usize) -> Option<Vec<String>> {
        let mut v = vec![self.id()?];
        while v.len() < max && self.sym(".") {
            v.push(self.id()?);
        }
        Some(v)
    }
    fn selects(&self, k: usize) -> bool {
        matches!(self.peek(k), Some(T::K("SELECT")) | Some(T::K("VALUES")) | Some(T::K("WITH")))
    }
    fn if_kw(&mut self, k: &'static str, f: fn(&mut P) -> R) -> Option<R> {
        if self.kw(k) { Some(Some(f(self)?)) } else { Some(None) }
    }

    fn top(&mut self) -> R {
        if self.kw("EXPLAIN") {
            if self.kw("QUERY") {
                self.need_kw("PLAN")?;
            }
            return Some(f_explain(self.dml()?));
        }
        if self.kw("ATTACH") {
            self.need_kw("FILE")?;
            let path = self.string()?;
            self.need_kw("AS")?;
            return Some(f_attach(self.qualified(2)?, path));
        }
        if self.kw("DESCRIBE") {
            return Some(f_describe(self.qualified(2)?));
        }
        self.dml()
    }

    fn dml(&mut self) -> R {
        let with = self.with()?;
        if self.kw("INSERT") {
            self.need_kw("INTO")?;
            let n = self.qualified(3)?;
            let mut c = None;
            if self.sym("(") {
                c = Some(self.list(P::id)?);
                self.need(")")?;
            }
            return Some(f_insert(with, n, c, self.core()?));
        }
        if self.kw("DELETE") {
            self.need_kw("FROM")?;
            let n = self.qualified(3)?;
            return Some(f_delete(with, n, self.if_kw("WHERE", P::expr)?));
        }
        if self.kw("UPDATE") {
            let n = self.qualified(3)?;
            self.need_kw("SET")?;
            let a = self.list(|p| {
                let c = p.list(P::id)?;
                p.need("=")?;
                Some(f_assign(c, p.expr()?))
            })?;
            return Some(f_update(with, n, a, self.if_kw("WHERE", P::expr)?));
        }
        self.select_after(with)
    }

    fn with(&mut self) -> Option<Vec<String>> {
        if !self.kw("WITH") {
            return Some(Vec::new());
        }
        self.list(|p| {
            let n = p.id()?;
            let mut c = None;
            if p.sym("(") {
                c = Some(p.list(P::id)?);
                p.need(")")?;
            }
            p.need_kw("AS")?;
            p.need("(")?;
            let q = p.select()?;
            p.need(")")?;
            Some(f_cte(n, c, q))
        })
    }

    fn select(&mut self) -> R {
        let with = self.with()?;
        self.select_after(with)
    }

    fn select_after(&mut self, with: Vec<String>) -> R {
        let mut set = self.core()?;
        loop {
            let op = if self.kw("UNION") {
                if self.kw("ALL") { "union-all" } else { "union" }
            } else if self.kw("INTERSECT") {
                "intersect"
            } else if self.kw("EXCEPT") {
                "except"
            } else {
                break;
            };
            set = f_op(op, set, self.core()?);
        }
        let mut order = Vec::new();
        if self.kw("ORDER") {
            self.need_kw("BY")?;
            order = self.list(|p| {
                let e = p.expr()?;
                let c = p.if_kw("COLLATE", P::id)?;
                let down = !p.kw("ASC") && p.kw("DESC");
                Some(f_order(e, c, down))
            })?;
        }
        let mut limit = None;
        if self.kw("LIMIT") {
            let n = self.expr()?;
            let o = if self.sym(",") || self.kw("OFFSET") { Some(self.expr()?) } else { None };
            limit = Some(f_limit(n, o));
        }
        Some(f_select(with, set, order, limit))
    }

    fn core(&mut self) -> R {
        if self.kw("VALUES") {
            return Some(f_values(self.list(|p| {
                p.need("(")?;
                let v = p.list(P::expr)?;
                p.need(")")?;
                Some(v)
            })?));
        }
        self.need_kw("SELECT")?;
        let distinct = !self.kw("ALL") && self.kw("DISTINCT");
        let columns = if self.sym("*") {
            None
        } else {
            Some(self.list(|p| {
                if let (Some(T::Id(n)), Some(T::S(".")), Some(T::S("*"))) = (p.peek(0), p.peek(1), p.peek(2)) {
                    let n = n.clone();
                    p.i += 3;
                    return Some(f_all_from(n));
                }
                let e = p.expr()?;
                Some(f_column(e, p.alias()?))
            })?)
        };
        let from = if self.kw("FROM") { self.list(P::table)? } else { Vec::new() };
        let w = self.if_kw("WHERE", P::expr)?;
        let mut group = None;
        if self.kw("GROUP") {
            self.need_kw("BY")?;
            let g = self.list(P::expr)?;
            group = Some(f_group(g, self.if_kw("HAVING", P::expr)?));
        }
        Some(f_query(distinct, columns, from, w, group))
    }

    fn alias(&mut self) -> Option<R> {
        if self.kw("AS") {
            return Some(Some(self.id()?));
        }
        Some(self.id())
    }

    fn table(&mut self) -> R {
        let mut l = self.one_table()?;
        loop {
            let natural = self.kw("NATURAL");
            let op = if !natural && self.kw("CROSS") {
                self.need_kw("JOIN")?;
                "cross".to_string()
            } else {
                let kind = if self.kw("INNER") {
                    Some("inner")
                } else if self.kw("LEFT") {
                    self.kw("OUTER");
                    Some("left")
                } else if self.kw("RIGHT") {
                    self.kw("OUTER");
                    Some("right")
                } else if self.kw("FULL") {
                    self.kw("OUTER");
                    Some("full")
                } else {
                    None
                };
                if !self.kw("JOIN") {
                    if natural || kind.is_some() {
                        return None;
                    }
                    return Some(l);
                }
                format!("{}-{}", if natural { "natural" } else { "join" }, kind.unwrap_or("inner"))
            };
            let r = self.one_table()?;
            let by = if self.kw("ON") {
                f_on(self.expr()?)
            } else {
                self.need_kw("USING")?;
                self.need("(")?;
                let c = self.list(P::id)?;
                self.need(")")?;
                f_using(c)
            };
            l = f_join(&op, l, r, by);
        }
    }

    fn one_table(&mut self) -> R {
        if self.sym("(") {
            if self.selects(0) {
                let s = self.select()?;
                self.need(")")?;
                return Some(f_from_select(s, self.alias()?));
            }
            let t = self.table()?;
            self.need(")")?;
            return Some(t);
        }
        let n = self.qualified(3)?;
        Some(f_named(n, self.alias()?))
    }

    fn expr(&mut self) -> R {
        let mut l = self.and()?;
        while self.kw("OR") {
            l = f_op("or", l, self.and()?);
        }
        Some(l)
    }

    fn and(&mut self) -> R {
        let mut l = self.not()?;
        while self.kw("AND") {
            l = f_op("and", l, self.not()?);
        }
        Some(l)
    }

    fn not(&mut self) -> R {
        if self.kw("NOT") {
            return Some(f_op_n("not", vec![self.complex()?]));
        }
        self.complex()
    }

    fn complex(&mut self) -> R {
        if !self.kw("CASE") {
            return self.comparison();
        }
        let e = if self.is(&T::K("WHEN")) { None } else { Some(self.expr()?) };
        let mut when = Vec::new();
        while self.kw("WHEN") {
            let g = self.expr()?;
            self.need_kw("THEN")?;
            when.push((g, self.expr()?));
        }
        if when.is_empty() {
            return None;
        }
        let other = self.if_kw("ELSE", P::expr)?;
        self.need_kw("END")?;
        Some(f_case(e, when, other))
    }

    fn comparison(&mut self) -> R {
        let mut l = self.sum()?;
        let not = |x: String| f_op_n("not", vec![x]);
        let is_null = |x: String| f_op_n("is-null", vec![x]);
        loop {
            let mut done = false;
            for s in ["=", "!=", "<", ">", "<=", ">="] {
                if self.sym(s) {
                    l = f_op(s, l, self.sum()?);
                    done = true;
                    break;
                }
            }
            if done {
                continue;
            }
            if self.kw("LIKE") {
                l = f_op("like", l, self.sum()?);
            } else if self.kw("ISNULL") {
                l = is_null(l);
            } else if self.kw("NOTNULL") {
                l = not(is_null(l));
            } else if self.kw("IS") {
                l = if self.kw("NOT") { not(is_null(l)) } else { is_null(l) };
                self.need_kw("NULL")?;
            } else if self.kw("IN") {
                l = self.set(l)?;
            } else if self.kw("BETWEEN") {
                l = self.range(l)?;
            } else if self.kw("NOT") {
                l = if self.kw("NULL") {
                    not(is_null(l))
                } else if self.kw("IN") {
                    not(self.set(l)?)
                } else {
                    self.need_kw("BETWEEN")?;
                    not(self.range(l)?)
                };
            } else {
                return Some(l);
            }
        }
    }

    fn range(&mut self, l: String) -> R {
        let a = self.sum()?;
        self.need_kw("AND")?;
        let b = self.sum()?;
        Some(f_op_n("between", vec![l, a, b]))
    }

    fn set(&mut self, l: String) -> R {
        if !self.sym("(") {
            return Some(f_op("in", l, f_qualified(self.qualified(3)?)));
        }
        let s = if self.selects(0) {
            f_op_n("sub", vec![self.select()?])
        } else if self.is(&T::S(")")) {
            f_op_n("list", Vec::new())
        } else {
            f_op_n("list", self.list(P::expr)?)
        };
        self.need(")")?;
        Some(f_op("in", l, s))
    }

    fn sum(&mut self) -> R {
        let mut l = self.product()?;
        'more: loop {
            for s in ["+", "-", "||"] {
                if self.sym(s) {
                    l = f_op(s, l, self.product()?);
                    continue 'more;
                }
            }
            return Some(l);
        }
    }

    fn product(&mut self) -> R {
        let mut l = self.unary()?;
        'more: loop {
            for s in ["*", "/"] {
                if self.sym(s) {
                    l = f_op(s, l, self.unary()?);
                    continue 'more;
                }
            }
            return Some(l);
        }
    }

    fn unary(&mut self) -> R {
        let mut minus = 0;
        loop {
            if self.sym("-") {
                minus += 1;
            } else if !self.sym("+") {
                break;
            }
        }
        let mut e = self.primary()?;
        for _ in 0..minus {
            e = f_op_n("neg", vec![e]);
        }
        Some(e)
    }

    fn primary(&mut self) -> R {
        if self.sym("(") {
            let r = if self.selects(0) {
                f_op_n("sub", vec![self.select()?])
            } else {
                let mut v = self.list(P::expr)?;
                if v.len() == 1 { v.remove(0) } else { f_op_n("tuple", v) }
            };
            self.need(")")?;
            return Some(r);
        }
        match self.peek(0)?.clone() {
            T::Num(x) => {
                self.i += 1;
                Some(f_text("number", &x))
            }
            T::Str(x) => {
                self.i += 1;
                Some(f_text("text", &x))
            }
            T::Id(_) => Some(f_qualified(self.qualified(3)?)),
            T::K(k) => {
                self.i += 1;
                match k {
                    "NULL" => Some("null".into()),
                    "CURRENT_TIME" => Some("current-time".into()),
                    "CURRENT_DATE" => Some("current-date".into()),
                    "CURRENT_TIMESTAMP" => Some("current-timestamp".into()),
                    "DATE" => Some(f_text("date", &self.string()?)),
                    "TIME" => Some(f_text("time", &self.string()?)),
                    "TIMESTAMP" => Some(f_text("timestamp", &self.string()?)),
                    _ => None,
                }
            }
            T::S(_) => None,
        }
    }
}

/// The tree a text spells, if it is a statement.
pub fn spelled(text: &str) -> Option<String> {
    let mut p = P { t: tokens(text)?, i: 0 };
    let r = p.top()?;
    if p.i == p.t.len() { Some(r) } else { None }
}
