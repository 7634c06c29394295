//! Random statements: their words, and the tree those words spell.
use super::form::*;
use super::reference::KEYWORDS;
use simrt::{plan, plan_pct, plan_range};

pub struct W {
    pub words: Vec<String>,
    budget: i64,
    case: u64,
}

pub fn cased(s: &str, case: u64) -> String {
    match case {
        0 => s.to_string(),
        1 => s.to_lowercase(),
        _ => s.chars().map(|c| if plan(2) == 1 { c.to_ascii_lowercase() } else { c }).collect(),
    }
}

pub fn ident() -> String {
    const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const MORE: &[u8] = b"abcxyzABCXYZ_0123456789";
    loop {
        let mut s = String::new();
        if plan_pct(25) {
            // nearly a keyword
            let k = KEYWORDS[plan(KEYWORDS.len() as u64) as usize];
            s = cased(k, plan(3));
            match plan(5) {
                0 => s.push(MORE[plan(MORE.len() as u64) as usize] as char),
                1 => s.insert(0, FIRST[plan(FIRST.len() as u64) as usize] as char),
                2 => drop(s.pop()),
                3 => s.push('_'),
                _ => s.insert(0, '_'),
            }
        } else {
            s.push(FIRST[plan(FIRST.len() as u64) as usize] as char);
            for _ in 0..plan(if plan_pct(3) { 200 } else { 6 }) {
                s.push(MORE[plan(MORE.len() as u64) as usize] as char);
            }
        }
        if !s.is_empty() && !KEYWORDS.iter().any(|k| k.eq_ignore_ascii_case(&s)) {
            return s;
        }
    }
}

pub fn number() -> String {
    let digits = |n: u64| (0..1 + plan(n)).map(|_| (b'0' + plan(10) as u8) as char).collect::<String>();
    let exponent = || {
        if plan_pct(25) {
            format!("E{}{}", ["", "+", "-"][plan(3) as usize], digits(3))
        } else {
            String::new()
        }
    };
    match plan(6) {
        0 | 1 => digits(4),
        2 => format!("{}.{}{}", digits(4), if plan_pct(20) { String::new() } else { digits(40) }, exponent()),
        3 => format!(".{}{}", digits(4), exponent()),
        4 => format!("0x{}", (0..1 + plan(16)).map(|_| b"0123456789abcdefABCDEF"[plan(22) as usize] as char).collect::<String>()),
        _ => format!("{}{}", digits(3), exponent()),
    }
}

pub fn text() -> String {
    let n = if plan_pct(3) { plan(400) } else { plan(9) };
    (0..n)
        .map(|_| match plan(8) {
            0 => ['"', '\\', '-', ';', '%', '(', ' ', '\u{a0}', '\u{80}', '\u{feff}', '\u{10ffff}', '\u{2019}'][plan(12) as usize],
            1 => super::super::gen::gen_char(),
            _ => (0x20 + plan(0x5f) as u8) as char,
        })
        .filter(|c| !c.is_ascii_control() && *c != '\'')
        .collect()
}

impl W {
    pub fn new(budget: i64) -> Self {
        W { words: Vec::new(), budget, case: plan(3) }
    }
    fn kw(&mut self, k: &str) {
        self.words.extend(k.split(' ').map(|w| cased(w, self.case)));
    }
    fn sym(&mut self, s: &str) {
        self.words.push(s.into());
    }
    fn word(&mut self, s: &str) -> String {
        self.words.push(s.into());
        s.into()
    }
    fn id(&mut self) -> String {
        let x = ident();
        self.word(&x)
    }
    fn string(&mut self) -> String {
        let x = text();
        self.words.push(format!("'{}'", x));
        x
    }
    fn list<A>(&mut self, max: u64, f: &mut dyn FnMut(&mut W) -> A) -> Vec<A> {
        let mut n = if self.budget < 0 { 1 } else { plan_range(1, max) };
        if plan(150) == 1 {
            n = plan_range(9, 70);
        }
        let mut v = vec![f(self)];
        for _ in 1..n {
            self.sym(",");
            v.push(f(self));
        }
        v
    }
    fn ids(&mut self) -> Vec<String> {
        self.list(3, &mut |w| w.id())
    }
    fn qualified(&mut self, max: u64) -> Vec<String> {
        let n = if plan_pct(60) { 1 } else { plan_range(1, max) };
        let mut v = vec![self.id()];
        for _ in 1..n {
            self.sym(".");
            v.push(self.id());
        }
        v
    }
    /// Is there more? Less and less likely.
    fn more(&mut self, pct: u64) -> bool {
        self.budget > 0 && plan_pct(pct)
    }

    pub fn statement(&mut self) -> String {
        match plan(10) {
            0 => {
                self.kw("ATTACH FILE");
                let path = self.string();
                self.kw("AS");
                f_attach(self.qualified(2), path)
            }
            1 => {
                self.kw("DESCRIBE");
                f_describe(self.qualified(2))
            }
            2 => {
                self.kw(["EXPLAIN", "EXPLAIN QUERY PLAN"][plan(2) as usize]);
                f_explain(self.dml())
            }
            _ => self.dml(),
        }
    }

    fn dml(&mut self) -> String {
        match plan(8) {
            0 => {
                let with = self.maybe_with();
                self.kw("INSERT INTO");
                let n = self.qualified(3);
                let mut c = None;
                if plan_pct(50) {
                    self.sym("(");
                    c = Some(self.ids());
                    self.sym(")");
                }
                f_insert(with, n, c, self.core())
            }
            1 => {
                let with = self.maybe_with();
                self.kw("DELETE FROM");
                let n = self.qualified(3);
                f_delete(with, n, self.filter("WHERE", 60))
            }
            2 => {
                let with = self.maybe_with();
                self.kw("UPDATE");
                let n = self.qualified(3);
                self.kw("SET");
                let a = self.list(3, &mut |w| {
                    let c = w.ids();
                    w.sym("=");
                    f_assign(c, w.expr(0))
                });
                f_update(with, n, a, self.filter("WHERE", 60))
            }
            _ => self.select(),
        }
    }

    fn filter(&mut self, k: &str, pct: u64) -> Option<String> {
        if !self.more(pct) {
            return None;
        }
        self.kw(k);
        Some(self.expr(0))
    }

    fn maybe_with(&mut self) -> Vec<String> {
        if !self.more(20) {
            return Vec::new();
        }
        self.kw("WITH");
        self.list(2, &mut |w| {
            let n = w.id();
            let mut c = None;
            if plan_pct(40) {
                w.sym("(");
                c = Some(w.ids());
                w.sym(")");
            }
            w.kw("AS");
            w.sym("(");
            let q = w.select();
            w.sym(")");
            f_cte(n, c, q)
        })
    }

    fn select(&mut self) -> String {
        self.budget -= 3;
        let with = self.maybe_with();
        let mut set = self.core();
        while self.more(15) {
            let (op, k) = [("union", "UNION"), ("union-all", "UNION ALL"), ("intersect", "INTERSECT"), ("except", "EXCEPT")][plan(4) as usize];
            self.kw(k);
            set = f_op(op, set, self.core());
        }
        let mut order = Vec::new();
        if self.more(25) {
            self.kw("ORDER BY");
            order = self.list(3, &mut |w| {
                let e = w.expr(0);
                let mut c = None;
                if plan_pct(30) {
                    w.kw("COLLATE");
                    c = Some(w.id());
                }
                let d = plan(3);
                if d > 0 {
                    w.kw(["ASC", "DESC"][d as usize - 1]);
                }
                f_order(e, c, d == 2)
            });
        }
        let mut limit = None;
        if self.more(20) {
            self.kw("LIMIT");
            let n = self.expr(0);
            let o = match plan(3) {
                0 => None,
                1 => {
                    self.sym(",");
                    Some(self.expr(0))
                }
                _ => {
                    self.kw("OFFSET");
                    Some(self.expr(0))
                }
            };
            limit = Some(f_limit(n, o));
        }
        f_select(with, set, order, limit)
    }

    fn core(&mut self) -> String {
        if plan_pct(20) {
            self.kw("VALUES");
            let rows = self.list(3, &mut |w| {
                w.sym("(");
                let v = w.list(3, &mut |w| w.expr(0));
                w.sym(")");
                v
            });
            return f_values(rows);
        }
        self.kw("SELECT");
        let mode = plan(4);
        if mode < 2 {
            self.kw(["ALL", "DISTINCT"][mode as usize]);
        }
        let columns = if plan_pct(25) {
            self.sym("*");
            None
        } else {
            Some(self.list(3, &mut |w| {
                if plan_pct(12) {
                    let n = w.id();
                    w.sym(".");
                    w.sym("*");
                    return f_all_from(n);
                }
                let e = w.expr(0);
                f_column(e, w.alias())
            }))
        };
        let mut from = Vec::new();
        if self.more(70) || plan_pct(30) {
            self.kw("FROM");
            from = self.list(3, &mut |w| w.table());
        }
        let filter = self.filter("WHERE", 35);
        let mut group = None;
        if self.more(20) {
            self.kw("GROUP BY");
            let g = self.list(3, &mut |w| w.expr(0));
            group = Some(f_group(g, self.filter("HAVING", 50)));
        }
        f_query(mode == 1, columns, from, filter, group)
    }

    fn alias(&mut self) -> Option<String> {
        match plan(4) {
            0 => {
                self.kw("AS");
                Some(self.id())
            }
            1 => Some(self.id()),
            _ => None,
        }
    }

    fn table(&mut self) -> String {
        let mut l = self.one_table();
        while self.more(25) {
            let op = if plan_pct(15) {
                self.kw("CROSS");
                "cross".to_string()
            } else {
                let natural = plan_pct(25);
                if natural {
                    self.kw("NATURAL");
                }
                let (k, words): (&str, &[&str]) = [
                    ("inner", &["", "INNER"][..]),
                    ("left", &["LEFT", "LEFT OUTER"][..]),
                    ("right", &["RIGHT", "RIGHT OUTER"][..]),
                    ("full", &["FULL", "FULL OUTER"][..]),
                ][plan(4) as usize];
                let words = words[plan(2) as usize];
                if !words.is_empty() {
                    self.kw(words);
                }
                format!("{}-{}", if natural { "natural" } else { "join" }, k)
            };
            self.kw("JOIN");
            let r = self.one_table();
            let by = if plan_pct(60) {
                self.kw("ON");
                f_on(self.expr(0))
            } else {
                self.kw("USING");
                self.sym("(");
                let c = self.ids();
                self.sym(")");
                f_using(c)
            };
            l = f_join(&op, l, r, by);
        }
        l
    }

    fn one_table(&mut self) -> String {
        self.budget -= 1;
        if self.more(12) {
            self.sym("(");
            let s = self.select();
            self.sym(")");
            return f_from_select(s, self.alias());
        }
        if self.more(10) {
            self.sym("(");
            let t = self.table();
            self.sym(")");
            return t;
        }
        let n = self.qualified(3);
        f_named(n, self.alias())
    }

    /// An expression that binds at least as tightly as the level says.
    fn expr(&mut self, level: u32) -> String {
        self.budget -= 1;
        match level {
            0 | 1 => {
                let mut l = self.expr(level + 1);
                while self.more(12) {
                    self.kw(["OR", "AND"][level as usize]);
                    l = f_op(["or", "and"][level as usize], l, self.expr(level + 1));
                }
                l
            }
            2 => {
                if self.more(10) {
                    self.kw("NOT");
                    return f_op_n("not", vec![self.complex()]);
                }
                self.complex()
            }
            3 => {
                let mut l = self.expr(4);
                while self.more(18) {
                    l = self.comparison(l);
                }
                l
            }
            4 | 5 => {
                let mut l = self.expr(level + 1);
                let ops: &[&str] = if level == 4 { &["+", "-", "||"] } else { &["*", "/"] };
                while self.more(12) {
                    let s = ops[plan(ops.len() as u64) as usize];
                    self.sym(s);
                    l = f_op(s, l, self.expr(level + 1));
                }
                l
            }
            6 => {
                let mut minus = 0;
                while plan_pct(10) {
                    if plan(2) == 0 {
                        self.sym("+");
                    } else {
                        self.sym("-");
                        minus += 1;
                    }
                }
                let mut e = self.primary();
                for _ in 0..minus {
                    e = f_op_n("neg", vec![e]);
                }
                e
            }
            _ => unreachable!(),
        }
    }

    fn complex(&mut self) -> String {
        if !self.more(6) {
            return self.expr(3);
        }
        self.kw("CASE");
        let e = if plan_pct(50) { Some(self.expr(0)) } else { None };
        let mut when = Vec::new();
        for _ in 0..plan_range(1, 3) {
            self.kw("WHEN");
            let g = self.expr(0);
            self.kw("THEN");
            when.push((g, self.expr(0)));
        }
        let other = self.filter("ELSE", 60);
        self.kw("END");
        f_case(e, when, other)
    }

    fn comparison(&mut self, l: String) -> String {
        let mut not = |w: &mut W| {
            let n = plan_pct(40);
            if n {
                w.kw("NOT");
            }
            move |x: String| if n { f_op_n("not", vec![x]) } else { x }
        };
        match plan(10) {
            0..=4 => {
                let (s, k) = [("=", ""), ("!=", ""), ("<", ""), (">", ""), ("<=", ""), (">=", ""), ("like", "LIKE")][plan(7) as usize];
                if k.is_empty() {
                    self.sym(s);
                } else {
                    self.kw(k);
                }
                f_op(s, l, self.expr(4))
            }
            5 => {
                let (k, n) = [("IS NULL", false), ("ISNULL", false), ("IS NOT NULL", true), ("NOTNULL", true), ("NOT NULL", true)][plan(5) as usize];
                self.kw(k);
                let x = f_op_n("is-null", vec![l]);
                if n { f_op_n("not", vec![x]) } else { x }
            }
            6 | 7 => {
                let around = not(self);
                self.kw("BETWEEN");
                let a = self.expr(4);
                self.kw("AND");
                let b = self.expr(4);
                around(f_op_n("between", vec![l, a, b]))
            }
            _ => {
                let around = not(self);
                self.kw("IN");
                let set = match plan(4) {
                    0 => f_qualified(self.qualified(3)),
                    1 => {
                        self.sym("(");
                        let s = self.select();
                        self.sym(")");
                        f_op_n("sub", vec![s])
                    }
                    k => {
                        self.sym("(");
                        let v = if k == 2 && plan_pct(40) { Vec::new() } else { self.list(3, &mut |w| w.expr(0)) };
                        self.sym(")");
                        f_op_n("list", v)
                    }
                };
                around(f_op("in", l, set))
            }
        }
    }

    fn primary(&mut self) -> String {
        if self.more(8) {
            self.sym("(");
            let r = if plan_pct(25) {
                f_op_n("sub", vec![self.select()])
            } else {
                let mut v = self.list(3, &mut |w| w.expr(0));
                if v.len() == 1 { v.remove(0) } else { f_op_n("tuple", v) }
            };
            self.sym(")");
            return r;
        }
        match plan(10) {
            0..=2 => {
                let x = number();
                self.word(&x);
                f_text("number", &x)
            }
            3 => f_text("text", &self.string()),
            4 => {
                let (k, s) = [("NULL", "null"), ("CURRENT_TIME", "current-time"), ("CURRENT_DATE", "current-date"), ("CURRENT_TIMESTAMP", "current-timestamp")]
                    [plan(4) as usize];
                self.kw(k);
                s.into()
            }
            5 => {
                let (k, s) = [("DATE", "date"), ("TIME", "time"), ("TIMESTAMP", "timestamp")][plan(3) as usize];
                self.kw(k);
                f_text(s, &self.string())
            }
            _ => f_qualified(self.qualified(3)),
        }
    }
}

fn blank() -> String {
    let mut s = String::new();
    for _ in 0..plan_range(1, 3) {
        s.push_str([" ", " ", "\n", "\t", "\r\n"][plan(5) as usize]);
    }
    s
}

/// Put the words in one text.
pub fn laid_out(words: &[String]) -> String {
    let mut s = String::new();
    if plan_pct(10) {
        s.push_str(&blank());
    }
    let tight = plan_pct(50);
    let wordy = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.';
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            let must = s.ends_with(wordy) && w.starts_with(wordy) && w != "." && !s.ends_with('.')
                || (s.ends_with('.') && w.starts_with(|c: char| c.is_ascii_digit()))
                || (w == "." && s.ends_with(|c: char| c.is_ascii_digit()))
                || (s.ends_with('.') && words[i - 1] != ".");
            if must || !tight || plan_pct(20) {
                s.push_str(&blank());
            }
        }
        s.push_str(w);
    }
    if plan_pct(10) {
        s.push_str(&blank());
    }
    s
}
