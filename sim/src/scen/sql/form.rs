//! One line of text for every kind of tree, so that trees from different
//! sources can be compared and shown.

fn o(x: Option<String>) -> String {
    x.unwrap_or_else(|| "-".into())
}

pub fn f_op_n(op: &str, v: Vec<String>) -> String {
    format!("({}{})", op, v.iter().map(|x| format!(" {}", x)).collect::<String>())
}

pub fn f_op(op: &str, l: String, r: String) -> String {
    f_op_n(op, vec![l, r])
}

pub fn f_text(kind: &str, s: &str) -> String {
    format!("({} {:?})", kind, s)
}

pub fn f_qualified(n: Vec<String>) -> String {
    format!("[{}]", n.join("."))
}

fn f_names(n: Vec<String>) -> String {
    format!("[{}]", n.join(" "))
}

pub fn f_explain(s: String) -> String {
    f_op_n("explain", vec![s])
}

pub fn f_attach(n: Vec<String>, path: String) -> String {
    f_op_n("attach", vec![f_qualified(n), format!("{:?}", path)])
}

pub fn f_describe(n: Vec<String>) -> String {
    f_op_n("describe", vec![f_qualified(n)])
}

pub fn f_with(with: Vec<String>) -> String {
    f_op_n("with", with)
}

pub fn f_insert(with: Vec<String>, n: Vec<String>, c: Option<Vec<String>>, s: String) -> String {
    f_op_n("insert", vec![f_with(with), f_qualified(n), o(c.map(f_names)), s])
}

pub fn f_delete(with: Vec<String>, n: Vec<String>, w: Option<String>) -> String {
    f_op_n("delete", vec![f_with(with), f_qualified(n), o(w)])
}

pub fn f_update(with: Vec<String>, n: Vec<String>, a: Vec<String>, w: Option<String>) -> String {
    f_op_n("update", vec![f_with(with), f_qualified(n), f_op_n("set", a), o(w)])
}

pub fn f_assign(n: Vec<String>, e: String) -> String {
    f_op_n("assign", vec![f_names(n), e])
}

pub fn f_select(with: Vec<String>, set: String, order: Vec<String>, limit: Option<String>) -> String {
    f_op_n("select", vec![f_with(with), set, f_op_n("order", order), o(limit)])
}

pub fn f_cte(n: String, c: Option<Vec<String>>, q: String) -> String {
    f_op_n("cte", vec![n, o(c.map(f_names)), q])
}

pub fn f_order(e: String, collate: Option<String>, down: bool) -> String {
    f_op_n("by", vec![e, o(collate), if down { "desc" } else { "asc" }.into()])
}

pub fn f_limit(n: String, offset: Option<String>) -> String {
    f_op_n("limit", vec![n, o(offset)])
}

pub fn f_values(rows: Vec<Vec<String>>) -> String {
    f_op_n("values", rows.into_iter().map(|r| f_op_n("row", r)).collect())
}

pub fn f_query(distinct: bool, columns: Option<Vec<String>>, from: Vec<String>, w: Option<String>, group: Option<String>) -> String {
    let columns = match columns {
        None => "*".into(),
        Some(c) => f_op_n("columns", c),
    };
    f_op_n("query", vec![if distinct { "distinct" } else { "all" }.into(), columns, f_op_n("from", from), o(w), o(group)])
}

pub fn f_all_from(n: String) -> String {
    f_op_n("all-from", vec![n])
}

pub fn f_column(e: String, rename: Option<String>) -> String {
    f_op_n("column", vec![e, o(rename)])
}

pub fn f_group(g: Vec<String>, having: Option<String>) -> String {
    f_op_n("group", vec![f_op_n("by", g), o(having)])
}

pub fn f_named(n: Vec<String>, alias: Option<String>) -> String {
    f_op_n("table", vec![f_qualified(n), o(alias)])
}

pub fn f_from_select(s: String, alias: Option<String>) -> String {
    f_op_n("from-select", vec![s, o(alias)])
}

pub fn f_join(op: &str, l: String, r: String, by: String) -> String {
    f_op_n(op, vec![l, r, by])
}

pub fn f_on(e: String) -> String {
    f_op_n("on", vec![e])
}

pub fn f_using(n: Vec<String>) -> String {
    f_op_n("using", vec![f_names(n)])
}

pub fn f_case(e: Option<String>, when: Vec<(String, String)>, other: Option<String>) -> String {
    let mut v = vec![o(e)];
    v.extend(when.into_iter().map(|(g, b)| f_op("when", g, b)));
    v.push(o(other));
    f_op_n("case", v)
}
