//! The tree the real parser built, written out in one line.
use super::form::*;
use cathlamet::sql::sim_hooks::ast::*;
use cathlamet::sql::sim_hooks::symbols::Name;

fn names(n: &[Name]) -> Vec<String> {
    n.iter().map(|x| x.as_str().to_string()).collect()
}

fn name(n: &Option<Name>) -> Option<String> {
    n.as_ref().map(|x| x.as_str().to_string())
}

fn opt(e: &Option<Box<Expression>>) -> Option<String> {
    e.as_ref().map(|x| expr(x))
}

fn exprs(e: &[Box<Expression>]) -> Vec<String> {
    e.iter().map(|x| expr(x)).collect()
}

pub fn statement(s: &SqlStatement) -> String {
    match s {
        SqlStatement::Statement(x) => dml(x),
        SqlStatement::ExplainQueryPlan(x) => f_explain(dml(x)),
        SqlStatement::Attach(x) => f_attach(names(&x.qualified_name), x.path.clone()),
        SqlStatement::Describe(x) => f_describe(names(&x.qualified_name)),
    }
}

fn dml(s: &Statement) -> String {
    match s {
        Statement::Select(x) => select(x),
        Statement::Insert(x) => f_insert(ctes(&x.common), names(&x.table_name), x.columns.as_ref().map(|c| names(c)), set(&x.source)),
        Statement::Delete(x) => f_delete(ctes(&x.common), names(&x.table_name), opt(&x.where_expr)),
        Statement::Update(x) => {
            f_update(ctes(&x.common), names(&x.table_name), x.assignments.iter().map(|a| f_assign(names(&a.columns), expr(&a.expr))).collect(), opt(&x.where_expr))
        }
    }
}

fn ctes(c: &[CommonTableExpression]) -> Vec<String> {
    c.iter().map(|c| f_cte(c.identifier.as_str().to_string(), c.column_names.as_ref().map(|n| names(n)), select(&c.query))).collect()
}

fn select(s: &SelectStatement) -> String {
    f_select(
        ctes(&s.common),
        set(&s.expr),
        s.order_by
            .iter()
            .map(|o| {
                let down = match o.direction {
                    OrderingDirection::Ascending => false,
                    OrderingDirection::Descending => true,
                };
                f_order(expr(&o.expr), name(&o.collation), down)
            })
            .collect(),
        s.limit.as_ref().map(|l| f_limit(expr(&l.number_rows), opt(&l.offset_value))),
    )
}

fn set(s: &SetExpression) -> String {
    match s {
        SetExpression::Values(rows) => f_values(rows.iter().map(|r| exprs(r)).collect()),
        SetExpression::Query { mode, columns, from, where_expr, group_by } => {
            let distinct = match mode {
                SelectMode::All => false,
                SelectMode::Distinct => true,
            };
            let columns = match columns {
                ResultColumns::All => None,
                ResultColumns::List(c) => Some(
                    c.iter()
                        .map(|c| match &**c {
                            ResultColumn::AllFrom(n) => f_all_from(n.as_str().to_string()),
                            ResultColumn::Expr { expr: e, rename } => f_column(expr(e), name(rename)),
                        })
                        .collect(),
                ),
            };
            let group = group_by.as_ref().map(|g| f_group(exprs(&g.groupings), opt(&g.having)));
            f_query(distinct, columns, from.iter().map(|t| table(t)).collect(), opt(where_expr), group)
        }
        SetExpression::Op { op, left, right } => {
            let op = match op {
                SetOperator::Union => "union",
                SetOperator::UnionAll => "union-all",
                SetOperator::Intersect => "intersect",
                SetOperator::Except => "except",
            };
            f_op(op, set(left), set(right))
        }
    }
}

fn table(t: &TableExpression) -> String {
    let kind = |t: &JoinType| match t {
        JoinType::Inner => "inner",
        JoinType::Left => "left",
        JoinType::Right => "right",
        JoinType::Full => "full",
    };
    match t {
        TableExpression::Named { name: n, alias } => f_named(names(n), name(alias)),
        TableExpression::Select { select: s, alias } => f_from_select(select(s), name(alias)),
        TableExpression::Join { left, right, op, constraint } => {
            let op = match op {
                JoinOperator::Join(t) => format!("join-{}", kind(t)),
                JoinOperator::Natural(t) => format!("natural-{}", kind(t)),
                JoinOperator::Cross => "cross".to_string(),
            };
            let by = match constraint {
                JoinConstraint::Expr(e) => f_on(expr(e)),
                JoinConstraint::Columns(c) => f_using(names(c)),
            };
            f_join(&op, table(left), table(right), by)
        }
    }
}

fn expr(e: &Expression) -> String {
    match e {
        Expression::Literal(l) => match l {
            Literal::StringLiteral(s) => f_text("text", s),
            Literal::NumericLiteral(s) => f_text("number", s),
            Literal::Null => "null".into(),
            Literal::CurrentTime => "current-time".into(),
            Literal::CurrentDate => "current-date".into(),
            Literal::CurrentTimestamp => "current-timestamp".into(),
            Literal::DateLiteral(s) => f_text("date", s),
            Literal::TimeLiteral(s) => f_text("time", s),
            Literal::TimestampLiteral(s) => f_text("timestamp", s),
        },
        Expression::QualifiedIdentifier(n) => f_qualified(names(n)),
        Expression::MakeTuple(v) => f_op_n("tuple", exprs(v)),
        Expression::Select(s) => f_op_n("sub", vec![select(s)]),
        Expression::Unary { op, expr: e } => {
            let op = match op {
                UnaryOperator::Negate => "neg",
                UnaryOperator::Not => "not",
                UnaryOperator::IsNull => "is-null",
            };
            f_op_n(op, vec![expr(e)])
        }
        Expression::Binary { op, left, right } => {
            let op = match op {
                BinaryOperator::Multiply => "*",
                BinaryOperator::Divide => "/",
                BinaryOperator::Add => "+",
                BinaryOperator::Subtract => "-",
                BinaryOperator::Concat => "||",
                BinaryOperator::And => "and",
                BinaryOperator::Or => "or",
            };
            f_op(op, expr(left), expr(right))
        }
        Expression::Comparison { op, left, right } => {
            let op = match op {
                ComparisonOperator::Equal => "=",
                ComparisonOperator::NotEqual => "!=",
                ComparisonOperator::LessThan => "<",
                ComparisonOperator::LessEqual => "<=",
                ComparisonOperator::GreaterThan => ">",
                ComparisonOperator::GreaterEqual => ">=",
                ComparisonOperator::Like => "like",
            };
            f_op(op, expr(left), expr(right))
        }
        Expression::In { expr: e, set } => {
            let set = match set {
                SetSpecification::Select(s) => f_op_n("sub", vec![select(s)]),
                SetSpecification::List(v) => f_op_n("list", exprs(v)),
                SetSpecification::Name(n) => f_qualified(names(n)),
            };
            f_op("in", expr(e), set)
        }
        Expression::Between { expr: e, lower, upper } => f_op_n("between", vec![expr(e), expr(lower), expr(upper)]),
        Expression::Case { expr: e, when_part, else_part } => {
            f_case(opt(e), when_part.iter().map(|w| (expr(&w.guard), expr(&w.body))).collect(), opt(else_part))
        }
    }
}
