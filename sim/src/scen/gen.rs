//! Random types and values, and the model form of both.
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::{self, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue;
use simrt::{count, plan, plan_pct, plan_range, plan_u64, plan_weighted};

pub type P = Primitive;

pub const PRIMS: [Primitive; 14] =
    [P::U8, P::Bool, P::Char, P::U16, P::U32, P::U64, P::U128, P::I8, P::I16, P::I32, P::I64, P::I128, P::F32, P::F64];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Unit,
    Prim(Primitive),
    Str,
    Tuple(Vec<Ty>),
    Struct(Vec<(String, Ty)>),
    Enum(Vec<(String, Ty)>),
}

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Prim(PrimitiveValue),
    Str(String),
    /// tuples and structs
    Seq(Vec<Val>),
    Enum(usize, Box<Val>),
}

pub fn same_prim(a: &PrimitiveValue, b: &PrimitiveValue) -> bool {
    use PrimitiveValue as V;
    match (a, b) {
        (V::F32(x), V::F32(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        (V::F64(x), V::F64(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::Unit, Val::Unit) => true,
            (Val::Prim(a), Val::Prim(b)) => same_prim(a, b),
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Seq(a), Val::Seq(b)) => a == b,
            (Val::Enum(i, a), Val::Enum(j, b)) => i == j && a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Copy)]
pub struct TypeOpts {
    /// labels that are plain identifiers only
    pub idents: bool,
    /// most fields of a struct
    pub fields: u64,
    /// chance in percent of an enum with very many cases
    pub big_enum_pct: u64,
    /// chance in percent of a very wide struct or tuple
    pub wide_pct: u64,
    pub depth: u32,
    /// tuples and structs without members (the grammar of types has none)
    pub empty: bool,
    /// one in so many types has very many members or is nested very deeply
    pub huge: u64,
}

fn label(o: &TypeOpts, i: usize) -> String {
    // unique because of the number; the order of labels and fields differs
    if o.idents || !plan_pct(25) {
        // some look like words of the type grammar
        let base = [
            "a", "field", "Zed", "_x", "kind", "value", "b", "bool", "struct", "enum", "string", "char", "f32_", "U", "STRING", "_", "structs",
        ][if plan_pct(75) { plan(7) } else { plan(17) } as usize];
        if plan(400) == 1 {
            return format!("{}{}{}", base, "x".repeat(plan_range(250, 260) as usize), i);
        }
        format!("{}{}", base, i)
    } else {
        let mut s = gen_string(6, false);
        s.push_str(&format!("~{}", i));
        s
    }
}

fn labelled(o: &TypeOpts, n: u64, depth: u32) -> Vec<(String, Ty)> {
    let mut list: Vec<(String, Ty)> = Vec::new();
    let alike = plan_pct(20);
    for i in 0..n as usize {
        let mut l = label(o, i);
        if alike && i > 0 && plan_pct(60) {
            // almost the same as another one
            let other = list[plan(i as u64) as usize].0.clone();
            let x = match plan(4) {
                0 => other.to_uppercase(),
                1 => other.to_lowercase(),
                2 => format!("{}{}", other, ["_", "0", "a"][plan(3) as usize]),
                _ => other.chars().take(other.chars().count().saturating_sub(1)).collect(),
            };
            let taken = |x: &str| list.iter().any(|y| y.0 == x);
            if (!o.idents || identifier(&x)) && !taken(&x) {
                l = x;
            }
            if taken(&l) {
                l.push_str("__");
            }
            while taken(&l) {
                l.push('_');
            }
        } else {
            while list.iter().any(|y| y.0 == l) {
                l.push('_');
            }
        }
        let t = gen_ty(o, depth + 1);
        list.push((l, t));
    }
    list
}

/// May it be a label in the grammar of types?
fn identifier(s: &str) -> bool {
    let c = s.as_bytes();
    let word = ["string", "struct", "enum"].contains(&s) || PRIMS.iter().any(|p| format!("{:?}", p).to_lowercase() == s);
    !word && !c.is_empty() && !c[0].is_ascii_digit() && c.iter().all(|x| x.is_ascii_alphanumeric() || *x == b'_')
}

/// One type inside another many times.
fn tower(o: &TypeOpts) -> Ty {
    let mut t = gen_ty(o, o.depth);
    for k in 0..plan_range(6, 20) {
        let mut members = vec![t];
        if plan_pct(30) {
            members.insert(plan(2) as usize, gen_ty(o, o.depth));
        }
        t = match plan(3) {
            0 => Ty::Tuple(members),
            k2 => {
                let m = members.into_iter().enumerate().map(|(i, t)| (format!("l{}_{}", k, i), t)).collect();
                if k2 == 1 {
                    Ty::Struct(m)
                } else {
                    Ty::Enum(m)
                }
            }
        };
    }
    t
}

pub fn gen_ty(o: &TypeOpts, depth: u32) -> Ty {
    let leaf = depth >= o.depth;
    if depth == 0 && o.depth > 0 {
        match plan(o.huge) {
            1 => return tower(o),
            2 => {
                // more members than eight bits can tell
                let n = [255, 256, 257, 258, 300][plan(5) as usize];
                let inner = TypeOpts { big_enum_pct: 0, wide_pct: 0, ..*o };
                let kinds = [gen_ty(&inner, o.depth), gen_ty(&inner, o.depth), gen_ty(&inner, o.depth.max(1) - 1)];
                let members = (0..n).map(|_| kinds[plan_weighted(&[45, 45, 10])].clone());
                return if o.fields > 64 && plan(2) == 1 {
                    Ty::Struct(members.enumerate().map(|(i, t)| (format!("m{}", i), t)).collect())
                } else {
                    Ty::Tuple(members.collect())
                };
            }
            _ => {}
        }
    }
    match plan_weighted(&if leaf { [60, 25, 8, 0, 0, 0] } else { [30, 14, 4, 14, 20, 16] }) {
        0 => Ty::Prim(PRIMS[plan(14) as usize]),
        1 => Ty::Str,
        2 => Ty::Unit,
        3 => {
            let lo = if o.empty { 0 } else { 1 };
            let n = if plan_pct(o.wide_pct) { plan_range(6, 40) } else { plan_range(lo, 5) };
            Ty::Tuple((0..n).map(|_| gen_ty(o, if n > 6 { o.depth } else { depth + 1 })).collect())
        }
        4 => {
            let lo = if o.empty { 0 } else { 1 };
            if plan_pct(o.wide_pct) {
                let n = if plan_pct(30) { o.fields } else { plan_range(6, o.fields) };
                let d = o.depth;
                Ty::Struct(labelled(o, n, d))
            } else {
                let n = plan_range(lo, 5);
                Ty::Struct(labelled(o, n, depth))
            }
        }
        _ => {
            if plan_pct(o.big_enum_pct) {
                let n = [16, 17, 127, 128, 129, 255, 256, 257, 300][plan(9) as usize];
                Ty::Enum(
                    (0..n)
                        .map(|i| (format!("c{}", i), [Ty::Unit, Ty::Prim(P::U8), Ty::Str][if plan_pct(10) { 1 + plan(2) as usize } else { 0 }].clone()))
                        .collect(),
                )
            } else {
                let n = plan_range(1, 5);
                Ty::Enum(labelled(o, n, depth))
            }
        }
    }
}

pub fn real_type(t: &Ty) -> Type {
    let kind = match t {
        Ty::Unit => Kind::Unit,
        Ty::Prim(p) => Kind::Primitive(*p),
        Ty::Str => Kind::String,
        Ty::Tuple(c) => Kind::Tuple(c.iter().map(|x| Box::new(real_type(x))).collect()),
        Ty::Struct(f) => Kind::Struct(f.iter().map(|(l, x)| types::Field { label: l.clone(), typ: Box::new(real_type(x)) }).collect()),
        Ty::Enum(f) => Kind::Enum(f.iter().map(|(l, x)| types::Case { label: l.clone(), typ: Box::new(real_type(x)) }).collect()),
    };
    Type { kind }
}

/// The text of a type, as the code's own type grammar has it.
pub fn type_text(t: &Ty) -> String {
    let list = |f: &Vec<(String, Ty)>| f.iter().map(|(l, x)| format!("{}: {}", l, type_text(x))).collect::<Vec<_>>().join(", ");
    match t {
        Ty::Unit => "()".into(),
        Ty::Prim(p) => format!("{:?}", p).to_lowercase(),
        Ty::Str => "string".into(),
        Ty::Tuple(c) => format!("({})", c.iter().map(type_text).collect::<Vec<_>>().join(", ")),
        Ty::Struct(f) => format!("struct {{ {} }}", list(f)),
        Ty::Enum(f) => format!("enum {{ {} }}", list(f)),
    }
}

pub fn gen_char() -> char {
    let c = match plan(14) {
        0..=4 => 0x20 + plan(0x5f) as u32,
        5 => plan(0x20) as u32,
        6 => b"\"\\/\x7f\x08\x0c\n\r\t{}[]:,u0"[plan(17) as usize] as u32,
        7 => 0x80 + plan(0x780) as u32,
        8 => 0x800 + plan(0x7800) as u32,
        9 => 0x8000 + plan(0x5800) as u32,
        10 => 0xe000 + plan(0x2000) as u32,
        11 => 0x10000 + plan(0x100000) as u32,
        12 => [0x7f, 0x80, 0x7ff, 0x800, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x2028, 0xa0][plan(16) as usize],
        _ => b'a' as u32 + plan(26) as u32,
    };
    char::from_u32(c).unwrap_or('?')
}

pub fn gen_string(max: u64, may_be_long: bool) -> String {
    let n = if may_be_long && plan_pct(3) {
        // now and then longer than sixteen bits can tell
        if plan(30) == 1 { 65_500 + plan(100) } else { plan_range(200, 700) }
    } else {
        plan(max + 1)
    };
    if n > 40 {
        let c = gen_char();
        return (0..n).map(|i| if i % 7 == 0 { c } else { (b'a' + (i % 26) as u8) as char }).collect();
    }
    (0..n).map(|_| gen_char()).collect()
}

fn edge_u(bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match plan(6) {
        0 => 0,
        1 => max,
        2 => 1u128 << (bits - 1),
        3 => (1u128 << (bits - 1)) - 1,
        4 => plan(200) as u128 & max,
        _ => ((plan_u64() as u128) << 64 | plan_u64() as u128) & max,
    }
}

pub fn gen_prim(p: Primitive, finite: bool) -> PrimitiveValue {
    use PrimitiveValue as V;
    match p {
        P::Bool => V::Bool(plan(2) == 1),
        P::Char => V::Char(gen_char()),
        P::U8 => V::U8(edge_u(8) as u8),
        P::U16 => V::U16(edge_u(16) as u16),
        P::U32 => V::U32(edge_u(32) as u32),
        P::U64 => V::U64(edge_u(64) as u64),
        P::U128 => V::U128(edge_u(128)),
        P::I8 => V::I8(edge_u(8) as i8),
        P::I16 => V::I16(edge_u(16) as i16),
        P::I32 => V::I32(edge_u(32) as i32),
        P::I64 => V::I64(edge_u(64) as i64),
        P::I128 => V::I128(edge_u(128) as i128),
        P::F32 => {
            let x = match plan(5) {
                0 => plan(1000) as f32 / 8.0,
                1 => [0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), 1e-7, 3.4e38, -1.5][plan(9) as usize],
                2 if !finite => [f32::NAN, f32::INFINITY, f32::NEG_INFINITY][plan(3) as usize],
                _ => f32::from_bits(plan_u64() as u32),
            };
            V::F32(if finite && !x.is_finite() { 0.5 } else { x })
        }
        P::F64 => {
            let x = match plan(5) {
                0 => plan(1000) as f64 / 8.0,
                1 => [0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::from_bits(1), 1e-7, 1e300, 0.1][plan(9) as usize],
                2 if !finite => [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][plan(3) as usize],
                _ => f64::from_bits(plan_u64()),
            };
            V::F64(if finite && !x.is_finite() { 0.5 } else { x })
        }
    }
}

pub fn gen_val(t: &Ty, finite: bool) -> Val {
    match t {
        Ty::Unit => Val::Unit,
        Ty::Prim(p) => Val::Prim(gen_prim(*p, finite)),
        Ty::Str => Val::Str(gen_string(8, true)),
        Ty::Tuple(c) => Val::Seq(c.iter().map(|x| gen_val(x, finite)).collect()),
        Ty::Struct(f) => Val::Seq(f.iter().map(|x| gen_val(&x.1, finite)).collect()),
        Ty::Enum(f) => {
            let i = match plan(4) {
                0 => f.len() - 1,
                1 => (f.len() / 2).min(f.len() - 1),
                _ => plan(f.len() as u64) as usize,
            };
            Val::Enum(i, Box::new(gen_val(&f[i].1, finite)))
        }
    }
}

pub fn to_source(t: &Ty, v: &Val) -> IntermediateDataSource {
    // with `draft`, everything is first given another value of its kind
    fn add(s: &mut IntermediateDataSource, path: &Path, t: &Ty, v: &Val, draft: bool) {
        match (t, v) {
            (Ty::Unit, _) => {}
            (Ty::Prim(k), Val::Prim(p)) => s.add_primitive(path, if draft { gen_prim(*k, true) } else { *p }),
            (Ty::Str, Val::Str(x)) => s.add_string(path, if draft { "draft" } else { x }),
            (Ty::Tuple(c), Val::Seq(x)) => {
                for (i, (t, v)) in c.iter().zip(x).enumerate() {
                    add(s, &path.with_component(i), t, v, draft);
                }
            }
            (Ty::Struct(f), Val::Seq(x)) => {
                for (i, (t, v)) in f.iter().zip(x).enumerate() {
                    add(s, &path.with_component(i), &t.1, v, draft);
                }
            }
            (Ty::Enum(f), Val::Enum(i, x)) => {
                s.add_case_tag(path, if draft { plan(f.len() as u64) as usize } else { *i });
                add(s, &path.with_component(*i), &f[*i].1, x, draft);
            }
            _ => unreachable!("value does not have the type"),
        }
    }
    let mut s = IntermediateDataSource::new();
    if plan_pct(10) {
        count("probe.values_replaced");
        add(&mut s, &Path::create_empty(), t, v, true);
    }
    add(&mut s, &Path::create_empty(), t, v, false);
    s
}

pub fn read_prim(s: &dyn DataSource, path: &Path, p: Primitive) -> PrimitiveValue {
    use PrimitiveValue as V;
    match p {
        P::Bool => V::Bool(s.get_bool(path)),
        P::Char => V::Char(s.get_char(path)),
        P::U8 => V::U8(s.get_u8(path)),
        P::U16 => V::U16(s.get_u16(path)),
        P::U32 => V::U32(s.get_u32(path)),
        P::U64 => V::U64(s.get_u64(path)),
        P::U128 => V::U128(s.get_u128(path)),
        P::I8 => V::I8(s.get_i8(path)),
        P::I16 => V::I16(s.get_i16(path)),
        P::I32 => V::I32(s.get_i32(path)),
        P::I64 => V::I64(s.get_i64(path)),
        P::I128 => V::I128(s.get_i128(path)),
        P::F32 => V::F32(s.get_f32(path)),
        P::F64 => V::F64(s.get_f64(path)),
    }
}

/// Read a whole value through the accessors.  Panics of the accessors pass through.
pub fn read_back(s: &dyn DataSource, t: &Ty, path: &Path) -> Result<Val, String> {
    Ok(match t {
        Ty::Unit => Val::Unit,
        Ty::Prim(p) => Val::Prim(read_prim(s, path, *p)),
        Ty::Str => {
            let b = s.get_bytes(path);
            let n = s.get_length(path);
            if n != b.len() {
                return Err(format!("string of length {} has {} bytes", n, b.len()));
            }
            match std::str::from_utf8(b) {
                Ok(x) => Val::Str(x.to_string()),
                Err(_) => return Err(format!("string bytes {:?} are not UTF-8", b)),
            }
        }
        Ty::Tuple(c) => {
            let mut v = Vec::new();
            for (i, t) in c.iter().enumerate() {
                v.push(read_back(s, t, &path.with_component(i))?);
            }
            Val::Seq(v)
        }
        Ty::Struct(f) => {
            let mut v = Vec::new();
            for (i, t) in f.iter().enumerate() {
                v.push(read_back(s, &t.1, &path.with_component(i))?);
            }
            Val::Seq(v)
        }
        Ty::Enum(f) => {
            let i = s.get_case_tag(path);
            if i >= f.len() {
                return Err(format!("case {} of an enum with {} cases", i, f.len()));
            }
            Val::Enum(i, Box::new(read_back(s, &f[i].1, &path.with_component(i))?))
        }
    })
}

/// The path of some element of a case that `v` does not have, if `s` has it all the same.
pub fn leftover(s: &dyn DataSource, t: &Ty, v: &Val, path: &Path) -> Option<Path> {
    fn any(s: &dyn DataSource, t: &Ty, path: &Path) -> Option<Path> {
        let found = match t {
            Ty::Unit => false,
            Ty::Prim(p) => simrt::catch(|| read_prim(s, path, *p)).is_ok(),
            Ty::Str => simrt::catch(|| s.get_length(path)).is_ok(),
            Ty::Tuple(c) => return c.iter().enumerate().take(3).find_map(|(i, t)| any(s, t, &path.with_component(i))),
            Ty::Struct(f) => return f.iter().enumerate().take(3).find_map(|(i, t)| any(s, &t.1, &path.with_component(i))),
            Ty::Enum(_) => simrt::catch(|| s.get_case_tag(path)).is_ok(),
        };
        if found { Some(path.clone()) } else { None }
    }
    match (t, v) {
        (Ty::Tuple(c), Val::Seq(x)) => c.iter().zip(x).enumerate().find_map(|(i, (t, v))| leftover(s, t, v, &path.with_component(i))),
        (Ty::Struct(f), Val::Seq(x)) => f.iter().zip(x).enumerate().find_map(|(i, (t, v))| leftover(s, &t.1, v, &path.with_component(i))),
        (Ty::Enum(f), Val::Enum(i, x)) => f
            .iter()
            .enumerate()
            .take(40)
            .find_map(|(j, t)| if j == *i { None } else { any(s, &t.1, &path.with_component(j)) })
            .or_else(|| leftover(s, &f[*i].1, x, &path.with_component(*i))),
        _ => None,
    }
}
