//! C26, C27: processes that know a type only by its text, which travels over
//! a transport that cuts it in pieces or damages it, and clients that ask for
//! its elements by name.
use super::gen::*;
use super::json::{damage_text, show, Pipe};
use super::Cx;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::types::{parser::TypeParser, Path, Type};
use simrt::{count, ensure, fail, fault_value, plan, plan_pct, plan_range, Outcome};
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::Arc;

pub const REFUSED: &str = "good-schema-rejected";
pub const OTHER_TYPE: &str = "schema-parsed-to-another-type";
pub const ACCEPTED: &str = "damaged-schema-accepted";
pub const POISONED: &str = "parser-remembers-rejected-schema";
pub const NAME_REFUSED: &str = "good-name-rejected";
pub const NAME_ACCEPTED: &str = "bad-name-accepted";
pub const OTHER_ELEMENT: &str = "name-leads-to-another-element";
pub const PREFIX: &str = "containment-wrong";
pub const STUCK: &str = "schema-stuck";

// ------------------------------------------------- reference of the grammar

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Mark(char),
    Word(String),
}

/// The words and marks of a text; None if there is something else in it.
fn tokens(s: &str) -> Option<Vec<Tok>> {
    let c: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            x @ ('(' | ')' | '{' | '}' | ',' | ':') => {
                v.push(Tok::Mark(x));
                i += 1;
            }
            x if x.is_ascii_alphabetic() || x == '_' => {
                let from = i;
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                v.push(Tok::Word(c[from..i].iter().collect()));
            }
            _ => return None,
        }
    }
    Some(v)
}

struct Reader<'a> {
    t: &'a [Tok],
    at: usize,
}

impl<'a> Reader<'a> {
    fn mark(&mut self, c: char) -> bool {
        let yes = self.t.get(self.at) == Some(&Tok::Mark(c));
        self.at += yes as usize;
        yes
    }
    fn ty(&mut self) -> Option<Ty> {
        if self.mark('(') {
            if self.mark(')') {
                return Some(Ty::Unit);
            }
            let mut list = vec![self.ty()?];
            while self.mark(',') {
                list.push(self.ty()?);
            }
            return self.mark(')').then_some(Ty::Tuple(list));
        }
        let w = match self.t.get(self.at) {
            Some(Tok::Word(w)) => w.as_str(),
            _ => return None,
        };
        self.at += 1;
        match w {
            "string" => Some(Ty::Str),
            "struct" => self.labelled().map(Ty::Struct),
            "enum" => self.labelled().map(Ty::Enum),
            _ => PRIMS.iter().find(|p| format!("{:?}", p).to_lowercase() == w).map(|p| Ty::Prim(*p)),
        }
    }
    fn labelled(&mut self) -> Option<Vec<(String, Ty)>> {
        if !self.mark('{') {
            return None;
        }
        let mut list = Vec::new();
        loop {
            match self.t.get(self.at) {
                Some(Tok::Word(w)) if !reserved(w) => {
                    self.at += 1;
                    if !self.mark(':') {
                        return None;
                    }
                    list.push((w.clone(), self.ty()?));
                }
                _ => return None,
            }
            let more = self.mark(',');
            if self.mark('}') {
                return Some(list);
            }
            if !more {
                return None;
            }
        }
    }
}

fn reserved(w: &str) -> bool {
    ["string", "struct", "enum"].contains(&w) || PRIMS.iter().any(|p| format!("{:?}", p).to_lowercase() == w)
}

/// The type a text spells.
fn spelled(s: &str) -> Option<Ty> {
    let t = tokens(s)?;
    let mut r = Reader { t: &t, at: 0 };
    let ty = r.ty()?;
    (r.at == t.len()).then_some(ty)
}

// ------------------------------------------------------------- generation

fn space(out: &mut String, must: bool) {
    if must || plan_pct(20) {
        out.push_str([" ", "\n", "\t", "\r\n", "   "][plan(5) as usize]);
    }
}

/// One of the many ways to lay out the text of a type.
fn laid_out(t: &Ty, out: &mut String) {
    let list = |word: &str, f: &Vec<(String, Ty)>, out: &mut String| {
        out.push_str(word);
        space(out, false);
        out.push('{');
        for (i, (l, x)) in f.iter().enumerate() {
            space(out, false);
            out.push_str(l);
            space(out, false);
            out.push(':');
            space(out, false);
            laid_out(x, out);
            space(out, false);
            if i + 1 < f.len() || plan_pct(30) {
                out.push(',');
            }
        }
        space(out, false);
        out.push('}');
    };
    match t {
        Ty::Unit => out.push_str(["()", "( )"][plan(2) as usize]),
        Ty::Prim(p) => out.push_str(&format!("{:?}", p).to_lowercase()),
        Ty::Str => out.push_str("string"),
        Ty::Tuple(c) => {
            out.push('(');
            for (i, x) in c.iter().enumerate() {
                space(out, false);
                laid_out(x, out);
                space(out, false);
                if i + 1 < c.len() {
                    out.push(',');
                }
            }
            out.push(')');
        }
        Ty::Struct(f) => list("struct", f, out),
        Ty::Enum(f) => list("enum", f, out),
    }
}

fn gen_schema(cx: &Cx) -> (Ty, String) {
    let o = TypeOpts {
        idents: true,
        fields: if cx.thorough { 90 } else { 66 },
        big_enum_pct: 2,
        wide_pct: 4,
        depth: plan_range(0, if plan_pct(5) { 7 } else { 4 }) as u32,
        empty: false,
        huge: 120,
    };
    let mut ty = gen_ty(&o, 0);
    for _ in 0..4 {
        if cx.property == "C27" && matches!(ty, Ty::Unit | Ty::Prim(_) | Ty::Str) {
            ty = gen_ty(&TypeOpts { depth: o.depth.max(1), ..o }, 0);
        }
    }
    let mut text = String::new();
    space(&mut text, false);
    laid_out(&ty, &mut text);
    space(&mut text, false);
    (ty, text)
}

// ---------------------------------------------------------------- transport

pub fn send(p: &Pipe, b: &[u8], piece: u64) {
    let mut at = 0;
    while at < b.len() {
        let n = (1 + simrt::sched_value(piece)).min((b.len() - at) as u64) as usize;
        p.buf.borrow_mut().extend_from_slice(&b[at..at + n]);
        at += n;
        simrt::preempt("send");
        if fault_value(20) == 1 {
            count("fault.transport_stall");
            simrt::block_on(simrt::sleep(50_000));
        }
    }
    p.closed.set(true);
}

pub fn receive(p: &Pipe) -> Vec<u8> {
    let mut pieces = 0;
    let mut v = Vec::new();
    loop {
        let have = p.buf.borrow().len() - p.taken.get();
        if have > 0 {
            let from = p.taken.get();
            v.extend_from_slice(&p.buf.borrow()[from..from + have]);
            p.taken.set(from + have);
            pieces += 1;
        } else if p.closed.get() {
            break;
        } else {
            simrt::block_on(simrt::sleep(10_000));
        }
        simrt::preempt("receive");
    }
    if pieces > 1 {
        count("probe.fragmented_text");
    }
    simrt::event("received", pieces, v.iter().fold(v.len() as u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64)));
    v
}

const MARKS: &[u8] = b"(){},: ";
const LETTERS: &[u8] = b"(){},:;._ \t\nabcefghilmnorstuxyzABSZ0123456789-+\"'\x0b\x1f\x7f";

pub fn run(cx: &Cx) {
    simrt::seed_entropy(simrt::plan_u64());
    let names = cx.property == "C27";
    let peers = plan_range(1, 3);
    for k in 0..peers {
        let (ty, text) = gen_schema(cx);
        simrt::log(|| format!("schema {}", text));
        let rounds = plan_range(1, if names { 10 } else { 6 }) as usize;
        let piece = [1, 5, 60, 4000][plan(4) as usize].max(text.len() as u64 / 60);
        let pipes: Rc<Vec<Pipe>> = Rc::new((0..rounds).map(|_| Pipe::default()).collect());
        if names {
            let schema = Rc::new(Pipe::default());
            let values = gen_val(&ty, false);
            let damaged: Vec<bool> = (0..rounds).map(|_| plan_pct(50)).collect();
            let asked: Vec<String> = (0..rounds).map(|_| gen_name(&ty)).collect();
            let (s2, p2) = (schema.clone(), pipes.clone());
            simrt::spawn(format!("client{}", k), move || {
                send(&s2, text.as_bytes(), piece);
                for (i, p) in p2.iter().enumerate() {
                    let mut b = asked[i].clone().into_bytes();
                    if damaged[i] {
                        b = damage_text(b, asked[(i + 1) % asked.len()].as_bytes(), b"._", LETTERS);
                    }
                    send(p, &b, piece);
                    simrt::preempt("client");
                }
            });
            simrt::spawn(format!("server{}", k), move || server(&schema, &pipes, &ty, &values));
        } else {
            let damaged: Vec<bool> = (0..rounds).map(|_| plan_pct(65)).collect();
            let other = gen_schema(cx).1;
            let (p2, d2, t2) = (pipes.clone(), damaged.clone(), text.clone());
            simrt::spawn(format!("sender{}", k), move || {
                for (p, bad) in p2.iter().zip(d2) {
                    let mut b = t2.clone().into_bytes();
                    if bad {
                        b = damage_text(b, other.as_bytes(), MARKS, LETTERS);
                    }
                    send(p, &b, piece);
                    simrt::preempt("client");
                }
            });
            simrt::spawn(format!("receiver{}", k), move || receiver(&pipes, &damaged, &ty, &text));
        }
    }
    match simrt::run_tasks() {
        Outcome::Done | Outcome::Halted => {}
        Outcome::Stuck(_) => fail(STUCK, "tasks never finish".into()),
    }
}

// ------------------------------------------------------------------- C26

fn receiver(pipes: &[Pipe], damaged: &[bool], ty: &Ty, text: &str) {
    let parser = TypeParser::new();
    let mut rejected = false;
    for (p, bad) in pipes.iter().zip(damaged) {
        let b = receive(p);
        simrt::log(|| format!("received {}", show(&b)));
        let got = match std::str::from_utf8(&b) {
            Ok(t) => t,
            Err(_) => {
                count("probe.not_utf8_any_more");
                continue;
            }
        };
        let r = simrt::catch(|| parser.parse(got).map_err(|e| format!("{}", e)));
        count("op.parse");
        let r = match r {
            Ok(r) => r,
            Err(e) => return fail(if *bad { ACCEPTED } else { REFUSED }, format!("the parser panicked on {}: {}", show(&b), e)),
        };
        if !bad {
            match r {
                Err(e) => {
                    let class = if rejected { POISONED } else { REFUSED };
                    return fail(class, format!("{} was rejected: {}", text, e));
                }
                Ok(t) => ensure!(t == real_type(ty), OTHER_TYPE, "{} was parsed to {:?}", text, t),
            }
            count("probe.intact_schema");
            if rejected {
                count("probe.good_after_rejected");
            }
            continue;
        }
        match (r, spelled(got)) {
            (Err(_), None) => {
                rejected = true;
                count("probe.rejected");
                count("nontrivial");
            }
            (Ok(t), None) => return fail(ACCEPTED, format!("{} was accepted as {:?}", show(&b), t)),
            (Ok(t), Some(w)) => {
                ensure!(t == real_type(&w), OTHER_TYPE, "{} was parsed to {:?}", show(&b), t);
                count("probe.damaged_but_well_formed");
                if w != *ty {
                    count("nontrivial");
                    count("probe.accepted_with_other_type");
                }
            }
            (Err(e), Some(_)) => {
                // only plain blanks are sure to be blanks
                let plain = !got.chars().any(|c| c.is_whitespace() && !" \t\r\n".contains(c));
                ensure!(!plain, REFUSED, "{} is a type but was rejected: {}", show(&b), e);
            }
        }
    }
}

// ------------------------------------------------------------------- C27

/// A name of an element, or nearly one.
pub fn gen_name(ty: &Ty) -> String {
    let mut t = ty;
    let mut parts: Vec<String> = Vec::new();
    loop {
        let (label, next) = match t {
            Ty::Tuple(c) => {
                let i = plan(c.len() as u64) as usize;
                (i.to_string(), &c[i])
            }
            Ty::Struct(f) | Ty::Enum(f) => {
                let i = if plan_pct(20) { f.len() - 1 } else { plan(f.len() as u64) as usize };
                (f[i].0.clone(), &f[i].1)
            }
            _ => break,
        };
        parts.push(label);
        t = next;
        if plan_pct(15) {
            break;
        }
    }
    if plan_pct(70) {
        return parts.join(".");
    }
    // names that look alike
    let n = parts.len();
    let siblings = |t: &Ty| match t {
        Ty::Tuple(c) => c.len() as u64,
        Ty::Struct(f) | Ty::Enum(f) => f.len() as u64,
        _ => 0,
    };
    match plan(12) {
        0 => parts.push("x".into()),
        1 => parts.push("0".into()),
        2 => parts.push(String::new()),
        3 => parts.insert(0, String::new()),
        4 if n > 0 => {
            let i = plan(n as u64) as usize;
            parts[i] = parts[i].to_uppercase();
        }
        5 if n > 0 => {
            parts.remove(plan(n as u64) as usize);
        }
        6 if n > 1 => {
            let i = plan(n as u64 - 1) as usize;
            parts.swap(i, i + 1);
        }
        7 if n > 0 => {
            let i = plan(n as u64) as usize;
            let x = parts[i].parse::<u64>().unwrap_or(0);
            parts[i] = [
                format!("{}", x + (1 << 8)),
                format!("{}", x + (1 << 16)),
                format!("{}", x as u128 + (1 << 32)),
                format!("{}", x as u128 + (1 << 64)),
                format!("-{}", x),
                format!("{}", siblings(ty)),
                format!("{}", u64::MAX),
            ][plan(7) as usize]
                .clone();
        }
        8 if n > 0 => {
            let i = plan(n as u64) as usize;
            parts[i] = [format!(" {}", parts[i]), format!("{} ", parts[i]), format!("0{}", parts[i]), format!("+{}", parts[i])][plan(4) as usize].clone();
        }
        9 if n > 0 => {
            let i = plan(n as u64) as usize;
            parts[i].pop();
        }
        10 => return parts.join([":", "/", "..", " ", ","][plan(5) as usize]),
        _ => {
            parts.insert(plan(n as u64 + 1) as usize, ["kind", "value", "0", "1", "_"][plan(5) as usize].into());
        }
    }
    parts.join(".")
}

/// All elements a name may lead to, and whether it has to be accepted.
pub fn lead<'a>(ty: &'a Ty, name: &str) -> (Vec<(Vec<usize>, &'a Ty)>, bool) {
    let mut at: Vec<(Vec<usize>, &Ty)> = vec![(Vec::new(), ty)];
    let mut strict = true;
    for part in name.split('.') {
        let mut next = Vec::new();
        for (path, t) in &at {
            match t {
                Ty::Struct(f) | Ty::Enum(f) => {
                    for (i, x) in f.iter().enumerate() {
                        if x.0 == part {
                            let mut p = path.clone();
                            p.push(i);
                            next.push((p, &x.1));
                        }
                    }
                }
                Ty::Tuple(c) => {
                    let digits = part.strip_prefix('+').unwrap_or(part);
                    if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) {
                        let short = digits.trim_start_matches('0');
                        let i = if short.is_empty() { Some(0) } else { short.parse::<usize>().ok() };
                        if let Some(i) = i.filter(|i| *i < c.len()) {
                            strict &= i.to_string() == part;
                            let mut p = path.clone();
                            p.push(i);
                            next.push((p, &c[i]));
                        }
                    }
                }
                _ => {}
            }
        }
        at = next;
    }
    (at, strict)
}

pub fn value_at<'a>(v: &'a Val, t: &Ty, path: &[usize]) -> Option<&'a Val> {
    match (path.split_first(), t, v) {
        (None, _, v) => Some(v),
        (Some((i, rest)), Ty::Tuple(c), Val::Seq(x)) => value_at(&x[*i], &c[*i], rest),
        (Some((i, rest)), Ty::Struct(f), Val::Seq(x)) => value_at(&x[*i], &f[*i].1, rest),
        (Some((i, rest)), Ty::Enum(f), Val::Enum(k, x)) => {
            if i == k {
                value_at(x, &f[*i].1, rest)
            } else {
                None
            }
        }
        _ => None,
    }
}

fn server(schema: &Pipe, pipes: &[Pipe], ty: &Ty, v: &Val) {
    let text = receive(schema);
    let text = std::str::from_utf8(&text).unwrap_or("");
    let typ: Type = match TypeParser::new().parse(text) {
        Ok(t) => t,
        Err(e) => return fail(REFUSED, format!("{} was rejected: {}", text, e)),
    };
    ensure!(typ == real_type(ty), OTHER_TYPE, "{} was parsed to {:?}", text, typ);
    // what the server keeps: the value in memory, and a row
    let memory: IntermediateDataSource = to_source(ty, v);
    let marshaller = Marshaller::new(Arc::new(Layout::new(&typ)));
    let mut row = vec![0u8; marshaller.encoding_size(&memory)];
    marshaller.encode(&memory, &mut row);
    let stored = MarshallerDataSource::new(&marshaller, &row);
    let mut known: VecDeque<(String, Vec<usize>, Path)> = VecDeque::new();
    for p in pipes {
        let b = receive(p);
        let name = match std::str::from_utf8(&b) {
            Ok(t) => t,
            Err(_) => {
                count("probe.not_utf8_any_more");
                continue;
            }
        };
        simrt::log(|| format!("asked for {:?}", name));
        count("op.resolve");
        let r = match simrt::catch(|| Path::resolve_qualified_name(&typ, name)) {
            Ok(r) => r,
            Err(e) => return fail(NAME_ACCEPTED, format!("resolving {:?} in {} panicked: {}", name, text, e)),
        };
        let (there, strict) = lead(ty, name);
        match r {
            Err(e) => {
                ensure!(there.is_empty() || !strict, NAME_REFUSED, "{:?} is an element of {} but was rejected: {}", name, text, e);
                count("probe.name_rejected");
                count("nontrivial");
            }
            Ok(path) => {
                ensure!(!there.is_empty(), NAME_ACCEPTED, "{:?} is no element of {} but leads to {:?}", name, text, path.path());
                let sub = match there.iter().find(|x| x.0 == path.path()) {
                    Some(x) => x.1,
                    None => return fail(OTHER_ELEMENT, format!("{:?} in {} leads to {:?} instead of {:?}", name, text, path.path(), there[0].0)),
                };
                let found = match simrt::catch(|| typ.extract(&path).clone()) {
                    Ok(t) => t,
                    Err(e) => return fail(OTHER_ELEMENT, format!("the element {:?} of {} cannot be had: {}", name, text, e)),
                };
                ensure!(found == real_type(sub), OTHER_ELEMENT, "the element {:?} of {} is given as {:?}", name, text, found);
                count("probe.name_resolved");
                let sources: [(&str, &dyn DataSource); 2] = [("memory", &memory), ("a row", &stored)];
                if let Some(want) = value_at(v, ty, path.path()) {
                    for (what, s) in sources {
                        match simrt::catch(|| read_back(s, sub, &path)) {
                            Ok(Ok(x)) => ensure!(x == *want, OTHER_ELEMENT, "{:?} of {} in {} is {:?} instead of {:?}", name, text, what, x, want),
                            Ok(Err(e)) | Err(e) => {
                                return fail(OTHER_ELEMENT, format!("{:?} of {} in {} cannot be read: {}", name, text, what, e))
                            }
                        }
                    }
                    count("probe.value_found_by_name");
                }
                // which of the elements asked for so far contain which
                let indices = path.path().to_vec();
                known.push_back((name.to_string(), indices, path));
                if known.len() > 5 {
                    known.pop_front();
                }
                let (_, ib, pb) = known.back().unwrap();
                for (na, ia, pa) in &known {
                    for (x, y, xi, yi) in [(pa, pb, ia, ib), (pb, pa, ib, ia)] {
                        let inside = yi.starts_with(xi);
                        ensure!(x.is_prefix_of(y) == inside, PREFIX, "of {:?} and {:?} the first {} said to contain the second", xi, yi, if inside { "is not" } else { "is" });
                        let proper = inside && xi.len() < yi.len();
                        ensure!(
                            x.is_proper_prefix_of(y) == proper,
                            PREFIX,
                            "of {:?} and {:?} the first {} said to properly contain the second",
                            xi,
                            yi,
                            if proper { "is not" } else { "is" }
                        );
                        ensure!(x.cmp(y) == xi.cmp(yi) && (x == y) == (xi == yi), PREFIX, "{:?} and {:?} are ordered as {:?}", xi, yi, x.cmp(y));
                        if proper {
                            count("probe.element_inside_another");
                        }
                    }
                    let _ = na;
                }
            }
        }
    }
}
