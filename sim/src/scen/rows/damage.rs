//! C19, C20: stored rows and pages that were torn, flipped or cut short.
use super::arena::{Placed, Where};
use super::restart::row_type;
use super::shared::{alignment, odd_page_size, page_size};
use super::*;
use crate::scen::gen::*;
use crate::scen::pool::Disk;
use cathlamet::core::data_source::DataSource;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::nsm::PageFormat;
use cathlamet::core::types::{Path, Primitive};
use cathlamet::core::value::PrimitiveValue;
use cathlamet::storage::sim_hooks::{set_device, SimPool};
use simrt::{catch, count, ensure, fail, fault_value, plan, plan_pct, plan_range, plan_u64};
use std::rc::Rc;
use std::sync::Arc;

/// Damage some stored bytes.
pub fn damage(b: &mut Vec<u8>, other: &[u8], may_cut: bool) {
    for _ in 0..1 + fault_value(3) {
        if b.is_empty() {
            return;
        }
        let n = b.len() as u64;
        match fault_value(if may_cut { 9 } else { 7 }) {
            0 => {
                count("fault.bit_flip");
                let i = fault_value(n) as usize;
                b[i] ^= 1 << fault_value(8);
            }
            1 => {
                count("fault.bit_flip");
                // near the front, where counts and offsets are
                let i = fault_value(n.min(16)) as usize;
                b[i] ^= 1 << fault_value(8);
            }
            2 => {
                count("fault.torn_write");
                let i = fault_value(n + 1) as usize;
                for k in i..b.len() {
                    b[k] = other.get(k).copied().unwrap_or(0);
                }
            }
            3 => {
                count("fault.lost_sector");
                let i = fault_value(n) as usize;
                let j = (i + 1 + fault_value(n) as usize).min(b.len());
                let v = [0, 0xff, 0x7f][fault_value(3) as usize];
                b[i..j].iter_mut().for_each(|x| *x = v);
            }
            4 => {
                count("fault.bytes_overwritten");
                let i = fault_value(n) as usize;
                for k in 0..1 + fault_value(4) as usize {
                    if i + k < b.len() {
                        b[i + k] = fault_value(256) as u8;
                    }
                }
            }
            5 => {
                count("fault.word_overwritten");
                // a small or large number where a length, count or offset may be
                let i = fault_value(n.div_ceil(4)) as usize * 4;
                let v = match fault_value(6) {
                    0 => fault_value(16) as u32,
                    1 => (n as u32).wrapping_add(fault_value(17) as u32).wrapping_sub(8),
                    2 => u32::MAX - fault_value(9) as u32,
                    3 => (1u32 << 31).wrapping_add(fault_value(9) as u32),
                    4 => fault_value(2 * n + 1) as u32,
                    _ => fault_value(1 << 32) as u32,
                };
                for (k, x) in v.to_le_bytes().iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            6 => {
                count("fault.bytes_moved");
                let i = fault_value(n) as usize;
                let j = fault_value(n) as usize;
                let k = (fault_value(8) as usize + 1).min(b.len() - i.max(j));
                b.copy_within(i..i + k, j);
            }
            _ => {
                count("fault.cut_short");
                let i = fault_value(n) as usize;
                b.truncate(i);
            }
        }
    }
}

// ----------------------------------------------------------------- rows

#[derive(Clone, Debug)]
enum Leaf {
    Prim(Primitive),
    Str,
    Tag(usize),
}

fn leaves(t: &Ty, path: &Path, out: &mut Vec<(Path, Leaf)>) {
    if out.len() > 160 {
        return;
    }
    match t {
        Ty::Unit => {}
        Ty::Prim(p) => out.push((path.clone(), Leaf::Prim(*p))),
        Ty::Str => out.push((path.clone(), Leaf::Str)),
        Ty::Tuple(c) => c.iter().enumerate().for_each(|(i, t)| leaves(t, &path.with_component(i), out)),
        Ty::Struct(f) => f.iter().enumerate().for_each(|(i, t)| leaves(&t.1, &path.with_component(i), out)),
        Ty::Enum(f) => {
            out.push((path.clone(), Leaf::Tag(f.len())));
            f.iter().enumerate().for_each(|(i, t)| leaves(&t.1, &path.with_component(i), out));
        }
    }
}

/// The same type with numbers in place of booleans and characters.
fn twin(t: &Ty) -> Ty {
    match t {
        Ty::Prim(Primitive::Bool) => Ty::Prim(Primitive::U8),
        Ty::Prim(Primitive::Char) => Ty::Prim(Primitive::U32),
        Ty::Tuple(c) => Ty::Tuple(c.iter().map(twin).collect()),
        Ty::Struct(f) => Ty::Struct(f.iter().map(|(l, t)| (l.clone(), twin(t))).collect()),
        Ty::Enum(f) => Ty::Enum(f.iter().map(|(l, t)| (l.clone(), twin(t))).collect()),
        t => t.clone(),
    }
}
fn twin_val(v: &Val) -> Val {
    match v {
        Val::Prim(PrimitiveValue::Bool(b)) => Val::Prim(PrimitiveValue::U8(*b as u8)),
        Val::Prim(PrimitiveValue::Char(c)) => Val::Prim(PrimitiveValue::U32(*c as u32)),
        Val::Seq(x) => Val::Seq(x.iter().map(twin_val).collect()),
        Val::Enum(i, x) => Val::Enum(*i, Box::new(twin_val(x))),
        v => v.clone(),
    }
}

#[derive(Clone, Debug)]
enum Got {
    Stopped,
    Prim(PrimitiveValue),
    Bytes(usize, Vec<u8>),
    Number(usize),
}
impl PartialEq for Got {
    fn eq(&self, o: &Got) -> bool {
        match (self, o) {
            (Got::Stopped, Got::Stopped) => true,
            (Got::Prim(a), Got::Prim(b)) => same_prim(a, b),
            (Got::Bytes(_, a), Got::Bytes(_, b)) if a.is_empty() && b.is_empty() => true,
            (Got::Bytes(i, a), Got::Bytes(j, b)) => i == j && a == b,
            (Got::Number(a), Got::Number(b)) => a == b,
            _ => false,
        }
    }
}

fn accessors(m: &Marshaller, at: &Placed, path: &Path, leaf: &Leaf, text: &str) -> [Got; 2] {
    let src = MarshallerDataSource::new(m, at.bytes());
    let prim = |f: &dyn Fn() -> Got| catch(f).unwrap_or(Got::Stopped);
    match leaf {
        Leaf::Prim(p) => [
            prim(&|| match p {
                // an invalid one must not be touched as what it claims to be
                Primitive::Bool => Got::Prim(PrimitiveValue::U8(raw(src.get_bool(path)))),
                Primitive::Char => Got::Prim(PrimitiveValue::U32(raw4(src.get_char(path)))),
                p => Got::Prim(read_prim(&src, path, *p)),
            }),
            Got::Stopped,
        ],
        Leaf::Str => [
            prim(&|| {
                let b = src.get_bytes(path);
                if !at.contains(b) {
                    fail(
                        OUTSIDE,
                        format!(
                            "{:?} of a row of {} bytes yields {} bytes starting at {} (type {})",
                            path,
                            at.bytes().len(),
                            b.len(),
                            at.offset_of(b) as isize,
                            text
                        ),
                    );
                }
                Got::Bytes(at.offset_of(b), b.to_vec())
            }),
            prim(&|| Got::Number(src.get_length(path))),
        ],
        Leaf::Tag(_) => [prim(&|| Got::Number(src.get_case_tag(path))), Got::Stopped],
    }
}

#[inline(never)]
fn raw(b: bool) -> u8 {
    let b = std::mem::MaybeUninit::new(b);
    unsafe { std::ptr::read_volatile(b.as_ptr() as *const u8) }
}
#[inline(never)]
fn raw4(c: char) -> u32 {
    let c = std::mem::MaybeUninit::new(c);
    unsafe { std::ptr::read_volatile(c.as_ptr() as *const u32) }
}

fn marshaller(t: &Ty) -> Marshaller {
    Marshaller::new(Arc::new(Layout::new(&real_type(t))))
}

fn encoded(m: &Marshaller, t: &Ty, v: &Val) -> Vec<u8> {
    let src = to_source(t, v);
    let mut b = vec![0; m.encoding_size(&src)];
    m.encode(&src, &mut b);
    b
}

pub fn rows(cx: &Cx) {
    let ty = Rc::new(row_type(cx));
    let text = Rc::new(type_text(&ty));
    simrt::event("type", fp(text.as_bytes()), 0);
    simrt::log(|| format!("rows of type {}", text));
    let mut all = Vec::new();
    leaves(&ty, &Path::create_empty(), &mut all);
    let all = Rc::new(all);
    let m = Rc::new(marshaller(&ty));
    let tw = twin(&ty);
    let mt = Rc::new(marshaller(&tw));
    let rounds = if cx.thorough { 6 } else { 4 };
    for t in 0..plan_range(1, 2) {
        let (ty, text, all, m, mt, tw) = (ty.clone(), text.clone(), all.clone(), m.clone(), mt.clone(), tw.clone());
        simrt::spawn(format!("reader{}", t), move || {
            for _ in 0..plan_range(1, rounds) {
                if simrt::failed() {
                    return;
                }
                simrt::preempt("round");
                let v = gen_val(&ty, false);
                let row = encoded(&m, &ty, &v);
                if plan_pct(30) {
                    destination(&ty, &text, &m, &v, row.len());
                    continue;
                }
                let twins = encoded(&mt, &tw, &twin_val(&v)) == row;
                let other = encoded(&m, &ty, &gen_val(&ty, false));
                let mut bad = row.clone();
                damage(&mut bad, &other, true);
                simrt::event("damaged", fp(&bad), 0);
                simrt::log(|| format!("row {} is stored as {}", show(&row), show(&bad)));
                damaged_row(&text, &all, &m, if twins { Some(&*mt) } else { None }, &bad);
            }
        });
    }
    finish_tasks("reading damaged rows");
}

fn damaged_row(text: &str, all: &[(Path, Leaf)], m: &Marshaller, mt: Option<&Marshaller>, bad: &[u8]) {
    let fill = fault_value(256) as u8;
    let a = Placed::new(bad, Where::End, fill);
    let b = Placed::new(bad, if fault_value(2) == 0 { Where::Start } else { Where::Middle(fault_value(17) as usize) }, !fill);
    let mut stopped = 0;
    for (path, leaf) in all {
        count("op.accessor");
        let x = accessors(m, &a, path, leaf, text);
        let y = accessors(m, &b, path, leaf, text);
        ensure!(
            x == y,
            OUTSIDE,
            "reading {:?} ({:?}) of the row {} of type {} gives {:?} or {:?}, depending on the memory around it",
            path,
            leaf,
            show(bad),
            text,
            x,
            y
        );
        if x[0] == Got::Stopped {
            stopped += 1;
            continue;
        }
        match (leaf, &x[0]) {
            (Leaf::Tag(n), Got::Number(k)) => {
                ensure!(k < n, INVALID, "case {} of an enum of {} cases is returned for the row {} of type {}", k, n, show(bad), text)
            }
            (Leaf::Prim(Primitive::Bool), Got::Prim(PrimitiveValue::U8(k))) => {
                ensure!(*k < 2, INVALID, "a boolean with the value {} is returned for the row {} of type {}", k, show(bad), text);
                check_twin(text, mt, &a, path, x[0].clone(), *k as u32, true, bad);
            }
            (Leaf::Prim(Primitive::Char), Got::Prim(PrimitiveValue::U32(k))) => {
                ensure!(
                    char::from_u32(*k).is_some(),
                    INVALID,
                    "a character with the value {:#x} is returned for the row {} of type {}",
                    k,
                    show(bad),
                    text
                );
                check_twin(text, mt, &a, path, x[0].clone(), *k, false, bad);
            }
            _ => {}
        }
    }
    for p in [&a, &b] {
        if let Some(at) = p.trampled() {
            fail(WROTE_OUTSIDE, format!("reading a damaged row of {} bytes changed the byte at {}", bad.len(), at));
        }
        ensure!(p.bytes() == bad, WROTE_OUTSIDE, "reading a damaged row changed it");
    }
    count("probe.damaged_row_read");
    if stopped > 0 {
        count("nontrivial");
        count("probe.accessor_stopped");
    }
}

/// The number stored in the same place must be a valid boolean or character.
#[allow(clippy::too_many_arguments)]
fn check_twin(text: &str, mt: Option<&Marshaller>, a: &Placed, path: &Path, got: Got, value: u32, is_bool: bool, bad: &[u8]) {
    let Some(mt) = mt else { return };
    let src = MarshallerDataSource::new(mt, a.bytes());
    let stored = catch(|| if is_bool { src.get_u8(path) as u32 } else { src.get_u32(path) });
    if let Ok(stored) = stored {
        let valid = if is_bool { stored < 2 } else { char::from_u32(stored).is_some() };
        count("probe.stored_number_compared");
        ensure!(
            valid && stored == value,
            INVALID,
            "{:?} is returned for {:?} although {:#x} is stored (row {} of type {})",
            got,
            path,
            stored,
            show(bad),
            text
        );
    }
}

/// Encode into a destination that may be too small.
fn destination(ty: &Ty, text: &str, m: &Marshaller, v: &Val, size: usize) {
    let n = match fault_value(5) {
        0 => size.saturating_sub(1 + fault_value(8) as usize),
        1 => fault_value(size as u64 + 1) as usize,
        2 => fault_value((size as u64 + 1).min(24)) as usize,
        3 => size,
        _ => size.saturating_sub(1),
    };
    let src = to_source(ty, v);
    let fill = fault_value(256) as u8;
    let before: Vec<u8> = (0..n).map(|i| fill.wrapping_mul(3) ^ i as u8).collect();
    let place = match fault_value(3) {
        0 => Where::End,
        1 => Where::Start,
        _ => Where::Middle(fault_value(17) as usize),
    };
    let mut at = Placed::new(&before, place, fill);
    simrt::log(|| format!("{} bytes for a row of {}", n, size));
    simrt::event("destination", n as u64, size as u64);
    let r = catch(|| m.encode(&src, at.bytes_mut()));
    if n < size {
        count("fault.destination_too_small");
    }
    if let Some(k) = at.trampled() {
        fail(
            WROTE_OUTSIDE,
            format!("encoding a row of {} bytes into {} changed the byte at {} (type {})", size, n, k, text),
        );
    }
    match r {
        Err(e) => {
            ensure!(n < size, SHORT_DEST, "encoding into a destination of exactly {} bytes is refused: {} (type {})", n, e, text);
            count("probe.short_destination_stopped");
            count("nontrivial");
        }
        Ok(k) => {
            let src = MarshallerDataSource::new(m, at.bytes());
            let back = catch(|| read_back(&src, ty, &Path::create_empty()));
            if n < size {
                count("probe.only_padding_missing");
            }
            ensure!(
                matches!(&back, Ok(Ok(x)) if x == v),
                SHORT_DEST,
                "encoding a row of {} bytes into {} succeeds ({}), but the value is not there: {:?} instead of {:?} (type {})",
                size,
                n,
                k,
                back,
                v,
                text
            );
        }
    }
}

// ----------------------------------------------------------------- pages

#[derive(Clone, Debug)]
enum Op {
    Count,
    Space,
    Get(usize),
    Append(Vec<u8>),
    Insert(usize, Vec<u8>),
    Remove(usize),
}

fn some_index() -> usize {
    match plan(8) {
        0..=5 => plan(12) as usize,
        6 => plan(2000) as usize,
        _ => [u32::MAX as usize, usize::MAX, usize::MAX / 4, 1 << 30][plan(4) as usize],
    }
}

fn some_op(size: usize) -> Op {
    let row = || {
        let n = match plan(4) {
            0 => 0,
            1 => plan(8),
            2 => plan(size as u64 / 2 + 1),
            _ => plan(24),
        };
        (0..n).map(|i| 0x40u8.wrapping_add(i as u8)).collect::<Vec<u8>>()
    };
    match plan(9) {
        0 => Op::Count,
        1 => Op::Space,
        2 | 3 => Op::Get(some_index()),
        4 => Op::Append(row()),
        5 | 6 => Op::Insert(some_index(), row()),
        _ => Op::Remove(some_index()),
    }
}

#[derive(Debug, PartialEq)]
enum Out {
    Stopped,
    Number(usize),
    Row(usize, Vec<u8>),
    Done,
}

fn apply(f: &PageFormat, page: &mut [u8], op: &Op) -> Out {
    let base = page.as_ptr() as usize;
    let len = page.len();
    let r = catch(|| match op {
        Op::Count => Out::Number(f.num_rows(page)),
        Op::Space => Out::Number(f.max_insert_row_size(page)),
        Op::Get(i) => {
            let r = f.get_row(page, *i);
            let at = (r.as_ptr() as usize).wrapping_sub(base);
            if !r.is_empty() && (at >= len || r.len() > len - at) {
                fail(OUTSIDE, format!("row {} of a page of {} bytes is {} bytes at {}", i, len, r.len(), at as isize));
            }
            if r.is_empty() {
                Out::Row(0, Vec::new())
            } else {
                Out::Row(at, r.to_vec())
            }
        }
        Op::Append(r) => {
            f.append_row(page, r);
            Out::Done
        }
        Op::Insert(i, r) => {
            f.insert_row(page, *i, r);
            Out::Done
        }
        Op::Remove(i) => {
            f.remove_row(page, *i);
            Out::Done
        }
    });
    match r {
        Ok(o) => {
            count("probe.damaged_page_op_completed");
            o
        }
        Err(_) => {
            count("probe.damaged_page_op_stopped");
            Out::Stopped
        }
    }
}

/// A page in good order, with some history behind it.
fn good_page(f: &PageFormat, size: usize) -> Vec<u8> {
    let salt = plan_u64();
    let mut p: Vec<u8> = (0..size).map(|i| (simrt::rng::mix64(salt ^ i as u64 / 8) >> (8 * (i % 8))) as u8).collect();
    f.initialize_page(&mut p);
    for k in 0..plan_range(0, 14) {
        let n = f.num_rows(&p);
        if n > 0 && plan_pct(25) {
            f.remove_row(&mut p, plan(n as u64) as usize);
            continue;
        }
        let max = f.max_insert_row_size(&p);
        let len = plan((size as u64 / 5).max(12)) as usize;
        if max > 0 && len <= max {
            let row: Vec<u8> = (0..len).map(|i| (k as u8) << 4 ^ i as u8).collect();
            f.insert_row(&mut p, plan(n as u64 + 1) as usize, &row);
        }
    }
    p
}

pub fn pages(cx: &Cx) {
    let align = alignment();
    let cached = plan_pct(40);
    let size = if !cached && plan_pct(20) { odd_page_size(align) } else { page_size(align, cx.thorough) };
    let f = PageFormat::new(align);
    let mut bad = good_page(&f, size);
    // the page may have been written by somebody with other rules
    let reader = if plan_pct(8) { alignment().min(size) } else { align };
    let reader = if reader.is_power_of_two() && size % reader == 0 { reader } else { align };
    let f = PageFormat::new(reader);
    let other = good_page(&f, size);
    damage(&mut bad, &other, false);
    simrt::event("page", fp(&bad), align as u64);
    simrt::log(|| format!("page of {} bytes, rows aligned to {}, read as {}", size, align, reader));
    if cached {
        return in_cache(reader, size, bad);
    }
    let ops: Vec<Op> = (0..plan_range(1, 10)).map(|_| some_op(size)).collect();
    simrt::spawn("editor", move || {
        let fill = fault_value(256) as u8;
        let mut a = Placed::new(&bad, Where::End, fill);
        let mut b = Placed::new(&bad, if fault_value(2) == 0 { Where::Start } else { Where::Middle(fault_value(17) as usize) }, !fill);
        for op in &ops {
            simrt::preempt("op");
            count("op.on_damaged_page");
            let x = apply(&f, a.bytes_mut(), op);
            let y = apply(&f, b.bytes_mut(), op);
            simrt::log(|| format!("{:?} -> {:?}", op, x));
            if x == Out::Stopped {
                count("nontrivial");
            }
            for p in [&a, &b] {
                if let Some(k) = p.trampled() {
                    fail(
                        WROTE_OUTSIDE,
                        format!("{:?} on a damaged page of {} bytes changed the byte at {} (rows aligned to {})", op, size, k, reader),
                    );
                }
            }
            ensure!(
                x == y && a.bytes() == b.bytes(),
                OUTSIDE,
                "{:?} on a damaged page of {} bytes gives {:?} or {:?}, depending on the memory around it",
                op,
                size,
                x,
                y
            );
            simrt::event("after", fp(a.bytes()), 0);
        }
    });
    finish_tasks("editing a damaged page");
}

/// The damaged page is one of several in the page cache.
fn in_cache(align: usize, size: usize, bad: Vec<u8>) {
    let n = plan_range(2, 5) as usize;
    let disk = Rc::new({
        let mut d = Disk::new(size);
        d.any_location = true;
        d.slow_permille = [0, 200][plan(2) as usize];
        d
    });
    set_device(Some(disk.clone()));
    let at = (9u8, plan(4) * size as u64);
    disk.written.borrow_mut().insert(at, bad);
    let pool = match SimPool::new(size, n) {
        Ok(p) => Rc::new(p),
        Err(e) => return fail("panic: pool", format!("a cache with {} buffers cannot be created: {}", n, e)),
    };
    let f = Rc::new(PageFormat::new(align));
    // neighbours with content only the cache has
    let changed = plan_range(0, n as u64 - 2);
    {
        let (pool, f) = (pool.clone(), f.clone());
        simrt::spawn("editor", move || {
            for _ in 0..plan_range(1, 4) {
                let mut h = simrt::block_on(pool.access_read_write(at.0, at.1));
                for _ in 0..plan_range(1, 5) {
                    let op = some_op(size);
                    count("op.on_damaged_page");
                    let r = apply(&f, h.bytes_mut(), &op);
                    simrt::log(|| format!("{:?} -> {:?}", op, r));
                    if r == Out::Stopped {
                        count("nontrivial");
                    }
                    simrt::preempt("op");
                }
                simrt::block_on(h.release());
            }
        });
    }
    let pattern = |k: u64| -> Vec<u8> { (0..size).map(|i| (simrt::rng::mix64(k ^ (i as u64) << 8) >> 13) as u8).collect() };
    for k in 0..changed {
        let pool = pool.clone();
        let data = pattern(k);
        simrt::spawn(format!("neighbour{}", k), move || {
            {
                let mut h = simrt::block_on(pool.access_read_write(8, k * size as u64));
                h.bytes_mut().copy_from_slice(&data);
                simrt::preempt("neighbour");
                ensure!(h.bytes() == &data[..], NEIGHBOUR, "the page next to a damaged one changes while it is held");
                simrt::block_on(h.release());
            }
            for _ in 0..plan_range(1, 5) {
                simrt::preempt("neighbour");
                let mut h = simrt::block_on(pool.access_read_only(8, k * size as u64));
                ensure!(h.bytes() == &data[..], NEIGHBOUR, "edits of a damaged page changed another page");
                simrt::preempt("neighbour");
                ensure!(h.bytes() == &data[..], NEIGHBOUR, "edits of a damaged page changed another page");
                simrt::block_on(h.release());
                count("probe.neighbour_checked");
            }
        });
    }
    if changed + 2 <= n as u64 {
        let (pool, disk) = (pool.clone(), disk.clone());
        simrt::spawn("reader", move || {
            for _ in 0..plan_range(1, 6) {
                let loc = (7u8, plan(3) * size as u64);
                let want = disk.content(loc.0, loc.1);
                let mut h = simrt::block_on(pool.access_read_only(loc.0, loc.1));
                ensure!(h.bytes() == &want[..], NEIGHBOUR, "edits of a damaged page changed another page");
                simrt::preempt("reader");
                ensure!(h.bytes() == &want[..], NEIGHBOUR, "edits of a damaged page changed another page");
                simrt::block_on(h.release());
                count("probe.neighbour_checked");
            }
        });
    }
    finish_tasks("editing a damaged page in the cache");
}
