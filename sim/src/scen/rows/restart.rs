//! C18: rows written by one simulated process are read by the next, which
//! knows only the text of the type.
use super::*;
use crate::scen::gen::*;
use crate::scen::pool::Disk;
use crate::scen::schema::value_at;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::nsm::PageFormat;
use cathlamet::core::types::{parser::TypeParser, Path, Primitive, Type};
use cathlamet::storage::sim_hooks::{set_device, SimPool};
use simrt::{count, ensure, fail, plan, plan_pct, plan_range, plan_u64};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub fn row_type(cx: &Cx) -> Ty {
    let o = TypeOpts {
        idents: true,
        fields: if cx.thorough { 90 } else { 70 },
        big_enum_pct: 8,
        wide_pct: 4,
        depth: plan_range(0, 3) as u32,
        empty: false,
        huge: if cx.property == "C18" { 200 } else { 3000 },
    };
    gen_ty(&o, 0)
}

struct Schema {
    ty: Ty,
    text: String,
}

/// A schema as one process knows it.
struct Known {
    ty: Ty,
    typ: Type,
    marshaller: Marshaller,
}

fn learn(s: &Schema, from_text: bool) -> Known {
    let typ: Type = if from_text {
        match TypeParser::new().parse(&s.text) {
            Ok(t) => t,
            Err(e) => {
                fail(VALUE, format!("type {} is not accepted by the type parser: {:?}", s.text, e));
                real_type(&s.ty)
            }
        }
    } else {
        real_type(&s.ty)
    };
    let marshaller = Marshaller::new(Arc::new(Layout::new(&typ)));
    Known { ty: s.ty.clone(), typ, marshaller }
}

fn garbage(n: usize, kind: u64, salt: u64) -> Vec<u8> {
    (0..n)
        .map(|i| match kind {
            0 => 0,
            1 => 0xff,
            _ => (simrt::rng::mix64(salt ^ i as u64 / 8) >> (8 * (i % 8))) as u8,
        })
        .collect()
}

/// Encode into memory that held something else before.
fn encode<D: DataSource>(k: &Known, src: &D, text: &str) -> Vec<u8> {
    let size = k.marshaller.encoding_size(src);
    let slack = if plan_pct(40) { plan(40) as usize } else { 0 };
    let shift = plan(17) as usize;
    let mut memory = garbage(shift + size + slack, plan(3), plan_u64());
    let before = memory.clone();
    let n = k.marshaller.encode(src, &mut memory[shift..]);
    count("op.encode");
    ensure!(n == size, SIZE, "{} bytes announced and {} written for a row of type {}", size, n, text);
    ensure!(
        memory[..shift] == before[..shift] && memory[shift + n..] == before[shift + n..],
        SIZE,
        "bytes behind the {} announced ones are written for a row of type {}",
        size,
        text
    );
    memory[shift..shift + n].to_vec()
}

fn decode(k: &Known, row: &[u8], text: &str) -> Result<Val, String> {
    // the row may be anywhere in memory
    let shift = plan(17) as usize;
    let tail = plan(8) as usize;
    let mut memory = garbage(shift + row.len() + tail, plan(3), plan_u64());
    memory[shift..shift + row.len()].copy_from_slice(row);
    count("op.decode");
    let src = MarshallerDataSource::new(&k.marshaller, &memory[shift..shift + row.len()]);
    match simrt::catch(|| read_back(&src, &k.ty, &Path::create_empty())) {
        Ok(r) => r,
        Err(e) => Err(format!("reading a row of type {} panicked: {}", text, e)),
    }
}

/// Enums with more cases than sixteen bits can tell, one process after the other.
pub fn many_cases() {
    count("probe.cases_beyond_sixteen_bits");
    count("nontrivial");
    count("fault.restart");
    let n = 65_537 + plan(3000) as usize;
    let cases: Vec<(String, Ty)> = (0..n)
        .map(|i| (format!("c{}", i), if i % 3 == 1 { Ty::Prim(Primitive::U8) } else { Ty::Unit }))
        .collect();
    let small = Ty::Enum((0..plan_range(1, 40)).map(|i| (format!("s{}", i), Ty::Unit)).collect());
    let ty = match plan(3) {
        0 => Ty::Enum(cases),
        1 => Ty::Tuple(vec![small, Ty::Str, Ty::Enum(cases)]),
        _ => Ty::Tuple(vec![Ty::Enum(cases), small.clone(), Ty::Prim(Primitive::U16), small]),
    };
    fn pick(t: &Ty) -> Val {
        match t {
            Ty::Tuple(e) => Val::Seq(e.iter().map(pick).collect()),
            Ty::Enum(c) if c.len() > 60_000 => {
                let n = c.len() as u64;
                let tag = [n - 1, 65_535, 65_536, plan_range(65_536, n), plan(n), plan(257)][plan(6) as usize].min(n - 1) as usize;
                Val::Enum(tag, Box::new(gen_val(&c[tag].1, false)))
            }
            t => gen_val(t, false),
        }
    }
    let text = format!("(an enum of {} cases)", n);
    let one = |ty: &Ty| {
        simrt::seed_entropy(plan_u64());
        let typ = real_type(ty);
        let marshaller = Marshaller::new(Arc::new(Layout::new(&typ)));
        Known { ty: ty.clone(), typ, marshaller }
    };
    let writer = one(&ty);
    let rows: Vec<(Val, Vec<u8>)> = (0..plan_range(3, 12))
        .map(|_| {
            let v = pick(&ty);
            let row = encode(&writer, &to_source(&ty, &v), &text);
            (v, row)
        })
        .collect();
    let reader = one(&ty);
    for (v, row) in &rows {
        simrt::event("row", fp(row), 0);
        match decode(&reader, row, &text) {
            Ok(got) if got == *v => {}
            Ok(got) => {
                let show = |v: &Val| format!("{:?}", v).chars().take(300).collect::<String>();
                return fail(VALUE, format!("{} is read back as {} in {}", show(v), show(&got), text));
            }
            Err(e) => return fail(VALUE, e),
        }
    }
}

struct Page {
    vol: u8,
    off: u64,
    schema: usize,
    /// rows in memory, and rows that have been written to the device
    rows: Vec<(Val, Vec<u8>)>,
    flushed: Option<Vec<(Val, Vec<u8>)>>,
    ready: bool,
}

pub fn run(cx: &Cx) {
    let align = super::shared::alignment();
    let size = if plan(200) == 1 { 262_144 } else { [128usize, 512, 1024, 4096, 16384][plan(5) as usize].max(align) };
    let schemas: Rc<Vec<Schema>> = Rc::new(
        (0..plan_range(1, 3))
            .map(|_| {
                let ty = row_type(cx);
                let text = type_text(&ty);
                simrt::event("type", fp(text.as_bytes()), 0);
                Schema { ty, text }
            })
            .collect(),
    );
    for s in schemas.iter() {
        simrt::log(|| format!("schema {}", s.text));
    }
    let n = plan_range(2, 5) as usize;
    let disk = Rc::new({
        let mut d = Disk::new(size);
        d.any_location = true;
        d.slow_permille = [0, 150, 500][plan(3) as usize];
        d
    });
    set_device(Some(disk.clone()));
    let npages = plan_range(1, (n as u64 - 1).min(3)) as usize;
    let pages: Rc<RefCell<Vec<Page>>> = Rc::new(RefCell::new(
        (0..npages)
            .map(|i| Page {
                vol: 3,
                off: (i * size) as u64,
                schema: plan(schemas.len() as u64) as usize,
                rows: Vec::new(),
                flushed: None,
                ready: false,
            })
            .collect(),
    ));
    // rows too long for a page travel by themselves
    let loose: Rc<RefCell<Vec<(usize, Val, Vec<u8>)>>> = Default::default();
    let generations = plan_range(2, if cx.thorough { 4 } else { 3 });
    for g in 0..generations {
        simrt::seed_entropy(plan_u64());
        simrt::event("process", g, 0);
        simrt::log(|| format!("process {} starts", g));
        if g > 0 {
            count("fault.restart");
            // memory is gone; only what was written to the device is left
            for p in pages.borrow_mut().iter_mut() {
                if p.flushed.as_ref().map(|f| f.len()) != Some(p.rows.len()) {
                    count("fault.unwritten_changes_lost");
                }
                p.rows = p.flushed.clone().unwrap_or_default();
                p.ready = p.flushed.is_some();
            }
        }
        let pool = match SimPool::new(size, n) {
            Ok(p) => Rc::new(p),
            Err(e) => return fail("panic: pool", format!("a cache with {} buffers cannot be created: {}", n, e)),
        };
        let format = Rc::new(PageFormat::new(align));
        let known: Rc<Vec<Known>> = Rc::new(schemas.iter().map(|s| learn(s, g > 0 || plan_pct(50))).collect());
        let tasks = plan_range(1, 3);
        for t in 0..tasks {
            let (pool, format, known, schemas, pages, loose, disk) =
                (pool.clone(), format.clone(), known.clone(), schemas.clone(), pages.clone(), loose.clone(), disk.clone());
            simrt::spawn(format!("process{}.task{}", g, t), move || {
                for _ in 0..plan_range(1, 5) {
                    if simrt::failed() {
                        return;
                    }
                    if plan_pct(15) {
                        match loose.borrow().len() {
                            0 => {}
                            k => {
                                let i = plan(k as u64) as usize;
                                let (s, v, row) = loose.borrow()[i].clone();
                                read_row(&known[s], &schemas[s], &row, &v, g);
                            }
                        }
                    }
                    let p = plan(pages.borrow().len() as u64) as usize;
                    let (vol, off, s) = {
                        let q = &pages.borrow()[p];
                        (q.vol, q.off, q.schema)
                    };
                    if plan_pct(50) {
                        write(&pool, &format, &known[s], &schemas[s], &pages, &loose, &disk, p, vol, off);
                    } else {
                        read(&pool, &format, &known[s], &schemas[s], &pages, p, vol, off, g);
                    }
                }
            });
        }
        if !finish_tasks("writing and reading rows") {
            return;
        }
        // every row once more
        simrt::set_faults(false);
        {
            let (pool, format, known, schemas, pages, loose) =
                (pool.clone(), format.clone(), known.clone(), schemas.clone(), pages.clone(), loose.clone());
            simrt::spawn(format!("process{}.reader", g), move || {
                let n = pages.borrow().len();
                for p in 0..n {
                    let (vol, off, s) = {
                        let q = &pages.borrow()[p];
                        (q.vol, q.off, q.schema)
                    };
                    read(&pool, &format, &known[s], &schemas[s], &pages, p, vol, off, g);
                }
                let all = loose.borrow().clone();
                for (s, v, row) in all {
                    read_row(&known[s], &schemas[s], &row, &v, g);
                }
            });
        }
        if !finish_tasks("reading every row") {
            return;
        }
        simrt::set_faults(true);
    }
}

#[allow(clippy::too_many_arguments)]
fn write(
    pool: &SimPool,
    format: &PageFormat,
    k: &Known,
    s: &Schema,
    pages: &RefCell<Vec<Page>>,
    loose: &RefCell<Vec<(usize, Val, Vec<u8>)>>,
    disk: &Disk,
    p: usize,
    vol: u8,
    off: u64,
) {
    let mut h = simrt::block_on(pool.access_read_write(vol, off));
    let page = h.bytes_mut();
    if !pages.borrow()[p].ready {
        format.initialize_page(page);
        let mut q = pages.borrow_mut();
        q[p].ready = true;
        q[p].rows.clear();
    }
    for _ in 0..plan_range(1, 4) {
        simrt::preempt("row.write");
        let v = gen_val(&s.ty, false);
        let src: IntermediateDataSource = to_source(&s.ty, &v);
        let row = encode(k, &src, &s.text);
        simrt::event("row", row.len() as u64, 0);
        simrt::log(|| format!("row of {} bytes for {:?}", row.len(), v));
        // twice into differently dirty memory: equal values
        if plan_pct(40) {
            let again = encode(k, &src, &s.text);
            match (decode(k, &row, &s.text), decode(k, &again, &s.text)) {
                (Ok(a), Ok(b)) if a == b => {
                    ensure!(a == v, VALUE, "{:?} of type {} is read back as {:?}", v, s.text, a);
                }
                (a, b) => fail(NONDET, format!("two encodings of {:?} of type {} decode to {:?} and {:?}", v, s.text, a, b)),
            }
        }
        let max = format.max_insert_row_size(page);
        if row.len() <= max && max > 0 {
            let mut q = pages.borrow_mut();
            let n = q[p].rows.len();
            let at = if plan_pct(50) { n } else { plan(n as u64 + 1) as usize };
            format.insert_row(page, at, &row);
            q[p].rows.insert(at, (v, row));
            count("op.row_stored");
        } else if loose.borrow().len() < 6 {
            let schema = pages.borrow()[p].schema;
            loose.borrow_mut().push((schema, v, row));
            count("op.row_kept_outside_page");
            let n = pages.borrow()[p].rows.len();
            if n > 0 && plan_pct(30) {
                let i = plan(n as u64) as usize;
                format.remove_row(page, i);
                pages.borrow_mut()[p].rows.remove(i);
            }
        }
    }
    if plan_pct(70) {
        // write-back is not part of the code: the simulated system does it
        disk.written.borrow_mut().insert((vol, off), page.to_vec());
        let mut q = pages.borrow_mut();
        q[p].flushed = Some(q[p].rows.clone());
        count("seam.page_written_back");
    }
    simrt::block_on(h.release());
}

#[allow(clippy::too_many_arguments)]
fn read(pool: &SimPool, format: &PageFormat, k: &Known, s: &Schema, pages: &RefCell<Vec<Page>>, p: usize, vol: u8, off: u64, g: u64) {
    if !pages.borrow()[p].ready {
        return;
    }
    let mut h = simrt::block_on(pool.access_read_only(vol, off));
    let page = h.bytes();
    let want = pages.borrow()[p].rows.clone();
    let n = format.num_rows(page);
    ensure!(n == want.len(), ROW_LOST, "page {} has {} rows instead of {} in process {}", p, n, want.len(), g);
    for (i, (v, bytes)) in want.iter().enumerate() {
        let row = format.get_row(page, i);
        ensure!(row == &bytes[..], ROW_LOST, "row {} of page {} is {} instead of {}", i, p, show(row), show(bytes));
        // straight from the page
        let src = MarshallerDataSource::new(&k.marshaller, row);
        match simrt::catch(|| read_back(&src, &s.ty, &Path::create_empty())) {
            Ok(Ok(x)) => ensure!(x == *v, VALUE, "{:?} of type {} is read as {:?} by process {}", v, s.text, x, g),
            Ok(Err(e)) | Err(e) => fail(VALUE, format!("{:?} of type {} cannot be read by process {}: {}", v, s.text, g, e)),
        }
        count("op.row_read");
        simrt::preempt("row.read");
        read_row(k, s, row, v, g);
    }
    simrt::block_on(h.release());
}

fn read_row(k: &Known, s: &Schema, row: &[u8], v: &Val, g: u64) {
    match decode(k, row, &s.text) {
        Ok(x) => ensure!(x == *v, VALUE, "{:?} of type {} is read as {:?} by process {}", v, s.text, x, g),
        Err(e) => fail(VALUE, format!("{:?} of type {} cannot be read by process {}: {}", v, s.text, g, e)),
    }
    if plan_pct(20) {
        // an element is asked for by its name
        let name = crate::scen::schema::gen_name(&s.ty);
        let (there, strict) = crate::scen::schema::lead(&s.ty, &name);
        let want = there.first().and_then(|x| value_at(v, &s.ty, &x.0).map(|v| (x.1, v)));
        if let Some((ty, want)) = want.filter(|_| strict && there.len() == 1) {
            let src = MarshallerDataSource::new(&k.marshaller, row);
            let got = simrt::catch(|| match Path::resolve_qualified_name(&k.typ, &name) {
                Ok(path) => read_back(&src, ty, &path),
                Err(e) => Err(e),
            });
            match got {
                Ok(Ok(x)) => ensure!(x == *want, VALUE, "{:?} of a row of type {} is read as {:?} instead of {:?}", name, s.text, x, want),
                Ok(Err(e)) | Err(e) => return fail(VALUE, format!("{:?} of a row of type {} cannot be read: {}", name, s.text, e)),
            }
            count("probe.element_read_by_name");
        }
    }
    if g > 0 {
        count("nontrivial");
        count("probe.row_of_earlier_process_read");
    }
    if plan_pct(25) {
        // a row is a source of values itself: copy it
        let src = MarshallerDataSource::new(&k.marshaller, row);
        let copy = match simrt::catch(|| encode(k, &src, &s.text)) {
            Ok(c) => c,
            Err(e) => return fail(VALUE, format!("a row of type {} cannot be copied: {}", s.text, e)),
        };
        ensure!(copy.len() == row.len(), SIZE, "the copy of a row of {} bytes has {} (type {})", row.len(), copy.len(), s.text);
        match decode(k, &copy, &s.text) {
            Ok(x) => ensure!(x == *v, VALUE, "the copy of {:?} of type {} is read as {:?}", v, s.text, x),
            Err(e) => fail(VALUE, format!("the copy of {:?} of type {} cannot be read: {}", v, s.text, e)),
        }
        count("probe.row_copied");
    }
}
