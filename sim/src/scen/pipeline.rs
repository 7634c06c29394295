//! C33: values travel from JSON documents into rows of shared pages and back,
//! between tasks and from one simulated process to the next.
use super::gen::*;
use super::json::{damage, foreign, show, stream_faults, Pipe, SimWriter, StreamFaults};
use super::pool::Disk;
use super::refjson;
use super::rows::shared::alignment;
use super::schema::{gen_name, lead, value_at};
use super::Cx;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::nsm::PageFormat;
use cathlamet::core::types::{parser::TypeParser, Path, Type};
use cathlamet::storage::sim_hooks::{set_device, SimPool};
use simrt::{count, ensure, fail, plan, plan_pct, plan_range, plan_u64, Abandon, Outcome};
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

pub const NOT_IMPORTED: &str = "good-document-not-imported";
pub const IMPORTED_AS: &str = "imported-as-another-value";
pub const ROW_VALUE: &str = "row-holds-another-value";
pub const ROW_LOST: &str = "imported-row-lost";
pub const NOT_EXPORTED: &str = "row-not-exported";
pub const EXPORTED_AS: &str = "exported-as-another-value";
pub const CUT: &str = "incomplete-export-reported-complete";
pub const ELEMENT: &str = "element-differs-between-document-and-row";
pub const STUCK: &str = "pipeline-stuck";

struct Schema {
    ty: Ty,
    text: String,
}

/// What one task of a process knows of a schema.
struct Known {
    typ: Type,
    marshaller: Marshaller,
    decoder: JsonDecoder,
    encoder: JsonEncoder,
    /// used for one document after the other
    scratch: IntermediateDataSource,
}

fn learn(s: &Schema, from_text: bool) -> Known {
    let typ = if from_text {
        match TypeParser::new().parse(&s.text) {
            Ok(t) => t,
            Err(e) => {
                fail(NOT_IMPORTED, format!("type {} is not accepted by the type parser: {:?}", s.text, e));
                real_type(&s.ty)
            }
        }
    } else {
        real_type(&s.ty)
    };
    Known {
        marshaller: Marshaller::new(Arc::new(Layout::new(&typ))),
        decoder: JsonDecoder::new(&typ),
        encoder: JsonEncoder::new(&typ),
        typ,
        scratch: IntermediateDataSource::new(),
    }
}

#[derive(Clone)]
struct Stored {
    val: Val,
    /// how many documents and rows it has been so far
    hops: u32,
    /// the process that stored it
    by: u64,
}

struct Page {
    off: u64,
    schema: usize,
    rows: Vec<Stored>,
    flushed: Option<Vec<Stored>>,
    ready: bool,
}

#[derive(Clone)]
struct Letter {
    schema: usize,
    val: Val,
    hops: u32,
    text: String,
}

struct World {
    schemas: Vec<Schema>,
    pages: RefCell<Vec<Page>>,
    /// documents on their way
    mail: RefCell<Vec<Letter>>,
    disk: Rc<Disk>,
    abandoning: bool,
    damaging: u64,
    failing: bool,
}

struct Process<'a> {
    w: &'a World,
    pool: &'a SimPool,
    format: &'a PageFormat,
    known: Vec<Known>,
    g: u64,
}

pub fn run(cx: &Cx) {
    let align = alignment();
    let size = [512usize, 1024, 4096, 16384][plan(4) as usize].max(align);
    let schemas: Vec<Schema> = (0..plan_range(1, 2))
        .map(|_| {
            let ty = gen_ty(
                &TypeOpts {
                    idents: true,
                    fields: 64,
                    big_enum_pct: 4,
                    wide_pct: if cx.thorough { 4 } else { 3 },
                    depth: plan_range(0, 3) as u32,
                    empty: false,
                    huge: 400,
                },
                0,
            );
            let text = type_text(&ty);
            simrt::event("type", super::rows::fp(text.as_bytes()), 0);
            simrt::log(|| format!("schema {}", text));
            Schema { ty, text }
        })
        .collect();
    let n = plan_range(2, 4) as usize;
    let disk = Rc::new({
        let mut d = Disk::new(size);
        d.any_location = true;
        d.slow_permille = [0, 150, 500][plan(3) as usize];
        d
    });
    set_device(Some(disk.clone()));
    let npages = plan_range(1, (n as u64 - 1).min(2)) as usize;
    let pages = (0..npages)
        .map(|i| Page {
            off: (i * size) as u64,
            schema: plan(schemas.len() as u64) as usize,
            rows: Vec::new(),
            flushed: None,
            ready: false,
        })
        .collect();
    let world = Rc::new(World {
        schemas,
        pages: RefCell::new(pages),
        mail: Default::default(),
        disk,
        abandoning: plan_pct(30),
        damaging: [0, 0, 30][plan(3) as usize],
        failing: plan_pct(40),
    });
    for g in 0..plan_range(1, 3) {
        simrt::seed_entropy(plan_u64());
        simrt::event("process", g, 0);
        simrt::log(|| format!("process {} starts", g));
        if g > 0 {
            count("fault.restart");
            for p in world.pages.borrow_mut().iter_mut() {
                if p.flushed.as_ref().map(|f| f.len()) != Some(p.rows.len()) {
                    count("fault.unwritten_changes_lost");
                }
                p.rows = p.flushed.clone().unwrap_or_default();
                p.ready = p.flushed.is_some();
            }
        }
        let pool = match SimPool::new(size, n) {
            Ok(p) => Rc::new(p),
            Err(e) => return fail("panic: pool", format!("a cache with {} buffers cannot be created: {}", n, e)),
        };
        let format = Rc::new(PageFormat::new(align));
        for t in 0..plan_range(1, 3) {
            let (w, pool, format) = (world.clone(), pool.clone(), format.clone());
            simrt::spawn(format!("process{}.task{}", g, t), move || {
                let known = w.schemas.iter().map(|s| learn(s, g > 0 || plan_pct(50))).collect();
                let mut me = Process { w: &w, pool: &pool, format: &format, known, g };
                for _ in 0..plan_range(1, 5) {
                    if simrt::failed() {
                        return;
                    }
                    match plan(10) {
                        0..=4 => me.import(),
                        5..=8 => me.export(),
                        _ => me.relay(),
                    }
                }
            });
        }
        if !finish("moving values between documents and rows") {
            return;
        }
        // every row is exported once more on a stream without faults
        simrt::set_faults(false);
        {
            let (w, pool, format) = (world.clone(), pool.clone(), format.clone());
            simrt::spawn(format!("process{}.reader", g), move || {
                let known = w.schemas.iter().map(|s| learn(s, true)).collect();
                let mut me = Process { w: &w, pool: &pool, format: &format, known, g };
                let n = w.pages.borrow().len();
                for p in 0..n {
                    me.export_all(p);
                }
            });
        }
        if !finish("exporting every row") {
            return;
        }
        simrt::set_faults(true);
    }
}

fn finish(what: &str) -> bool {
    match simrt::run_tasks() {
        Outcome::Done => true,
        Outcome::Halted => false,
        Outcome::Stuck(s) => {
            fail(STUCK, format!("{}: tasks wait for ever: {:?}", what, s));
            false
        }
    }
}

impl<'a> Process<'a> {
    fn mode(&self) -> Abandon {
        if !self.w.abandoning || !plan_pct(20) {
            return Abandon::Never;
        }
        match plan(3) {
            0 => Abandon::AtPending(plan_range(1, 3) as u32),
            1 => Abandon::AfterWake(plan_range(1, 2) as u32),
            _ => Abandon::Timeout(1 + plan(500_000)),
        }
    }

    /// A document to import: from another task, another program or a new one.
    fn document(&mut self, want: Option<usize>) -> Letter {
        let fit: Vec<usize> = {
            let m = self.w.mail.borrow();
            (0..m.len()).filter(|i| want.is_none() || Some(m[*i].schema) == want).collect()
        };
        if !fit.is_empty() && plan_pct(60) {
            let i = fit[plan(fit.len() as u64) as usize];
            count("probe.exported_document_taken");
            return if plan_pct(50) { self.w.mail.borrow_mut().remove(i) } else { self.w.mail.borrow()[i].clone() };
        }
        let schema = want.unwrap_or_else(|| plan(self.w.schemas.len() as u64) as usize);
        let ty = &self.w.schemas[schema].ty;
        let val = gen_val(ty, true);
        let mut text = String::new();
        foreign(ty, &val, &mut text);
        Letter { schema, val, hops: 0, text }
    }

    /// The value of a document, in the data source of its schema.
    fn take_in(&mut self, l: &Letter) -> bool {
        let s = &self.w.schemas[l.schema];
        let k = &mut self.known[l.schema];
        if simrt::fault(self.w.damaging * 10, 2) == 1 {
            // a damaged copy arrives first
            let bytes = damage(l.text.clone().into_bytes(), l.text.as_bytes());
            if let Ok(t) = std::str::from_utf8(&bytes) {
                count("fault.damaged_copy_first");
                if k.decoder.parse(t, &mut k.scratch).is_err() {
                    count("probe.damaged_copy_rejected");
                }
            }
        }
        match plan(3) {
            0 => k.scratch.clear(),
            1 => k.scratch = IntermediateDataSource::new(),
            _ => {}
        }
        count("op.import");
        simrt::log(|| format!("import {}", show(l.text.as_bytes())));
        if let Err(e) = k.decoder.parse(&l.text, &mut k.scratch) {
            fail(NOT_IMPORTED, format!("{} of type {} is rejected in hop {}: {}", show(l.text.as_bytes()), s.text, l.hops, e));
            return false;
        }
        match simrt::catch(|| read_back(&k.scratch, &s.ty, &Path::create_empty())) {
            Ok(Ok(x)) if x == l.val => match leftover(&k.scratch, &s.ty, &x, &Path::create_empty()) {
                Some(p) if l.text.len() < 2_000 => {
                    fail(IMPORTED_AS, format!("{} of type {} is imported, but another case's element {:?} is left from before", show(l.text.as_bytes()), s.text, p));
                    false
                }
                _ => true,
            },
            Ok(Ok(x)) => {
                fail(IMPORTED_AS, format!("{} of type {} is imported as {:?}", show(l.text.as_bytes()), s.text, x));
                false
            }
            Ok(Err(e)) | Err(e) => {
                fail(IMPORTED_AS, format!("{} of type {} is imported but cannot be read: {}", show(l.text.as_bytes()), s.text, e));
                false
            }
        }
    }

    fn to_row<D: DataSource>(&self, schema: usize, src: &D, val: &Val) -> Option<Vec<u8>> {
        let s = &self.w.schemas[schema];
        let m = &self.known[schema].marshaller;
        let done = simrt::catch(|| {
            let n = m.encoding_size(src);
            let mut row = vec![[0u8, 0xff, 0x5a][plan(3) as usize]; n + plan(9) as usize];
            let len = m.encode(src, &mut row);
            row.truncate(len);
            row
        });
        match done {
            Ok(r) => Some(r),
            Err(e) => {
                fail(ROW_VALUE, format!("{:?} of type {} cannot be made a row: {}", val, s.text, e));
                None
            }
        }
    }

    fn import(&mut self) {
        let p = plan(self.w.pages.borrow().len() as u64) as usize;
        let (off, schema) = {
            let q = &self.w.pages.borrow()[p];
            (q.off, q.schema)
        };
        // before the page is asked for, or while it is held
        let early = plan_pct(50);
        let l = self.document(Some(schema));
        if early && !self.take_in(&l) {
            return;
        }
        let mut h = match simrt::block_on_or_abandon(self.pool.access_read_write(3, off), self.mode()) {
            Ok(Some(h)) => h,
            Ok(None) => {
                count("fault.import_abandoned");
                return;
            }
            Err(e) => return fail("panic: import", e),
        };
        if !early && !self.take_in(&l) {
            return;
        }
        let row = match self.to_row(schema, &self.known[schema].scratch, &l.val) {
            Some(r) => r,
            None => return,
        };
        let page = h.bytes_mut();
        if !self.w.pages.borrow()[p].ready {
            self.format.initialize_page(page);
            let mut q = self.w.pages.borrow_mut();
            q[p].ready = true;
            q[p].rows.clear();
        }
        simrt::preempt("row.write");
        let mut n = self.w.pages.borrow()[p].rows.len();
        if n > 0 && (self.format.max_insert_row_size(page) < row.len() || plan_pct(10)) {
            let i = plan(n as u64) as usize;
            self.format.remove_row(page, i);
            self.w.pages.borrow_mut()[p].rows.remove(i);
            n -= 1;
        }
        let max = self.format.max_insert_row_size(page);
        if max > 0 && row.len() <= max {
            let at = plan(n as u64 + 1) as usize;
            self.format.insert_row(page, at, &row);
            let stored = Stored { val: l.val.clone(), hops: l.hops + 1, by: self.g };
            self.w.pages.borrow_mut()[p].rows.insert(at, stored);
            count("op.row_stored");
            simrt::event("stored", row.len() as u64, l.hops as u64);
        } else {
            // it leaves again without having been on a page
            count("probe.row_too_long_for_page");
            self.send(schema, &row, &Stored { val: l.val.clone(), hops: l.hops + 1, by: self.g });
        }
        if plan_pct(60) {
            // write-back is not part of the code: the simulated system does it
            self.w.disk.written.borrow_mut().insert((3, off), page.to_vec());
            let mut q = self.w.pages.borrow_mut();
            q[p].flushed = Some(q[p].rows.clone());
            count("seam.page_written_back");
        }
        if plan_pct(80) {
            simrt::block_on(h.release());
        }
    }

    /// The row is exported; the document goes to the mail.
    fn send(&mut self, schema: usize, row: &[u8], v: &Stored) {
        let s = &self.w.schemas[schema];
        let k = &self.known[schema];
        let src = MarshallerDataSource::new(&k.marshaller, row);
        let mut f = stream_faults(self.w.failing);
        if f.room == usize::MAX - 1 {
            f.room = plan(300) as usize;
        }
        for attempt in 0..2 {
            let pipe = Pipe::default();
            let mut w = SimWriter { pipe: &pipe, f, failed: None, broken: false };
            count("op.export");
            let r = match simrt::catch(|| k.encoder.encode(&mut w, &src)) {
                Ok(r) => r,
                Err(e) => return fail(NOT_EXPORTED, format!("exporting {:?} of type {} panics: {}", v.val, s.text, e)),
            };
            let failed = w.failed;
            let bytes = pipe.buf.borrow().clone();
            simrt::event("exported", bytes.len() as u64, r.is_ok() as u64);
            simrt::log(|| format!("export {} -> {:?}", show(&bytes), r.as_ref().map_err(|e| e.kind())));
            match (r, failed) {
                (Err(e), None) => {
                    return fail(NOT_EXPORTED, format!("exporting {:?} of type {} fails on a working stream: {}", v.val, s.text, e))
                }
                (Ok(()), Some(e)) => {
                    return fail(CUT, format!("the stream failed with {:?} but exporting {:?} of type {} succeeded", e, v.val, s.text))
                }
                (Err(_), Some(_)) => {
                    count("probe.export_failed_with_stream");
                    ensure!(attempt == 0, NOT_EXPORTED, "a stream without faults failed");
                    f = StreamFaults::none();
                }
                (Ok(()), None) => {
                    let meant = std::str::from_utf8(&bytes)
                        .map_err(|e| e.to_string())
                        .and_then(|t| refjson::parse(t).and_then(|j| refjson::typed(&j, &s.ty)));
                    match meant {
                        Ok(x) if x == v.val => {}
                        Ok(x) => {
                            return fail(
                                EXPORTED_AS,
                                format!("{:?} of type {} is exported as {} which means {:?}", v.val, s.text, show(&bytes), x),
                            )
                        }
                        Err(e) => {
                            return fail(EXPORTED_AS, format!("{:?} of type {} is exported as {}: {}", v.val, s.text, show(&bytes), e))
                        }
                    }
                    if v.by != self.g {
                        count("nontrivial");
                        count("probe.row_of_earlier_process_exported");
                    }
                    if v.hops > 1 {
                        count("probe.value_travelled_twice");
                    }
                    let mut m = self.w.mail.borrow_mut();
                    let l = Letter { schema, val: v.val.clone(), hops: v.hops + 1, text: String::from_utf8(bytes).unwrap() };
                    if m.len() < 6 {
                        m.push(l);
                    } else {
                        let i = plan(6) as usize;
                        m[i] = l;
                    }
                    return;
                }
            }
        }
    }

    fn look(&self, p: usize, page: &[u8]) -> Option<Vec<Stored>> {
        let want = self.w.pages.borrow()[p].rows.clone();
        let n = self.format.num_rows(page);
        if n != want.len() {
            fail(ROW_LOST, format!("page {} has {} rows instead of {} in process {}", p, n, want.len(), self.g));
            return None;
        }
        Some(want)
    }

    fn same(&self, schema: usize, row: &[u8], v: &Stored) -> bool {
        let s = &self.w.schemas[schema];
        let src = MarshallerDataSource::new(&self.known[schema].marshaller, row);
        match simrt::catch(|| read_back(&src, &s.ty, &Path::create_empty())) {
            Ok(Ok(x)) if x == v.val => true,
            Ok(Ok(x)) => {
                fail(ROW_VALUE, format!("the row of {:?} of type {} is read as {:?}", v.val, s.text, x));
                false
            }
            Ok(Err(e)) | Err(e) => {
                fail(ROW_VALUE, format!("the row of {:?} of type {} cannot be read: {}", v.val, s.text, e));
                false
            }
        }
    }

    fn export(&mut self) {
        let p = plan(self.w.pages.borrow().len() as u64) as usize;
        let (off, schema, ready) = {
            let q = &self.w.pages.borrow()[p];
            (q.off, q.schema, q.ready)
        };
        if !ready {
            return;
        }
        let mut h = match simrt::block_on_or_abandon(self.pool.access_read_only(3, off), self.mode()) {
            Ok(Some(h)) => h,
            Ok(None) => {
                count("fault.export_abandoned");
                return;
            }
            Err(e) => return fail("panic: export", e),
        };
        let want = match self.look(p, h.bytes()) {
            Some(w) => w,
            None => return,
        };
        if !want.is_empty() {
            let i = plan(want.len() as u64) as usize;
            // from the page itself or from a copy of the row
            if plan_pct(50) {
                let row = self.format.get_row(h.bytes(), i);
                self.send(schema, row, &want[i]);
                self.element(schema, row, &want[i]);
            } else {
                let row = self.format.get_row(h.bytes(), i).to_vec();
                simrt::block_on(h.release());
                self.send(schema, &row, &want[i]);
                self.element(schema, &row, &want[i]);
                return;
            }
        }
        if plan_pct(80) {
            simrt::block_on(h.release());
        }
    }

    fn export_all(&mut self, p: usize) {
        let (off, schema, ready) = {
            let q = &self.w.pages.borrow()[p];
            (q.off, q.schema, q.ready)
        };
        if !ready {
            return;
        }
        let mut h = simrt::block_on(self.pool.access_read_only(3, off));
        if let Some(want) = self.look(p, h.bytes()) {
            for (i, v) in want.iter().enumerate() {
                let row = self.format.get_row(h.bytes(), i);
                if !self.same(schema, row, v) || simrt::failed() {
                    return;
                }
                self.send(schema, row, v);
            }
        }
        simrt::block_on(h.release());
    }

    /// A document is imported and sent on without any page.
    fn relay(&mut self) {
        let l = self.document(None);
        if !self.take_in(&l) {
            return;
        }
        let row = match self.to_row(l.schema, &self.known[l.schema].scratch, &l.val) {
            Some(r) => r,
            None => return,
        };
        let v = Stored { val: l.val.clone(), hops: l.hops + 1, by: self.g };
        if !self.same(l.schema, &row, &v) {
            return;
        }
        // a row made from a row
        let row = if plan_pct(50) {
            let src = MarshallerDataSource::new(&self.known[l.schema].marshaller, &row);
            match self.to_row(l.schema, &src, &l.val) {
                Some(r) => r,
                None => return,
            }
        } else {
            row
        };
        self.element(l.schema, &row, &v);
        self.send(l.schema, &row, &v);
    }

    /// One element, asked for by its name in the row and in the document.
    fn element(&mut self, schema: usize, row: &[u8], v: &Stored) {
        if simrt::failed() || !plan_pct(40) {
            return;
        }
        let s = &self.w.schemas[schema];
        let name = gen_name(&s.ty);
        let (there, strict) = lead(&s.ty, &name);
        let want = there.first().and_then(|x| value_at(&v.val, &s.ty, &x.0).map(|v| (x.1, v)));
        let (ty, want) = match want.filter(|_| strict && there.len() == 1) {
            Some(x) => x,
            None => return,
        };
        let k = &self.known[schema];
        let src = MarshallerDataSource::new(&k.marshaller, row);
        let from_row = simrt::catch(|| Path::resolve_qualified_name(&k.typ, &name).and_then(|path| read_back(&src, ty, &path)));
        match from_row {
            Ok(Ok(x)) => ensure!(x == *want, ELEMENT, "{:?} of the row of {:?} of type {} is {:?}", name, v.val, s.text, x),
            Ok(Err(e)) | Err(e) => return fail(ELEMENT, format!("{:?} of the row of {:?} of type {}: {}", name, v.val, s.text, e)),
        }
        count("probe.element_by_name");
    }
}
