//! C16, C17: tasks edit rows of shared pages through the page cache.
use super::history::{check, Session, Step};
use super::*;
use crate::scen::pool::Disk;
use cathlamet::core::nsm::PageFormat;
use cathlamet::storage::sim_hooks::{set_device, SimPool};
use simrt::{catch, count, ensure, fail, plan, plan_pct, plan_range, plan_weighted, Abandon};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct PageState {
    vol: u8,
    off: u64,
    sessions: Vec<Session>,
    ready: bool,
}

struct World {
    pool: SimPool,
    format: PageFormat,
    align: usize,
    size: usize,
    /// pages with rows
    pages: RefCell<Vec<PageState>>,
    /// pages that are only read, to put the cache under pressure
    others: Vec<(u8, u64)>,
    disk: Rc<Disk>,
    serial: Cell<u32>,
    clock: Cell<u64>,
    space: bool,
    /// how rows are sized in this run
    bias: u64,
    abandoning: bool,
}

pub fn read_all(f: &PageFormat, page: &[u8]) -> Vec<Vec<u8>> {
    (0..f.num_rows(page)).map(|i| f.get_row(page, i).to_vec()).collect()
}

impl World {
    fn tick(&self) -> u64 {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }

    /// A row no other row is equal to, unless it is too short for that.
    fn row(&self, len: usize) -> Vec<u8> {
        let n = self.serial.get() + 1;
        self.serial.set(n);
        let id = n.to_le_bytes();
        (0..len).map(|i| if i < 2 { id[i] } else { (n as u8).wrapping_mul(7).wrapping_add(i as u8) | 1 }).collect()
    }

    fn length(&self, max: usize) -> usize {
        let a = self.align as u64;
        let l = match (self.bias, plan(8)) {
            (0, 0..=5) => plan(9),
            (1, 0..=5) => plan(3 * a + 2),
            (2, 0..=5) => plan_range(0, (self.size as u64 / 6).max(1)),
            (_, 6) => 0,
            (_, 7) => max as u64,
            _ => plan_range(0, (self.size as u64 / 3).max(1)),
        };
        l as usize
    }

    /// Would adding that row be within what the page offers?
    fn fits(&self, page: &[u8], len: usize) -> bool {
        let max = self.format.max_insert_row_size(page);
        len <= max && (max > 0)
    }

    // ------------------------------------------------------ free space

    /// The page as a new one with the same rows would look to its users.
    fn rebuilt(&self, rows: &[Vec<u8>]) -> Vec<u8> {
        let mut p: Vec<u8> = (0..self.size).map(|i| (i as u8).wrapping_mul(91) ^ 0x6b).collect();
        self.format.initialize_page(&mut p);
        for r in rows {
            self.format.append_row(&mut p, r);
        }
        p
    }

    fn probe_space(&self, page: &[u8]) {
        let f = &self.format;
        let rows = read_all(f, page);
        let max = f.max_insert_row_size(page);
        simrt::event("space", max as u64, rows.len() as u64);
        let fresh = match catch(|| self.rebuilt(&rows)) {
            Ok(p) => p,
            Err(e) => {
                return fail(SPACE_HISTORY, format!("the {} rows on this page do not fit on a new page of the same size: {}", rows.len(), e))
            }
        };
        let other = f.max_insert_row_size(&fresh);
        ensure!(
            max == other,
            SPACE_HISTORY,
            "{} bytes are offered, but {} by a new page with the same {} rows (page of {}, rows aligned to {})",
            max,
            other,
            rows.len(),
            self.size,
            self.align
        );
        // as much as is offered
        for len in [max, plan(max as u64 + 1) as usize] {
            let at = plan(rows.len() as u64 + 2) as usize;
            let mut p = page.to_vec();
            let r = self.row(len);
            let done = catch(|| if at > rows.len() { f.append_row(&mut p, &r) } else { f.insert_row(&mut p, at, &r) });
            count("probe.space_exact");
            match done {
                Err(e) => {
                    if max > 0 {
                        fail(
                            SPACE_REFUSED,
                            format!("{} bytes are offered with {} rows, but a row of {} is refused at {}: {}", max, rows.len(), len, at, e),
                        );
                    }
                    count("probe.full_page_refused_empty_row");
                    ensure!(p == page, SPACE_EXCESS, "a refused row of {} bytes changed the page", len);
                }
                Ok(()) => {
                    let mut want = rows.clone();
                    want.insert(at.min(rows.len()), r.clone());
                    self.intact(&p, &want, &format!("after adding a row of {} of {} offered bytes at {}", len, max, at));
                }
            }
        }
        // more than is offered
        let len = match plan(5) {
            0 => max + 1,
            1 => max + self.align,
            2 => max + 1 + plan(self.size as u64) as usize,
            3 => self.size,
            _ => self.size + 1 + plan(100) as usize,
        };
        if len > max {
            let at = plan(rows.len() as u64 + 2) as usize;
            let mut p = page.to_vec();
            let r = self.row(len);
            let done = catch(|| if at > rows.len() { f.append_row(&mut p, &r) } else { f.insert_row(&mut p, at, &r) });
            count("probe.space_excess");
            ensure!(done.is_err(), SPACE_EXCESS, "{} bytes are offered with {} rows, but a row of {} is taken at {}", max, rows.len(), len, at);
            ensure!(p == page, SPACE_EXCESS, "a refused row of {} bytes ({} offered) changed the page", len, max);
        }
    }

    fn intact(&self, page: &[u8], want: &[Vec<u8>], when: &str) {
        match catch(|| read_all(&self.format, page)) {
            Err(e) => fail(SPACE_DAMAGE, format!("{}: the page cannot be read: {}", when, e)),
            Ok(got) => {
                if got != want {
                    let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap_or(0);
                    fail(
                        SPACE_DAMAGE,
                        format!(
                            "{}: {} rows instead of {}, row {} is {} instead of {}",
                            when,
                            got.len(),
                            want.len(),
                            i,
                            got.get(i).map(|r| show(r)).unwrap_or("missing".into()),
                            want.get(i).map(|r| show(r)).unwrap_or("nothing".into())
                        ),
                    )
                }
            }
        }
    }

    // ----------------------------------------------------------- sessions

    fn write_session(&self, p: usize) {
        let (vol, off, ready) = {
            let s = &self.pages.borrow()[p];
            (s.vol, s.off, s.ready)
        };
        let asked = self.tick();
        let init_access = !ready && plan_pct(50);
        simrt::log(|| format!("asks to write page {}", p));
        let fut = async {
            if init_access {
                self.pool.access_initialize(vol, off).await
            } else {
                self.pool.access_read_write(vol, off).await
            }
        };
        let mut h = match self.ask(fut) {
            Some(h) => h,
            None => return,
        };
        let granted = self.tick();
        let page = h.bytes_mut();
        let mut steps = Vec::new();
        if !self.pages.borrow()[p].ready || plan_pct(1) {
            count("op.initialize_page");
            simrt::log(|| format!("initializes page {}", p));
            self.format.initialize_page(page);
            steps.push(Step::Initialize);
            self.pages.borrow_mut()[p].ready = true;
            if self.space {
                ensure!(self.format.num_rows(page) == 0, SPACE_HISTORY, "a new page has {} rows", self.format.num_rows(page));
            }
        }
        if self.size >= 1024 && plan(12) == 1 {
            // more rows than eight bits can count
            for _ in 0..plan_range(250, 280) {
                let r = self.row(plan(3) as usize);
                if !self.fits(page, r.len()) {
                    break;
                }
                self.format.append_row(page, &r);
                steps.push(Step::Append(r));
            }
            count("probe.many_rows");
        }
        let edits = plan_range(0, if plan_pct(20) { 40 } else { 6 });
        let drain = plan_pct(10);
        for _ in 0..edits {
            if simrt::failed() {
                return;
            }
            simrt::preempt("row.edit");
            self.edit(page, drain, &mut steps);
            simrt::event("page", p as u64, steps.len() as u64);
        }
        if self.space && plan_pct(50) {
            self.probe_space(page);
        }
        if drain && plan_pct(70) {
            while self.format.num_rows(page) > 0 {
                let i = plan(self.format.num_rows(page) as u64) as usize;
                self.remove(page, i, &mut steps);
            }
            count("probe.page_emptied");
            if self.space {
                self.probe_space(page);
            }
        }
        if plan_pct(60) {
            steps.push(Step::All(read_all(&self.format, page)));
        }
        simrt::preempt("row.done");
        let released = self.leave(p, asked, granted, steps);
        self.done(async { h.release().await });
        self.pages.borrow_mut()[p].sessions[released].released = self.tick();
    }

    fn leave(&self, p: usize, asked: u64, granted: u64, steps: Vec<Step>) -> usize {
        let mut pages = self.pages.borrow_mut();
        let task = simrt::task_name(simrt::current_task());
        for s in &steps {
            simrt::event("step", p as u64, fp(format!("{:?}", s).as_bytes()));
        }
        if pages[p].sessions.iter().any(|s| s.released == u64::MAX || s.released > asked) {
            count("nontrivial");
            count("probe.overlapping_accesses");
        }
        pages[p].sessions.push(Session { task, asked, granted, released: u64::MAX, steps });
        pages[p].sessions.len() - 1
    }

    fn done(&self, f: impl std::future::Future<Output = ()>) {
        simrt::block_on(f)
    }

    fn remove(&self, page: &mut [u8], i: usize, steps: &mut Vec<Step>) {
        count("op.remove");
        let before = if self.space { read_all(&self.format, page) } else { Vec::new() };
        simrt::log(|| format!("removes row {}", i));
        self.format.remove_row(page, i);
        steps.push(Step::Remove(i));
        if self.space {
            let mut want = before;
            want.remove(i);
            self.intact(page, &want, &format!("after removing row {}", i));
        }
    }

    fn edit(&self, page: &mut [u8], drain: bool, steps: &mut Vec<Step>) {
        let f = &self.format;
        let n = f.num_rows(page);
        let before = if self.space { read_all(f, page) } else { Vec::new() };
        match plan_weighted(if drain { &[1, 1, 6, 1, 0, 0] } else { &[10, 8, 6, 4, 2, 1] }) {
            0 => {
                let max = f.max_insert_row_size(page);
                let r = self.row(self.length(max));
                if self.fits(page, r.len()) {
                    count("op.append");
                    simrt::log(|| format!("appends {}", show(&r)));
                    f.append_row(page, &r);
                    steps.push(Step::Append(r.clone()));
                    if self.space {
                        let mut want = before;
                        want.push(r);
                        self.intact(page, &want, "after appending");
                    }
                } else if self.space {
                    self.refused(page, n, r, max);
                }
            }
            1 => {
                let max = f.max_insert_row_size(page);
                let r = self.row(self.length(max));
                let i = plan(n as u64 + 1) as usize;
                if self.fits(page, r.len()) {
                    count("op.insert");
                    simrt::log(|| format!("inserts {} at {}", show(&r), i));
                    f.insert_row(page, i, &r);
                    steps.push(Step::Insert(i, r.clone()));
                    if self.space {
                        let mut want = before;
                        want.insert(i, r);
                        self.intact(page, &want, &format!("after inserting at {}", i));
                    }
                } else if self.space {
                    self.refused(page, i, r, max);
                }
            }
            2 if n > 0 => {
                let i = plan(n as u64) as usize;
                self.remove(page, i, steps);
            }
            3 => {
                steps.push(Step::Count(n));
                if n > 0 {
                    let i = plan(n as u64) as usize;
                    steps.push(Step::Row(i, f.get_row(page, i).to_vec()));
                }
            }
            4 => {
                if self.space {
                    self.probe_space(page);
                }
            }
            5 => self.no_such_row(page, n),
            _ => {}
        }
    }

    /// A position where there is no row, as a task has it that counted the rows earlier.
    fn no_such_row(&self, page: &mut [u8], n: usize) {
        let f = &self.format;
        let at = match plan(4) {
            0 => n + 1 + plan(400) as usize,
            1 => n + 1,
            _ => n,
        };
        let before = page.to_vec();
        count("op.no_such_row");
        let (what, done) = match plan(3) {
            0 => ("read", catch(|| drop(f.get_row(page, at).to_vec()))),
            1 => ("removed", catch(|| f.remove_row(page, at))),
            _ if at > n && self.fits(page, 1) => ("inserted", catch(|| f.insert_row(page, at, &[1]))),
            _ => return,
        };
        simrt::log(|| format!("row {} of {} {}", at, n, what));
        ensure!(done.is_err(), NO_SUCH_ROW, "row {} of {} was {}", at, n, what);
        ensure!(*page == before[..], NO_SUCH_ROW, "the page changed when row {} of {} was not {}", at, n, what);
    }

    /// A row that is too large must leave no trace.
    fn refused(&self, page: &mut [u8], at: usize, r: Vec<u8>, max: usize) {
        let before = page.to_vec();
        let n = self.format.num_rows(page);
        let done = catch(|| if at == n { self.format.append_row(page, &r) } else { self.format.insert_row(page, at, &r) });
        count("op.refused");
        if r.is_empty() && max == 0 && done.is_ok() {
            // an empty row may still have fitted; it is part of the page now
            let rows = read_all(&self.format, page);
            ensure!(rows.len() == n + 1, SPACE_DAMAGE, "an empty row added to a full page: {} rows instead of {}", rows.len(), n + 1);
            page.copy_from_slice(&before);
            return;
        }
        ensure!(done.is_err(), SPACE_EXCESS, "{} bytes are offered with {} rows, but a row of {} is taken at {}", max, n, r.len(), at);
        ensure!(*page == before[..], SPACE_EXCESS, "a refused row of {} bytes ({} offered) changed the page", r.len(), max);
    }

    fn read_session(&self, p: usize) {
        let (vol, off, ready) = {
            let s = &self.pages.borrow()[p];
            (s.vol, s.off, s.ready)
        };
        if !ready {
            return;
        }
        let asked = self.tick();
        simrt::log(|| format!("asks to read page {}", p));
        let mut h = match self.ask(self.pool.access_read_only(vol, off)) {
            Some(h) => h,
            None => return,
        };
        let granted = self.tick();
        let page = h.bytes();
        count("op.read");
        let mut steps = Vec::new();
        let all = read_all(&self.format, page);
        let whole = page.to_vec();
        simrt::log(|| format!("reads {} rows", all.len()));
        steps.push(Step::All(all.clone()));
        for _ in 0..plan(4) {
            simrt::preempt("row.read");
            if plan_pct(30) {
                simrt::block_on(simrt::sleep(plan_range(1, 30) * 10_000));
            }
            ensure!(page == &whole[..], UNSTABLE, "page {} changes while a task reads it", p);
            let n = self.format.num_rows(page);
            steps.push(Step::Count(n));
            if n > 0 {
                let i = plan(n as u64) as usize;
                steps.push(Step::Row(i, self.format.get_row(page, i).to_vec()));
            }
            if self.space && plan_pct(40) {
                self.probe_space(page);
            }
        }
        let at = self.leave(p, asked, granted, steps);
        self.done(async { h.release().await });
        self.pages.borrow_mut()[p].sessions[at].released = self.tick();
    }

    fn ask<T>(&self, f: impl std::future::Future<Output = T>) -> Option<T> {
        if !self.abandoning || !plan_pct(20) {
            return Some(simrt::block_on(f));
        }
        let mode = match plan(3) {
            0 => Abandon::AtPending(plan_range(1, 3) as u32),
            1 => Abandon::AfterWake(plan_range(1, 2) as u32),
            _ => Abandon::Timeout(plan_range(1, 30) * 10_000),
        };
        match simrt::block_on_or_abandon(f, mode) {
            Ok(Some(h)) => Some(h),
            Ok(None) => {
                count("fault.access_abandoned");
                None
            }
            Err(e) => {
                fail("panic: access", e);
                None
            }
        }
    }

    fn other_session(&self) {
        if self.others.is_empty() {
            return;
        }
        let (vol, off) = self.others[plan(self.others.len() as u64) as usize];
        if let Some(mut h) = self.ask(self.pool.access_read_only(vol, off)) {
            count("op.read_other_page");
            simrt::preempt("other");
            ensure!(h.bytes() == &self.disk.content(vol, off)[..], NEIGHBOUR, "page {}:{:#x} without rows has other bytes", vol, off);
            simrt::block_on(h.release());
        }
    }
}

pub fn page_size(align: usize, thorough: bool) -> usize {
    let sizes: &[usize] = if thorough { &[16, 32, 64, 128, 256, 512, 1024, 4096] } else { &[16, 32, 64, 64, 128, 256, 512, 2048] };
    if plan(250) == 1 {
        // more bytes than sixteen bits can tell
        count("probe.large_page");
        return [65_536, 131_072, 262_144][plan(3) as usize];
    }
    if align > 128 {
        // up to 64 rows
        return align << plan(7);
    }
    loop {
        // the smallest that fits if the choice is too small
        let s = sizes[plan(sizes.len() as u64) as usize].max(align);
        if s % align == 0 {
            return s;
        }
    }
}

/// Any size the alignment divides, for pages outside the page cache.
pub fn odd_page_size(align: usize) -> usize {
    plan_range(1, 300 / align as u64 + 1) as usize * align + if align < 8 { 8 } else { 0 }
}

pub fn alignment() -> usize {
    if plan(60) == 1 {
        // more padding than eight bits can tell
        count("probe.large_alignment");
        return 256 << plan(5);
    }
    1 << plan_weighted(&[4, 3, 5, 6, 4, 2, 1, 1])
}

/// A page with more rows than sixteen bits can count, used by one task.
pub fn many_rows(class: &'static str) {
    count("probe.rows_beyond_sixteen_bits");
    count("nontrivial");
    let align = 1usize << plan(4);
    let size = (600_000 + plan(400_000) as usize) / align * align;
    let f = PageFormat::new(align);
    let mut page: Vec<u8> = (0..size).map(|i| (i as u8).wrapping_mul(17)).collect();
    f.initialize_page(&mut page);
    let mut rows: Vec<Vec<u8>> = Vec::new();
    let n = 65_530 + plan(12) as usize;
    for i in 0..n {
        let r = if plan(100) == 1 { vec![i as u8; plan(4) as usize] } else { Vec::new() };
        f.append_row(&mut page, &r);
        rows.push(r);
    }
    let same = |page: &[u8], rows: &[Vec<u8>], when: &str| -> bool {
        let got = catch(|| {
            if f.num_rows(page) != rows.len() {
                return Some(f.num_rows(page));
            }
            (0..rows.len()).find(|&i| f.get_row(page, i) != &rows[i][..])
        });
        match got {
            Ok(None) => true,
            Ok(Some(i)) if i < rows.len() => {
                fail(class, format!("{} on a page of {} rows: row {} is not {}", when, rows.len(), i, show(&rows[i])));
                false
            }
            Ok(Some(n)) => {
                fail(class, format!("{}: {} rows counted instead of {}", when, n, rows.len()));
                false
            }
            Err(e) => {
                fail(class, format!("{} on a page of {} rows: {}", when, rows.len(), e));
                false
            }
        }
    };
    if !same(&page, &rows, "after filling") {
        return;
    }
    for k in 0..plan_range(1, 4) {
        let r = vec![k as u8 + 1; plan(9) as usize];
        let at = [0, rows.len(), plan(rows.len() as u64) as usize, 65_535.min(rows.len())][plan(4) as usize];
        let what = if plan_pct(60) {
            f.insert_row(&mut page, at, &r);
            rows.insert(at, r);
            "inserting"
        } else {
            let at = at.min(rows.len() - 1);
            f.remove_row(&mut page, at);
            rows.remove(at);
            "removing"
        };
        simrt::event("edit", rows.len() as u64, at as u64);
        if !same(&page, &rows, &format!("after {} at {}", what, at)) {
            return;
        }
    }
    let offered = f.max_insert_row_size(&page);
    simrt::event("space", offered as u64, rows.len() as u64);
    let r = vec![0xee; offered];
    if let Err(e) = catch(|| f.append_row(&mut page, &r)) {
        return fail(SPACE_REFUSED, format!("{} bytes are offered with {} rows, but refused: {}", offered, rows.len(), e));
    }
    rows.push(r);
    same(&page, &rows, "after filling it up");
}

pub fn run(cx: &Cx, space: bool) {
    let align = alignment();
    let size = page_size(align, cx.thorough);
    let n = plan_range(2, 6) as usize;
    let rows = plan_range(1, (n as u64 - 1).min(3)) as usize;
    let disk = Rc::new({
        let mut d = Disk::new(size);
        d.any_location = true;
        d.slow_permille = [0, 150, 500][plan(3) as usize];
        d
    });
    set_device(Some(disk.clone()));
    let pool = match SimPool::new(size, n) {
        Ok(p) => p,
        Err(e) => return fail("panic: pool", format!("a cache with {} buffers cannot be created: {}", n, e)),
    };
    let w = Rc::new(World {
        pool,
        format: PageFormat::new(align),
        align,
        size,
        pages: RefCell::new(
            (0..rows).map(|i| PageState { vol: 1, off: (i * size) as u64, sessions: Vec::new(), ready: false }).collect(),
        ),
        others: (0..plan(4)).map(|i| (2u8, i * size as u64)).collect(),
        disk,
        serial: Cell::new(0),
        clock: Cell::new(0),
        space,
        bias: plan(4),
        abandoning: plan_pct(30),
    });
    simrt::log(|| format!("pages of {} bytes, rows aligned to {}, {} buffers, {} pages with rows", size, align, n, rows));
    let tasks = plan_range(1, if cx.thorough { 6 } else { 5 });
    let max_ops = if cx.thorough { 12 } else { 6 };
    for t in 0..tasks {
        let w = w.clone();
        simrt::spawn(format!("task{}", t), move || {
            for _ in 0..plan_range(1, max_ops) {
                if simrt::failed() {
                    return;
                }
                let p = plan(w.pages.borrow().len() as u64) as usize;
                match plan_weighted(&[6, 4, 1, 1]) {
                    0 => w.write_session(p),
                    1 => w.read_session(p),
                    2 => w.other_session(),
                    _ => simrt::block_on(simrt::sleep(plan_range(1, 40) * 5_000)),
                }
            }
        });
    }
    if !finish_tasks("editing rows") {
        return;
    }
    // what is on the pages in the end
    simrt::set_faults(false);
    {
        let w = w.clone();
        simrt::spawn("reader", move || {
            let n = w.pages.borrow().len();
            for p in 0..n {
                w.read_session(p);
            }
        });
    }
    if !finish_tasks("reading the pages at the end") {
        return;
    }
    for (p, s) in w.pages.borrow().iter().enumerate() {
        if space && s.sessions.iter().any(|s| s.steps.iter().any(|x| matches!(x, Step::Append(_) | Step::Insert(..)))) {
            count("nontrivial");
        }
        match check(s.sessions.clone()) {
            Ok(true) => {}
            Ok(false) => count("probe.other_order_than_grants"),
            Err(e) => return fail(HISTORY, format!("page {} (of {} bytes, rows aligned to {}): {}", p, size, align, e)),
        }
        count("probe.history_checked");
    }
}
