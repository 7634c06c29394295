//! C01..C07: tasks accessing pages of a small page cache over a simulated device.
use super::Cx;
use cathlamet::storage::sim_hooks::{set_device, Device, DeviceFuture, SimPool};
use simrt::rng::mix64;
use simrt::{count, ensure, fail, plan, plan_pct, plan_range, plan_weighted, Abandon, Outcome};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub const ALL_CLASSES: &[&str] = &[
    "wrong-content",
    "lost-change",
    "aliasing",
    "dirty-aliasing",
    "torn",
    "unknown-location",
    "exclusivity",
    "changed-under-reader",
    "changed-under-writer",
    "readers-not-shared",
    "capacity",
    "stuck",
    "no-progress",
    "handle-after-failed-read",
    "unread-bytes-after-failed-read",
];

pub fn device_byte(vol: u8, off: u64, i: usize) -> u8 {
    let h = mix64(off.wrapping_mul(0x1_0001).wrapping_add(vol as u64) ^ ((i as u64 / 8) << 40));
    (h >> (8 * (i % 8))) as u8
}

/// The device behind all volumes.  Content is a fixed pattern per location
/// until somebody writes there.
pub struct Disk {
    pub page_size: usize,
    pub written: RefCell<BTreeMap<(u8, u64), Vec<u8>>>,
    /// locations that tasks ask for; anything else is a mix-up
    pub known: RefCell<BTreeSet<(u8, u64)>>,
    pub zero: bool,
    pub any_location: bool,
    pub slow_permille: u64,
    pub fault_permille: u64,
    /// reads that failed since the last good read, per location
    pub unread: RefCell<BTreeSet<(u8, u64)>>,
    /// how the last read issued by each task ended
    pub last: RefCell<BTreeMap<usize, ((u8, u64), bool)>>,
    pub reads: RefCell<BTreeMap<(u8, u64), u64>>,
    pub failures: Cell<u64>,
    /// reads that failed, per task
    pub failed_by: RefCell<BTreeMap<usize, u64>>,
    /// volumes from here on never fail
    pub healthy_from: u8,
}

impl Disk {
    pub fn new(page_size: usize) -> Disk {
        Disk {
            page_size,
            written: Default::default(),
            known: Default::default(),
            zero: false,
            any_location: false,
            slow_permille: 300,
            fault_permille: 0,
            unread: Default::default(),
            last: Default::default(),
            reads: Default::default(),
            failures: Cell::new(0),
            failed_by: Default::default(),
            healthy_from: 255,
        }
    }
    pub fn content(&self, vol: u8, off: u64) -> Vec<u8> {
        if let Some(d) = self.written.borrow().get(&(vol, off)) {
            return d.clone();
        }
        if self.zero {
            return vec![0; self.page_size];
        }
        (0..self.page_size).map(|i| device_byte(vol, off, i)).collect()
    }
    async fn delay(&self) {
        simrt::preempt("disk");
        match simrt::fault(self.slow_permille, 6) {
            0 => {}
            5 => {
                count("fault.device_stall");
                simrt::sleep(50_000_000).await;
            }
            k => {
                count("fault.device_delay");
                simrt::sleep(10_000 * k * k).await;
            }
        }
    }
}

impl Device for Disk {
    fn read<'a>(&'a self, vol: u8, off: u64, buf: &'a mut [u8]) -> DeviceFuture<'a> {
        Box::pin(async move {
            simrt::log(|| format!("device read of page {}:{:#x} starts", vol, off));
            simrt::event("dev.read", vol as u64, off);
            let me = simrt::current_task();
            if !self.any_location && !self.known.borrow().contains(&(vol, off)) {
                fail("unknown-location", format!("the device is read at {}:{:#x}, a location nobody asked for", vol, off));
            }
            ensure!(buf.len() == self.page_size, "wrong-content", "device read of {} bytes for a page of {}", buf.len(), self.page_size);
            let data = self.content(vol, off);
            self.delay().await;
            let half = buf.len() / 2;
            let f = if vol < self.healthy_from { simrt::fault(self.fault_permille, 5) } else { 0 };
            let bad = |buf: &mut [u8], n: usize, garbage: bool| {
                let _m = simrt::mem::uncounted();
                if garbage {
                    for (i, b) in buf.iter_mut().take(n).enumerate() {
                        *b = 0xE5 ^ i as u8;
                    }
                }
                self.unread.borrow_mut().insert((vol, off));
                self.last.borrow_mut().insert(me, ((vol, off), false));
                self.failures.set(self.failures.get() + 1);
                *self.failed_by.borrow_mut().entry(me).or_insert(0) += 1;
                simrt::log(|| format!("device read of page {}:{:#x} fails", vol, off));
                simrt::event("dev.fail", vol as u64, off);
                Err(match simrt::fault_value(16) {
                    0..=5 => std::io::Error::from_raw_os_error(5),
                    6 => std::io::ErrorKind::UnexpectedEof.into(),
                    7 => std::io::ErrorKind::Interrupted.into(),
                    8 => std::io::ErrorKind::WouldBlock.into(),
                    9 => std::io::ErrorKind::TimedOut.into(),
                    10 => std::io::ErrorKind::NotFound.into(),
                    11 => std::io::ErrorKind::InvalidData.into(),
                    12 => std::io::Error::new(std::io::ErrorKind::Other, "the device is gone"),
                    // ENXIO, EREMOTEIO and friends
                    k => std::io::Error::from_raw_os_error([6, 121, 61][k as usize - 13]),
                })
            };
            if f == 1 {
                count("fault.read_error");
                return bad(buf, 0, false);
            }
            buf[..half].copy_from_slice(&data[..half]);
            if f == 2 {
                count("fault.read_error_after_half");
                return bad(buf, 0, false);
            }
            self.delay().await;
            if f == 3 {
                count("fault.read_error_with_garbage");
                let n = buf.len();
                return bad(buf, n, true);
            }
            buf[half..].copy_from_slice(&data[half..]);
            if f == 4 {
                // everything arrived, the error came at the very end
                count("fault.read_error_at_end");
                return bad(buf, 0, false);
            }
            let n = {
                let _m = simrt::mem::uncounted();
                self.unread.borrow_mut().remove(&(vol, off));
                self.last.borrow_mut().insert(me, ((vol, off), true));
                let mut r = self.reads.borrow_mut();
                let n = r.entry((vol, off)).or_insert(0);
                *n += 1;
                *n
            };
            if n > 1 {
                count("probe.page_loaded_again");
            }
            simrt::log(|| format!("device read of page {}:{:#x} done", vol, off));
            simrt::preempt("disk.done");
            Ok(())
        })
    }
    fn write<'a>(&'a self, vol: u8, off: u64, buf: &'a [u8]) -> DeviceFuture<'a> {
        Box::pin(async move {
            self.delay().await;
            self.written.borrow_mut().insert((vol, off), buf.to_vec());
            count("seam.device_write");
            Ok(())
        })
    }
}

struct Page {
    vol: u8,
    off: u64,
    content: Vec<u8>,
    dirty: bool,
    readers: u32,
    writer: bool,
    range: (usize, usize),
    /// an access to this page was given up or failed at some time
    disturbed: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Read,
    Write,
    Init,
}

struct Gate {
    arrived: Cell<u32>,
    need: u32,
    wakers: RefCell<Vec<Waker>>,
}
struct Pass(Rc<Gate>);
impl Future for Pass {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0.arrived.get() >= self.0.need {
            Poll::Ready(())
        } else {
            self.0.wakers.borrow_mut().push(cx.waker().clone());
            simrt::waiting_for("the other readers");
            Poll::Pending
        }
    }
}

struct World {
    pool: SimPool,
    disk: Rc<Disk>,
    size: usize,
    n: usize,
    pages: RefCell<Vec<Page>>,
    writable: Vec<usize>,
    versions: Cell<u64>,
    waiting: Cell<u32>,
    holding: Cell<u32>,
    multi_token: Cell<bool>,
    faulty: bool,
    dropping: bool,
    abandoned: Cell<u64>,
    last_grants: Cell<u64>,
    /// tasks that wait for a page to initialize; true once the page is known to be in the
    /// cache until they get it, because they waited for its lock while it was held
    initializing: RefCell<BTreeMap<usize, (usize, bool)>>,
}

enum Handle<'a> {
    R(cathlamet::storage::sim_hooks::SimRead<'a>),
    W(cathlamet::storage::sim_hooks::SimWrite<'a>),
}

impl Handle<'_> {
    fn bytes(&self) -> &[u8] {
        match self {
            Handle::R(h) => h.bytes(),
            Handle::W(h) => h.bytes(),
        }
    }
}

fn show(b: &[u8]) -> String {
    b.iter().take(8).map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("")
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at byte {}: {} instead of {}", i, show(&a[i..]), show(&b[i..])),
        None => format!("lengths {} and {}", a.len(), b.len()),
    }
}

impl World {
    fn name(&self, p: usize) -> String {
        let pages = self.pages.borrow();
        format!("{}:{:#x}", pages[p].vol, pages[p].off)
    }

    /// Ask for a page; None when the access failed or was abandoned.
    fn access(&self, p: usize, kind: Kind, mode: Abandon) -> Option<Handle<'_>> {
        let (vol, off) = {
            let pages = self.pages.borrow();
            (pages[p].vol, pages[p].off)
        };
        count(match kind {
            Kind::Read => "op.read",
            Kind::Write => "op.write",
            Kind::Init => "op.initialize",
        });
        simrt::log(|| format!("{:?} access to page {}:{:#x}", kind, vol, off));
        simrt::event("access", p as u64, kind as u64);
        let me = simrt::current_task();
        self.disk.last.borrow_mut().remove(&me);
        if self.waiting.get() + self.holding.get() > 0 {
            count("nontrivial.overlap");
        }
        self.waiting.set(self.waiting.get() + 1);
        if kind == Kind::Init {
            self.initializing.borrow_mut().insert(me, (p, false));
        }
        let fut = async {
            match kind {
                Kind::Read => Handle::R(self.pool.access_read_only(vol, off).await),
                Kind::Write => Handle::W(self.pool.access_read_write(vol, off).await),
                Kind::Init => Handle::W(self.pool.access_initialize(vol, off).await),
            }
        };
        let r = if self.faulty || mode != Abandon::Never {
            simrt::block_on_or_abandon(fut, mode)
        } else {
            Ok(Some(simrt::block_on(fut)))
        };
        self.waiting.set(self.waiting.get() - 1);
        let kept = self.initializing.borrow_mut().remove(&me).map_or(false, |x| x.1);
        let failed = self.disk.last.borrow().get(&me).map_or(false, |l| !l.1);
        match r {
            Err(e) => {
                self.pages.borrow_mut()[p].disturbed = true;
                if !failed {
                    fail("panic: access", format!("the access to page {}:{:#x} panicked although no read failed: {}", vol, off, e));
                }
                count("probe.access_failed");
                simrt::log(|| format!("access to page {}:{:#x} failed: {}", vol, off, e));
                simrt::event("failed", p as u64, 0);
                None
            }
            Ok(None) => {
                self.pages.borrow_mut()[p].disturbed = true;
                self.abandoned.set(self.abandoned.get() + 1);
                count("fault.access_abandoned");
                simrt::log(|| format!("access to page {}:{:#x} abandoned", vol, off));
                simrt::event("abandoned", p as u64, 0);
                None
            }
            Ok(Some(h)) => {
                if failed {
                    fail(
                        "handle-after-failed-read",
                        format!("a handle for page {}:{:#x} was granted although the device read failed", vol, off),
                    );
                }
                self.granted(p, kind, &h, kept);
                Some(h)
            }
        }
    }

    fn granted(&self, p: usize, kind: Kind, h: &Handle, kept: bool) {
        let bytes = h.bytes();
        simrt::event("granted", p as u64, mix64(bytes.iter().fold(7u64, |a, b| a.wrapping_mul(31) + *b as u64)));
        simrt::log(|| format!("{:?} handle granted: {}", kind, show(bytes)));
        self.last_grants.set(self.last_grants.get() + 1);
        let mut pages = self.pages.borrow_mut();
        let name = format!("{}:{:#x}", pages[p].vol, pages[p].off);
        if bytes.len() != self.size {
            fail("wrong-content", format!("handle of page {} shows {} bytes, page size is {}", name, bytes.len(), self.size));
        }
        let range = (bytes.as_ptr() as usize, bytes.as_ptr() as usize + bytes.len());
        // exclusivity
        let (readers, writer) = (pages[p].readers, pages[p].writer);
        if writer || (kind != Kind::Read && readers > 0) {
            fail(
                "exclusivity",
                format!("{:?} handle for page {} granted while {} is held", kind, name, if writer { "a write handle" } else { "a read handle" }),
            );
        }
        // memory of other pages in use
        for (q, o) in pages.iter().enumerate() {
            if q != p && (o.readers > 0 || o.writer) && range.0 < o.range.1 && o.range.0 < range.1 {
                let class = if o.dirty || pages[p].dirty { "dirty-aliasing" } else { "aliasing" };
                fail(class, format!("pages {} and {}:{:#x} are held at the same time in the same memory", name, o.vol, o.off));
            }
        }
        if kept {
            count("probe.initialized_while_cached");
        }
        if kind == Kind::Init && !pages[p].dirty && !kept && bytes.iter().all(|b| *b == 0) {
            pages[p].content = vec![0; self.size];
            self.disk.unread.borrow_mut().remove(&(pages[p].vol, pages[p].off));
        } else {
            if self.disk.unread.borrow().contains(&(pages[p].vol, pages[p].off)) && !pages[p].dirty {
                fail(
                    "unread-bytes-after-failed-read",
                    format!("{:?} handle for page {} granted, but the last device read of it failed", kind, name),
                );
            }
            if bytes != &pages[p].content[..] {
                let class = if pages[p].dirty { "lost-change" } else { "wrong-content" };
                fail(class, format!("{:?} handle for page {} (changed earlier: {}): {}", kind, name, pages[p].dirty, first_diff(bytes, &pages[p].content)));
            }
        }
        if kind == Kind::Read {
            pages[p].readers += 1;
            if pages[p].readers > 1 {
                count("probe.shared_read");
            }
        } else {
            pages[p].writer = true;
            if !pages[p].dirty {
                pages[p].dirty = true;
                count("probe.page_made_dirty");
            }
        }
        pages[p].range = range;
        self.holding.set(self.holding.get() + 1);
    }

    fn verify(&self, p: usize, h: &Handle) {
        let pages = self.pages.borrow();
        if h.bytes() != &pages[p].content[..] {
            let class = match h {
                Handle::R(_) => "changed-under-reader",
                Handle::W(_) => "changed-under-writer",
            };
            let d = first_diff(h.bytes(), &pages[p].content);
            drop(pages);
            fail(class, format!("page {} changed while its handle was held: {}", self.name(p), d));
        }
    }

    fn write(&self, p: usize, h: &mut Handle, from: usize, to: usize, v: u64) {
        if let Handle::W(w) = h {
            let b = w.bytes_mut();
            let mut pages = self.pages.borrow_mut();
            for i in from..to {
                let x = (mix64(v ^ ((i as u64) << 32)) >> 13) as u8;
                b[i] = x;
                pages[p].content[i] = x;
            }
            simrt::event("write", p as u64, v);
        }
    }

    fn release(&self, p: usize, h: Handle) {
        self.verify(p, &h);
        for (task, x) in self.initializing.borrow_mut().iter_mut() {
            if x.0 == p && simrt::blocked_on(*task).map_or(false, |l| l.starts_with("a write lock")) {
                x.1 = true;
            }
        }
        {
            let mut pages = self.pages.borrow_mut();
            match &h {
                Handle::R(_) => pages[p].readers -= 1,
                Handle::W(_) => pages[p].writer = false,
            }
        }
        self.holding.set(self.holding.get() - 1);
        if self.dropping {
            match plan(6) {
                0 | 1 => {}
                2 | 3 => return self.drop_handle(p, h),
                k => {
                    let mode = match plan(4) {
                        0 => Abandon::AfterWake(plan_range(1, 2) as u32),
                        1 => Abandon::Timeout(plan_range(1, 4) * 10_000),
                        _ => Abandon::AtPending(plan_range(1, 2) as u32),
                    };
                    return self.abandon_release(p, h, mode, k == 5);
                }
            }
        }
        simrt::log(|| format!("release page {}", self.name(p)));
        match h {
            Handle::R(mut h) => simrt::block_on(h.release()),
            Handle::W(mut h) => simrt::block_on(h.release()),
        }
        simrt::event("released", p as u64, 0);
    }

    /// whoever uses the handle is cancelled, or stops with a panic
    fn drop_handle(&self, p: usize, h: Handle) {
        self.pages.borrow_mut()[p].disturbed = true;
        self.abandoned.set(self.abandoned.get() + 1);
        if plan_pct(40) {
            simrt::log(|| format!("panics while holding page {}", self.name(p)));
            count("fault.panic_while_holding");
            let r = simrt::catch(move || {
                let _h = h;
                panic!("the user of a page gives up");
            });
            ensure!(
                matches!(&r, Err(m) if m.contains("the user of a page gives up")),
                "panic: release",
                "a panic while a handle was held ended as {:?}",
                r
            );
        } else {
            simrt::log(|| format!("drops the handle of page {}", self.name(p)));
            count("fault.handle_dropped");
            drop(h);
        }
        simrt::event("dropped", p as u64, 0);
    }

    /// the release itself is abandoned; then it is repeated or the handle dropped
    fn abandon_release(&self, p: usize, mut h: Handle, mode: Abandon, again: bool) {
        let r = match &mut h {
            Handle::R(h) => simrt::block_on_or_abandon(h.release(), mode),
            Handle::W(h) => simrt::block_on_or_abandon(h.release(), mode),
        };
        match r {
            Err(e) => fail("panic: release", format!("releasing page {} panicked: {}", self.name(p), e)),
            Ok(Some(())) => {
                simrt::log(|| format!("released page {}", self.name(p)));
            }
            Ok(None) => {
                self.pages.borrow_mut()[p].disturbed = true;
                self.abandoned.set(self.abandoned.get() + 1);
                count("fault.release_abandoned");
                simrt::log(|| format!("release of page {} abandoned", self.name(p)));
                simrt::preempt("user");
                if again {
                    match &mut h {
                        Handle::R(h) => simrt::block_on(h.release()),
                        Handle::W(h) => simrt::block_on(h.release()),
                    }
                }
            }
        }
        drop(h);
        simrt::event("released", p as u64, 1);
    }

    /// hold for a while, with changes if it is a write handle
    fn use_handle(&self, p: usize, h: &mut Handle) {
        if let Handle::W(_) = h {
            let v = {
                self.versions.set(self.versions.get() + 1);
                self.versions.get() * 0x9E37 + simrt::current_task() as u64
            };
            let n = self.size;
            match plan(4) {
                0 => {}
                1 => {
                    let a = plan(n as u64) as usize;
                    let b = a + 1 + plan((n - a) as u64) as usize;
                    self.pause();
                    self.verify(p, h);
                    self.write(p, h, a, b.min(n), v);
                }
                _ => {
                    self.write(p, h, 0, n / 2, v);
                    self.pause();
                    self.verify(p, h);
                    self.write(p, h, n / 2, n, v);
                }
            }
        }
        self.pause();
    }

    fn pause(&self) {
        match plan(5) {
            0 => {}
            1 => simrt::preempt("user"),
            2 => {
                for _ in 0..plan_range(1, 4) {
                    simrt::yield_now();
                }
            }
            3 => simrt::block_on(simrt::sleep(plan_range(1, 40) * 5_000)),
            _ => {
                simrt::preempt("user");
                simrt::preempt("user");
            }
        }
    }

    fn dirty_count(&self) -> usize {
        self.pages.borrow().iter().filter(|p| p.dirty).count()
    }
}

fn abandon_mode() -> Abandon {
    match plan(4) {
        0 => Abandon::AtPending(plan_range(1, 3) as u32),
        1 => Abandon::AfterWake(plan_range(1, 3) as u32),
        2 => Abandon::Timeout(plan_range(1, 30) * 10_000),
        _ => Abandon::AtPending(plan_range(1, 8) as u32),
    }
}

pub fn run(cx: &Cx) {
    // each of these has a property of its own, and there they are also mixed
    let main = ["C07", "C06", "C31"].iter().position(|p| *p == cx.property);
    let mixed = |k: usize| main == Some(k) || main.is_some() && plan(12) == 1;
    let (abandoning, failing, dropping) = (mixed(0), mixed(1), mixed(2));
    if [abandoning, failing, dropping].iter().filter(|x| **x).count() > 1 {
        count("probe.faults_mixed");
    }
    if (cx.property == "C01" || cx.property == "C04") && plan(5000) == 1 {
        return vast();
    }
    if ["C01", "C02", "C03", "C04", "C05"].contains(&cx.property) {
        match plan(10_000) {
            1..=40 => return multitude(cx, plan_range(120, 600) as usize),
            41 | 42 => return multitude(cx, plan_range(65_530, 65_800) as usize),
            _ => {}
        }
    }
    let crowded = plan(500) == 1;
    let n = if crowded {
        // more buffers than eight bits can count
        count("probe.crowded_cache");
        plan_range(250, 300) as usize
    } else if cx.thorough && plan_pct(10) {
        plan_range(8, 24) as usize
    } else {
        1 + plan_weighted(&[12, 25, 22, 14, 9, 8, 5, 5])
    };
    let size = if !crowded && plan(100) == 1 {
        count("probe.large_pages");
        1024usize << plan(9)
    } else {
        8usize << plan(7)
    };
    let p = if crowded {
        plan_range(1, 12)
    } else if plan_pct(25) { plan_range(1, n as u64) } else { plan_range(n as u64 + 1, 2 * n as u64 + 3) } as usize;
    let max_w = if p <= n { p } else { n - 1 };
    let nw = plan(max_w as u64 + 1) as usize;

    // locations
    let base = plan(256) as u8;
    let vols: Vec<u8> = match plan(4) {
        0 => vec![0],
        1 => vec![0, 1],
        2 => vec![base, base ^ 1 << plan(8)],
        _ => vec![0, 255, 7],
    };
    // locations that differ in one bit only
    let bit = plan_range(size.trailing_zeros() as u64, 55);
    let mut pages: Vec<Page> = Vec::new();
    let disk = Rc::new({
        let mut d = Disk::new(size);
        d.slow_permille = [0, 150, 500][plan(3) as usize];
        if failing {
            d.fault_permille = [60, 200, 500][plan(3) as usize];
        }
        d
    });
    let mut tries = 0u64;
    while pages.len() < p {
        tries += 1;
        let vol = vols[plan(vols.len() as u64) as usize];
        let k = plan(p as u64) + if tries > 4 * p as u64 { tries } else { 0 };
        let off = match plan(6) {
            0 => (1u64 << 56) - size as u64 * (1 + k),
            1 => (1u64 << 32) + size as u64 * k,
            2 => (1u64 << bit) ^ (size as u64 * k),
            _ => size as u64 * k,
        };
        if pages.iter().any(|q| (q.vol, q.off) == (vol, off)) {
            continue;
        }
        let content = disk.content(vol, off);
        disk.known.borrow_mut().insert((vol, off));
        pages.push(Page { vol, off, content, dirty: false, readers: 0, writer: false, range: (0, 0), disturbed: false });
    }
    let mut writable: Vec<usize> = (0..p).collect();
    while writable.len() > nw {
        let i = plan(writable.len() as u64) as usize;
        writable.remove(i);
    }
    set_device(Some(disk.clone()));
    simrt::log(|| format!("{} buffers of {} bytes, {} pages, {} of them writable", n, size, p, nw));
    let pool = match SimPool::new(size, n) {
        Ok(p) => p,
        Err(e) => return fail("capacity", format!("a cache with {} buffers cannot be created: {}", n, e)),
    };
    ensure!(pool.total_size() == n * size, "capacity", "total size {} for {} buffers of {}", pool.total_size(), n, size);
    let w = Rc::new(World {
        pool,
        disk: disk.clone(),
        size,
        n,
        pages: RefCell::new(pages),
        writable,
        versions: Cell::new(0),
        waiting: Cell::new(0),
        holding: Cell::new(0),
        multi_token: Cell::new(false),
        faulty: failing,
        dropping,
        abandoned: Cell::new(0),
        last_grants: Cell::new(0),
        initializing: Default::default(),
    });

    let rounds = if plan_pct(15) { 2 } else { 1 };
    for round in 0..rounds {
        simrt::set_faults(true);
        if !main_phase(cx, &w, p, abandoning, failing) {
            return;
        }
        simrt::set_faults(false);
        if !final_phase(&w, round) {
            return;
        }
    }
    if main == Some(1) {
        if simrt::counter("probe.access_failed") > 0 {
            count("nontrivial");
        }
    } else if main.is_some() {
        if w.abandoned.get() > 0 {
            count("nontrivial");
        }
    } else if simrt::counter("nontrivial.overlap") > 0 || simrt::counter("probe.page_loaded_again") > 0 {
        count("nontrivial");
    }
}

/// A device whose pages have content at both ends only.
struct Sparse;
fn ends(vol: u8, off: u64) -> ([u8; 4], [u8; 4]) {
    let h = mix64(off ^ (vol as u64) << 56).to_le_bytes();
    ([h[0], h[1], h[2], h[3]], [h[4], h[5], h[6], h[7]])
}
impl Device for Sparse {
    fn read<'a>(&'a self, vol: u8, off: u64, buf: &'a mut [u8]) -> DeviceFuture<'a> {
        let (a, b) = ends(vol, off);
        let n = buf.len();
        buf[..4].copy_from_slice(&a);
        buf[n - 4..].copy_from_slice(&b);
        Box::pin(async { Ok(()) })
    }
    fn write<'a>(&'a self, _: u8, _: u64, _: &'a [u8]) -> DeviceFuture<'a> {
        Box::pin(async { Ok(()) })
    }
}

/// More buffers than sixteen bits can number, or more memory than 32 bits can
/// address: every buffer is held at once, twice.
fn vast() {
    let (n, size) = if plan(3) == 0 { (plan_range(1025, 1040) as usize, 4usize << 20) } else { (plan_range(65_530, 65_600) as usize, 8usize) };
    set_device(Some(Rc::new(Sparse)));
    simrt::allow_steps(10);
    let pool = match SimPool::new(size, n) {
        Ok(p) => Rc::new(p),
        Err(_) if size > 8 => return count("probe.vast_cache_refused"),
        Err(e) => return fail("capacity", format!("a cache with {} buffers cannot be created: {}", n, e)),
    };
    simrt::log(|| format!("{} buffers of {} bytes", n, size));
    ensure!(pool.total_size() == n * size, "capacity", "total size {} for {} buffers of {}", pool.total_size(), n, size);
    count("probe.vast_cache");
    let held = Rc::new(Cell::new(0usize));
    {
        let (pool, held) = (pool.clone(), held.clone());
        simrt::spawn("holder", move || {
            for round in 0..2u64 {
                let mut hs = Vec::with_capacity(n);
                let mut at = Vec::with_capacity(n);
                for i in 0..n as u64 {
                    // half of the pages are the same again
                    let off = (i + round * n as u64 / 2) * size as u64;
                    let h = simrt::block_on(pool.access_read_only(5, off));
                    at.push(h.bytes().as_ptr() as usize);
                    hs.push((off, h));
                    held.set(held.get() + 1);
                }
                at.sort();
                ensure!(at.windows(2).all(|w| w[1] - w[0] >= size), "aliasing", "two of {} pages held at once share memory", n);
                for (off, h) in hs.iter() {
                    let (a, b) = ends(5, *off);
                    let bytes = h.bytes();
                    ensure!(
                        bytes.len() == size && bytes[..4] == a && bytes[size - 4..] == b,
                        "wrong-content",
                        "page 5:{:#x}, one of {} held at once, has other bytes",
                        off,
                        n
                    );
                }
                for (_, mut h) in hs {
                    simrt::block_on(h.release());
                }
                held.set(0);
            }
            count("probe.all_buffers_held");
            count("nontrivial");
        });
    }
    if let Outcome::Stuck(s) = simrt::run_tasks() {
        fail("capacity", format!("only {} pages can be held at once in a cache of {} buffers ({})", held.get(), n, describe(&s)));
    }
}

/// One page is held by very many handles at once, while other pages come and go.
fn multitude(cx: &Cx, k: usize) {
    let n = plan_range(1, 3) as usize;
    let size = 8usize << plan(5);
    set_device(Some(Rc::new(Sparse)));
    simrt::allow_steps(20);
    let pool = match SimPool::new(size, n) {
        Ok(p) => Rc::new(p),
        Err(e) => return fail("capacity", format!("a cache with {} buffers cannot be created: {}", n, e)),
    };
    simrt::log(|| format!("{} buffers of {} bytes, {} handles of one page", n, size, k));
    let changed = n > 1 && plan_pct(40);
    let held = Rc::new(Cell::new(0usize));
    let off = plan(1000) * size as u64;
    let shows = move |bytes: &[u8], vol: u8, off: u64, mark: bool| {
        let (mut a, b) = ends(vol, off);
        if mark {
            a = [0xAB; 4];
        }
        bytes.len() == size && bytes[..4] == a && bytes[size - 4..] == b
    };
    {
        let (pool, held) = (pool.clone(), held.clone());
        simrt::spawn("holder", move || {
            if changed {
                let mut h = simrt::block_on(pool.access_read_write(4, off));
                h.bytes_mut()[..4].copy_from_slice(&[0xAB; 4]);
                simrt::block_on(h.release());
            }
            let wrong = if changed { "lost-change" } else { "wrong-content" };
            let mut hs = Vec::with_capacity(k);
            for i in 0..k {
                hs.push(simrt::block_on(pool.access_read_only(4, off)));
                held.set(i + 1);
            }
            ensure!(shows(hs[k - 1].bytes(), 4, off, changed), wrong, "the last of {} handles of a page shows other bytes", k);
            count("probe.very_many_readers");
            // let go of all but the one that stays, in some order
            let stay = hs.swap_remove(plan(k as u64) as usize);
            if plan_pct(50) {
                hs.reverse();
            }
            for mut h in hs {
                simrt::block_on(h.release());
            }
            held.set(1);
            for i in 0..3 * n as u64 {
                if n > 1 {
                    let o = i * size as u64;
                    let mut h = simrt::block_on(pool.access_read_only(6, o));
                    ensure!(shows(h.bytes(), 6, o, false), "wrong-content", "page 6:{:#x} has other bytes after another had {} handles", o, k);
                    simrt::block_on(h.release());
                }
            }
            ensure!(shows(stay.bytes(), 4, off, changed), wrong, "a page that is still held shows other bytes after {} handles were released", k - 1);
            let mut stay = stay;
            simrt::block_on(stay.release());
            held.set(0);
            // nothing is in use any more
            let room = n - changed as usize;
            let mut hs = Vec::new();
            for i in 0..room as u64 {
                let o = (100 + i) * size as u64;
                hs.push((o, simrt::block_on(pool.access_read_only(6, o))));
            }
            for (o, h) in hs.iter() {
                ensure!(shows(h.bytes(), 6, *o, false), "wrong-content", "page 6:{:#x} has other bytes", o);
            }
            for (_, mut h) in hs {
                simrt::block_on(h.release());
            }
            let mut h = simrt::block_on(pool.access_read_only(4, off));
            ensure!(shows(h.bytes(), 4, off, changed), wrong, "a page that had {} handles shows other bytes later", k);
            simrt::block_on(h.release());
            count("nontrivial");
        });
    }
    if let Outcome::Stuck(s) = simrt::run_tasks() {
        let class = match cx.property {
            "C02" => "readers-not-shared",
            "C04" => "capacity",
            _ => "stuck",
        };
        fail(class, format!("with {} of {} handles of one page in use, an access waits for ever: {}", held.get(), k, describe(&s)));
    }
}

fn main_phase(cx: &Cx, w: &Rc<World>, p: usize, abandoning: bool, failing: bool) -> bool {
    let mut tasks = plan_range(1, if cx.thorough { 8 } else { 6 }).max(plan_range(1, 3));
    let hot = plan_pct(40);
    let mut max_ops = if cx.thorough { 24 } else { 12 };
    if plan(150) == 1 {
        count("probe.many_tasks");
        tasks = plan_range(12, 40);
        max_ops = 3;
    }
    for t in 0..tasks {
        let w = w.clone();
        simrt::spawn(format!("task{}", t), move || {
            let ops = plan_range(1, max_ops);
            for _ in 0..ops {
                if simrt::failed() {
                    return;
                }
                step(&w, p, hot, abandoning);
            }
        });
    }
    // readers that meet while all hold the same page
    let clean: Vec<usize> = (0..p).filter(|q| !w.writable.contains(q)).collect();
    let mut gate = None;
    if !abandoning && !failing && !clean.is_empty() && plan_pct(25) {
        let page = clean[plan(clean.len() as u64) as usize];
        let k = plan_range(2, 4) as u32;
        let g = Rc::new(Gate { arrived: Cell::new(0), need: k, wakers: RefCell::new(Vec::new()) });
        gate = Some((g.clone(), page));
        for i in 0..k {
            let (w, g) = (w.clone(), g.clone());
            simrt::spawn(format!("reader{}", i), move || {
                w.pause();
                if let Some(h) = w.access(page, Kind::Read, Abandon::Never) {
                    g.arrived.set(g.arrived.get() + 1);
                    for k in g.wakers.borrow_mut().drain(..) {
                        k.wake();
                    }
                    simrt::block_on(Pass(g.clone()));
                    w.release(page, h);
                    count("probe.readers_met");
                }
            });
        }
    }
    match simrt::run_tasks() {
        Outcome::Done => true,
        Outcome::Halted => false,
        Outcome::Stuck(s) => {
            if let Some((g, page)) = gate {
                if g.arrived.get() > 0 && g.arrived.get() < g.need {
                    fail(
                        "readers-not-shared",
                        format!(
                            "{} of {} readers of page {} hold it, and the others wait for ever: {}",
                            g.arrived.get(),
                            g.need,
                            w.name(page),
                            describe(&s)
                        ),
                    );
                    return false;
                }
            }
            let d = w.dirty_count();
            fail(
                "stuck",
                format!("every holder released, {} of {} buffers hold unwritten changes, but these wait for ever: {}", d, w.n, describe(&s)),
            );
            false
        }
    }
}

fn describe(s: &[(usize, &'static str)]) -> String {
    s.iter().map(|(t, l)| format!("{} (waits for {})", simrt::task_name(*t), l)).collect::<Vec<_>>().join(", ")
}

fn step(w: &World, p: usize, hot: bool, abandoning: bool) {
    let pick = |hot: bool| if hot && plan_pct(60) { plan(2.min(p as u64)) as usize } else { plan(p as u64) as usize };
    let kind_for = |q: usize, want: u64| {
        if w.writable.contains(&q) {
            match want {
                0..=1 => Kind::Read,
                2..=4 => Kind::Write,
                _ => Kind::Init,
            }
        } else {
            Kind::Read
        }
    };
    let mode = || if abandoning && plan_pct(35) { abandon_mode() } else { Abandon::Never };
    match plan_weighted(&[70, 12, 8, 10]) {
        0 => {
            let q = pick(hot);
            let k = kind_for(q, plan(6));
            if let Some(mut h) = w.access(q, k, mode()) {
                w.use_handle(q, &mut h);
                w.release(q, h);
            }
        }
        1 => {
            // several pages at once; one such task at a time
            let room = w.n - w.writable.len().min(w.n - 1);
            let k = plan_range(1, room.min(p) as u64) as usize;
            if w.multi_token.replace(true) {
                return;
            }
            let mut qs: Vec<usize> = Vec::new();
            for _ in 0..k {
                let q = plan(p as u64) as usize;
                if !qs.contains(&q) {
                    qs.push(q);
                }
            }
            qs.sort();
            count("op.hold_several");
            let mut hs = Vec::new();
            for q in qs {
                let k = kind_for(q, plan(6));
                if let Some(h) = w.access(q, k, mode()) {
                    hs.push((q, h));
                }
            }
            for (q, h) in hs.iter_mut() {
                w.use_handle(*q, h);
            }
            while !hs.is_empty() {
                let i = plan(hs.len() as u64) as usize;
                let (q, h) = hs.remove(i);
                w.release(q, h);
            }
            w.multi_token.set(false);
        }
        2 => w.pause(),
        _ => {
            // the same page again and again
            let q = pick(hot);
            for _ in 0..plan_range(2, 3) {
                let k = kind_for(q, plan(6));
                if let Some(mut h) = w.access(q, k, mode()) {
                    w.use_handle(q, &mut h);
                    w.release(q, h);
                }
            }
        }
    }
}

/// Afterwards, with no faults: all buffers must be usable at once and every
/// page must have its content.
fn final_phase(w: &Rc<World>, round: u64) -> bool {
    let d = w.dirty_count();
    let clean_old: Vec<usize> = {
        let pages = w.pages.borrow();
        (0..pages.len()).filter(|&i| !pages[i].dirty).collect()
    };
    let mut hold: Vec<usize> = {
        let pages = w.pages.borrow();
        (0..pages.len()).filter(|&i| pages[i].dirty).collect()
    };
    let mut clean: Vec<usize> = Vec::new();
    for &c in &clean_old {
        if clean.len() + d < w.n && plan_pct(50) {
            clean.push(c);
        }
    }
    let mut i = 0;
    while clean.len() + d < w.n {
        let off = (1u64 << 40) + ((round * 1000 + i) * w.size as u64);
        i += 1;
        if !w.disk.known.borrow_mut().insert((3, off)) {
            continue;
        }
        let content = w.disk.content(3, off);
        let mut pages = w.pages.borrow_mut();
        pages.push(Page { vol: 3, off, content, dirty: false, readers: 0, writer: false, range: (0, 0), disturbed: false });
        clean.push(pages.len() - 1);
    }
    // in any order
    hold.append(&mut clean);
    for i in (1..hold.len()).rev() {
        let j = i - plan(i as u64 + 1) as usize;
        hold.swap(i, j);
    }
    let got = Rc::new(Cell::new(0usize));
    let want = hold.len();
    {
        let (w, got) = (w.clone(), got.clone());
        simrt::spawn("final", move || {
            let mut hs = Vec::new();
            for q in hold {
                if let Some(h) = w.access(q, Kind::Read, Abandon::Never) {
                    hs.push((q, h));
                    got.set(got.get() + 1);
                } else {
                    fail("handle-after-failed-read", "an access failed although the device works again".to_string());
                }
            }
            count("probe.all_buffers_held");
            for (q, h) in hs.iter() {
                w.verify(*q, h);
            }
            for (q, h) in hs {
                w.release(q, h);
            }
            // and every page once more, one by one
            let n = w.pages.borrow().len();
            let start = plan(n as u64) as usize;
            for k in 0..n {
                let q = (start + k) % n;
                if w.dirty_count() == w.n && !w.pages.borrow()[q].dirty {
                    continue;
                }
                if let Some(h) = w.access(q, Kind::Read, Abandon::Never) {
                    w.release(q, h);
                }
            }
        });
    }
    match simrt::run_tasks() {
        Outcome::Done => true,
        Outcome::Halted => false,
        Outcome::Stuck(s) => {
            if got.get() < want {
                fail(
                    "capacity",
                    format!(
                        "only {} pages can be held at once in a cache of {} buffers, {} of them with unwritten changes ({})",
                        got.get(),
                        w.n,
                        d,
                        describe(&s)
                    ),
                );
            } else {
                fail("capacity", format!("after all pages were released again, an access waits for ever: {}", describe(&s)));
            }
            false
        }
    }
}
