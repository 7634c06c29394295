//! C30: the memory a page cache holds does not depend on how many accesses it
//! has served, whether they were completed, failed or were abandoned.
use super::pool::Disk;
use super::Cx;
use cathlamet::storage::sim_hooks::{set_device, SimPool};
use simrt::{count, count_n, fail, mem, plan, plan_pct, plan_range, Abandon, Outcome};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub const GROWTH: &str = "memory-growth";
pub const STUCK: &str = "stuck";

const WARM_UP: u64 = 4;

struct World {
    pool: SimPool,
    pages: Vec<(u8, u64)>,
    writable: usize,
    hot: usize,
    abandon_pct: u64,
    write_pct: u64,
    accesses: Cell<u64>,
    given_up: Cell<u64>,
}

pub fn run(cx: &Cx) {
    let n = match plan(6) {
        0 => 1,
        1..=3 => plan_range(2, 4),
        _ => plan_range(4, 12),
    } as usize;
    let size = 8usize << plan(5);
    let p = plan_range(n as u64 + 1, 3 * n as u64 + 2) as usize;
    let writable = plan(n as u64) as usize;
    let mut d = Disk::new(size);
    d.any_location = true;
    d.slow_permille = [0, 100, 300][plan(3) as usize];
    d.fault_permille = [0, 0, 100, 400][plan(4) as usize];
    let abandon_pct = [0, 0, 20, 60][plan(4) as usize];
    let write_pct = plan(100);
    set_device(Some(Rc::new(d)));
    let pages = (0..p as u64).map(|k| ((k % 3) as u8, (k / 3) * size as u64)).collect();
    let before = mem::counted();
    let pool = SimPool::new(size, n);
    drop(before);
    let pool = match pool {
        Ok(p) => p,
        Err(_) => return,
    };
    let hot = if plan_pct(50) { p } else { plan_range(1, p as u64) as usize };
    let w = Rc::new(World {
        pool,
        pages,
        writable,
        hot,
        abandon_pct,
        write_pct,
        accesses: Cell::new(0),
        given_up: Cell::new(0),
    });
    let tasks = plan_range(1, 5);
    let per_epoch = 20 + 10 * n as u64;
    let epochs = WARM_UP + 16 + if cx.thorough { plan(30) } else { 0 };
    let samples: Rc<RefCell<Vec<i64>>> = Default::default();
    for epoch in 0..epochs {
        for t in 0..tasks {
            let w = w.clone();
            let ops = per_epoch / tasks + 1;
            simrt::spawn(format!("task{}.{}", epoch, t), move || {
                for _ in 0..ops {
                    step(&w);
                }
            });
        }
        match simrt::run_tasks() {
            Outcome::Done => {}
            Outcome::Halted => return,
            Outcome::Stuck(s) => {
                let t: Vec<String> = s.iter().map(|(t, l)| format!("{} ({})", simrt::task_name(*t), l)).collect();
                return fail(STUCK, format!("nothing can run any more but these wait: {}", t.join(", ")));
            }
        }
        simrt::log(|| format!("epoch {}: {} accesses so far, {} bytes held", epoch, w.accesses.get(), mem::live()));
        samples.borrow_mut().push(mem::live());
    }
    let samples = samples.borrow();
    let warm = *samples[..WARM_UP as usize].iter().max().unwrap();
    // what a cache of this size may still add while its lists reach their final length
    let slack = 4096 + 512 * n as i64;
    let late = &samples[WARM_UP as usize..];
    let end = *late.last().unwrap();
    if late.iter().rev().take(3).all(|x| *x > warm + slack) {
        fail(
            GROWTH,
            format!(
                "a cache of {} buffers of {} bytes held {} bytes beside them after {} epochs and {} after {} ({} accesses, {} of them abandoned or failed)",
                n,
                size,
                warm,
                WARM_UP,
                end,
                epochs,
                w.accesses.get(),
                w.given_up.get()
            ),
        );
        return;
    }
    count_n("op.access", w.accesses.get());
    count_n("probe.epochs", epochs);
    if w.accesses.get() >= 100 * n as u64 {
        count("nontrivial");
    }
}

fn step(w: &World) {
    let k = plan(w.hot as u64) as usize;
    let (vol, off) = w.pages[k];
    let write = k < w.writable && plan_pct(w.write_pct);
    let init = write && plan_pct(30);
    let mode = if plan_pct(w.abandon_pct) {
        match plan(3) {
            0 => Abandon::AtPending(plan_range(1, 3) as u32),
            1 => Abandon::AfterWake(plan_range(1, 3) as u32),
            _ => Abandon::Timeout(plan_range(1, 30) * 10_000),
        }
    } else {
        Abandon::Never
    };
    w.accesses.set(w.accesses.get() + 1);
    let _m = mem::counted();
    if write {
        let r = simrt::block_on_or_abandon(
            async {
                if init {
                    w.pool.access_initialize(vol, off).await
                } else {
                    w.pool.access_read_write(vol, off).await
                }
            },
            mode,
        );
        match r {
            Ok(Some(mut h)) => {
                h.bytes_mut()[0] ^= 1;
                simrt::preempt("user");
                simrt::block_on(h.release());
            }
            _ => w.given_up.set(w.given_up.get() + 1),
        }
    } else {
        match simrt::block_on_or_abandon(w.pool.access_read_only(vol, off), mode) {
            Ok(Some(mut h)) => {
                simrt::preempt("user");
                simrt::block_on(h.release());
            }
            _ => w.given_up.set(w.given_up.get() + 1),
        }
    }
}
