//! C29: volume creations that are abandoned by their caller or fail half-way,
//! beside other users of the same page cache.
use super::pool::{device_byte, Disk};
use super::volume::{check_volume, gen_params, set_clock, Created, Params};
use super::Cx;
use async_std::fs::sim as fsim;
use cathlamet::storage::sim_hooks::{set_device, SimManager, SimPool};
use simrt::{count, ensure, fail, plan, plan_pct, plan_range, Abandon, Outcome};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;

pub const NEXT: &str = "next-creation";
pub const REUSED: &str = "identifier-reused";
pub const OTHERS: &str = "others-disturbed";
pub const CAPACITY: &str = "buffers-lost";
pub const UNCALLED: &str = "failed-without-cause";
pub const OPEN: &str = "file-left-open";
pub const STUCK: &str = "stuck-after-failure";

/// pages of other users are on these volumes
pub const OTHER: u8 = 250;
const FRESH: u8 = 251;

pub fn run(cx: &Cx) {
    set_clock(false);
    let log_block = [9, 9, 9, 10, 11, 12][plan(6) as usize];
    let block = 1usize << log_block;
    let per = plan_range(1, if cx.thorough { 8 } else { 5 });
    fsim::with(|f| {
        f.open_fault = [0, 0, 150][plan(3) as usize];
        f.set_len_fault = [0, 0, 200][plan(3) as usize];
        f.max_latency = [0, 100_000, 5_000_000][plan(3) as usize];
    });
    let mut disk = Disk::new(block);
    disk.zero = true;
    disk.any_location = true;
    disk.healthy_from = OTHER;
    disk.slow_permille = [0, 100, 500][plan(3) as usize];
    disk.fault_permille = [0, 20, 100, 300][plan(4) as usize];
    let disk = Rc::new(disk);
    set_device(Some(disk.clone()));

    let jobs: Vec<(Params, Abandon)> = (0..per + 1)
        .map(|k| {
            let mut p = gen_params(log_block);
            if p.pages() > 200 {
                let min = (1 + 2 * (16u64 << p.log_entry).div_ceil(block as u64) + 1).max(16);
                p.size = (min + plan(4)) << log_block;
            }
            let mode = if k == per {
                Abandon::Never
            } else {
                match plan(10) {
                    0..=2 => Abandon::Never,
                    3..=4 => Abandon::AtPending(plan_range(1, 8) as u32),
                    5..=6 => Abandon::AtPending(plan_range(1, 80) as u32),
                    7 => Abandon::AfterWake(plan_range(1, 60) as u32),
                    _ => Abandon::Timeout(plan_range(1, [10_000, 1_000_000, 100_000_000][plan(3) as usize])),
                }
            };
            (p, mode)
        })
        .collect();
    let noise = plan(4);
    let spare = plan(4);
    let need = jobs.iter().map(|j| j.0.pages()).sum::<u64>() + 2 * noise + 1 + spare;
    let pool = match SimPool::new(block, need as usize) {
        Ok(p) => Rc::new(p),
        Err(_) => return,
    };
    let busy = Rc::new(Cell::new(true));
    let seen: Rc<RefCell<BTreeMap<u64, u8>>> = Default::default();
    for k in 0..noise {
        let (pool, busy, seen) = (pool.clone(), busy.clone(), seen.clone());
        simrt::spawn(format!("other{}", k), move || other(&pool, k, block, &busy, &seen));
    }
    {
        let disk = disk.clone();
        simrt::spawn("creator", move || creator(&pool, jobs, &disk, &busy, &seen, need));
    }
    match simrt::run_tasks() {
        Outcome::Done => {}
        Outcome::Halted => return,
        Outcome::Stuck(s) => {
            let t: Vec<String> = s.iter().map(|(t, l)| format!("{} ({})", simrt::task_name(*t), l)).collect();
            return fail(STUCK, format!("nothing can run any more but these wait: {}", t.join(", ")));
        }
    }
    let open = fsim::with(|f| f.open_now);
    ensure!(open == 0, OPEN, "{} files are still open after the volume manager has gone", open);
}

/// Writes its own pages of the cache and looks after them.
pub fn other(pool: &SimPool, me: u64, block: usize, busy: &Cell<bool>, seen: &RefCell<BTreeMap<u64, u8>>) {
    let mut n = 0;
    while busy.get() && n < 60 {
        n += 1;
        let off = (me * 2 + plan(2)) * block as u64;
        let before = seen.borrow().get(&off).copied().unwrap_or(0);
        if plan_pct(50) {
            let mut h = simrt::block_on(pool.access_read_write(OTHER, off));
            ensure!(h.bytes().iter().all(|x| *x == before), OTHERS, "a page of somebody else changed during volume creations");
            let v = device_byte(n as u8, off, me as usize) | 1;
            h.bytes_mut().fill(v);
            simrt::preempt("user");
            seen.borrow_mut().insert(off, v);
            simrt::block_on(h.release());
        } else {
            let mut h = simrt::block_on(pool.access_read_only(OTHER, off));
            simrt::preempt("user");
            ensure!(h.bytes().iter().all(|x| *x == before), OTHERS, "a page of somebody else changed during volume creations");
            simrt::block_on(h.release());
        }
        if plan_pct(40) {
            simrt::block_on(simrt::sleep(3_000));
        }
    }
    count("op.other_cache_user");
}

fn creator(
    pool: &Rc<SimPool>,
    jobs: Vec<(Params, Abandon)>,
    disk: &Disk,
    busy: &Cell<bool>,
    seen: &RefCell<BTreeMap<u64, u8>>,
    buffers: u64,
) {
    let mut manager = SimManager::new(pool);
    let mut made: Vec<Created> = Vec::new();
    let me = simrt::current_task();
    let last = jobs.len() - 1;
    let mut disturbed = 0;
    for (k, (p, mode)) in jobs.into_iter().enumerate() {
        let path = PathBuf::from(format!("/simulated/volume{}", k));
        if k == last {
            // nothing fails any more
            simrt::set_faults(false);
        }
        let from = simrt::wall().readings.len();
        let fs_faults = fsim::with(|f| f.injected.len());
        let bad_reads = disk.failed_by.borrow().get(&me).copied().unwrap_or(0);
        simrt::log(|| format!("create {} {:?} {:?}", path.display(), p, mode));
        let real = p.real();
        let r = simrt::block_on_or_abandon(manager.create(&path, &real), mode);
        let bad_reads = disk.failed_by.borrow().get(&me).copied().unwrap_or(0) - bad_reads;
        let fs_faults = fsim::with(|f| f.injected.len()) - fs_faults;
        simrt::event("create", matches!(r, Ok(Some(Ok(_)))) as u64, k as u64);
        match r {
            Ok(Some(Ok(id))) => {
                simrt::log(|| format!("created {}", id));
                ensure!(
                    bad_reads == 0,
                    UNCALLED,
                    "creating {} was acknowledged although a page could not be read",
                    path.display()
                );
                for c in &made {
                    ensure!(c.id != id, REUSED, "identifier {} was given to two volumes", id);
                }
                made.push(Created { id, params: p, readings: from..simrt::wall().readings.len() });
                if disturbed > 0 {
                    count("probe.created_after_disturbance");
                    count("nontrivial");
                }
            }
            Ok(Some(Err(e))) => {
                ensure!(
                    fs_faults > 0,
                    if disturbed > 0 { NEXT } else { UNCALLED },
                    "creating {} failed with {} after {} creations that were abandoned or failed",
                    path.display(),
                    e,
                    disturbed
                );
                count("probe.create_returned_error");
                disturbed += 1;
            }
            Ok(None) => {
                simrt::log(|| "abandoned".into());
                count("fault.creation_abandoned");
                disturbed += 1;
            }
            Err(m) => {
                simrt::log(|| format!("creation stopped: {}", m));
                ensure!(
                    bad_reads > 0,
                    if disturbed > 0 { NEXT } else { UNCALLED },
                    "creating {} stopped although nothing failed: {}",
                    path.display(),
                    m
                );
                count("probe.create_stopped_by_read_error");
                disturbed += 1;
            }
        }
        if plan_pct(30) {
            if let Some(c) = made.last() {
                check_volume(pool, c);
            }
        }
    }
    simrt::set_faults(false);
    busy.set(false);
    for c in &made {
        check_volume(pool, c);
    }
    // all other buffers are free for other pages
    while simrt::others_alive() {
        simrt::block_on(simrt::sleep(10_000));
    }
    let block = disk.page_size as u64;
    let used = disk.reads.borrow().len() as u64;
    let mut held = Vec::new();
    for (off, v) in seen.borrow().iter() {
        let h = simrt::block_on(pool.access_read_only(OTHER, *off));
        ensure!(h.bytes().iter().all(|x| x == v), OTHERS, "a page of somebody else changed during volume creations");
        held.push(h);
    }
    for k in 0..buffers - used {
        simrt::waiting_for("a fresh page although buffers must be free");
        held.push(simrt::block_on(pool.access_read_only(FRESH, k * block)));
    }
    count("probe.capacity_checked");
    for mut h in held {
        simrt::block_on(h.release());
    }
    for c in &made {
        check_volume(pool, c);
    }
    drop(manager);
}
