//! C32: creations with parameters that cannot give a valid volume, between
//! creations that can, beside other users of the same page cache.
use super::abandon::{other, OTHER};
use super::pool::Disk;
use super::volume::{check_volume, gen_params, set_clock, Created, Params};
use super::Cx;
use async_std::fs::sim as fsim;
use cathlamet::storage::sim_hooks::{set_device, SimManager, SimPool};
use cathlamet::storage::VolumeParameters;
use simrt::{count, ensure, fail, plan, plan_pct, plan_range, plan_u64, Abandon, Outcome};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;

pub const ACCEPTED: &str = "impossible-volume-accepted";
pub const LEFT: &str = "refusal-left-file";
pub const TOUCHED: &str = "refusal-touched-file";
pub const CACHE: &str = "refusal-used-cache";
pub const SPENT: &str = "refusal-spent-identifier";
pub const REFUSED: &str = "possible-volume-refused";
pub const STUCK: &str = "stuck-after-refusal";

/// Why no valid volume has these parameters, decided with wide integers.
fn impossible(p: &Params, page: u64) -> Option<&'static str> {
    if !(9..=18).contains(&p.log_block) {
        return Some("block size");
    }
    let block = 1u128 << p.log_block;
    let size = p.size as u128;
    if size % block != 0 {
        return Some("not whole blocks");
    }
    let blocks = size / block;
    if blocks < 16 {
        return Some("fewer than sixteen blocks");
    }
    if blocks > 1 << 32 {
        return Some("more blocks than can be numbered");
    }
    if p.log_entry < 9 || p.log_entry > p.log_block {
        return Some("entry size");
    }
    let table = (16u128 << p.log_entry).div_ceil(block);
    if 1 + 2 * table + blocks.div_ceil(8).div_ceil(block) > blocks {
        return Some("no room for the metadata");
    }
    if block != page as u128 {
        return Some("block is not a page of the cache");
    }
    None
}

/// Parameters near a limit, or far from any.
fn bad_params(log_page: u16) -> Params {
    let mut p = gen_params(log_page.clamp(9, 18));
    let block = 1u64 << p.log_block;
    match plan(10) {
        0 => p.size = (p.size + plan_range(1, block - 1)).saturating_sub([0, block][plan(2) as usize]),
        1 => {
            p.log_entry = 9;
            p.size = block * [0, 1, plan(16), 15][plan(4) as usize];
        }
        2 => {
            // a table of sixteen blocks twice, and less than that
            p.log_entry = p.log_block;
            p.size = block * [16, 33, plan_range(16, 33)][plan(3) as usize];
        }
        3 => {
            let table = (16u64 << p.log_entry).div_ceil(block);
            p.size = block * (2 * table + plan(2));
        }
        4 => p.log_entry = p.log_block + 1 + [0, plan(4) as u16, plan(70) as u16][plan(3) as usize],
        5 => p.log_entry = [8, plan(9) as u16][plan(2) as usize],
        6 => {
            p.log_block = [plan(9) as u16, 19, 19 + plan(13) as u16, 19 + plan(60) as u16][plan(4) as usize];
            p.size = if p.log_block < 50 { plan_range(16, 200) << p.log_block } else { plan_u64() };
            p.log_entry = p.log_entry.min(p.log_block);
        }
        7 => {
            // fine for another page size
            p = gen_params(plan_range(9, 18) as u16);
        }
        8 => p.size = ((1u64 << 32) + [1, plan_range(1, 1000), 1 << plan(13)][plan(3) as usize]) << p.log_block,
        _ => {
            p.size = [plan_u64(), plan_u64() % (1 << 24)][plan(2) as usize];
            p.log_block = [plan_u64() as u16, plan(64) as u16, log_page][plan(3) as usize];
            p.log_entry = [plan_u64() as u16, plan(64) as u16, 10][plan(3) as usize];
        }
    }
    p
}

pub fn run(cx: &Cx) {
    set_clock(false);
    let exhaust = plan_pct(1);
    let log_page = if exhaust {
        13
    } else if plan_pct(3) {
        // no volume has blocks of this size
        [8, 19, 20][plan(3) as usize]
    } else {
        [9, 9, 9, 10, 11, 12, 13, 14][plan(8) as usize]
    };
    let page = 1u64 << log_page;
    let per = if exhaust { 255 + plan_range(1, 20) } else { plan_range(2, if cx.thorough { 8 } else { 6 }) };
    let mode = |k: u64| match plan(10) {
        _ if exhaust || k + 1 == per => Abandon::Never,
        0..=6 => Abandon::Never,
        7 => Abandon::AtPending(plan_range(1, 8) as u32),
        8 => Abandon::AfterWake(plan_range(1, 20) as u32),
        _ => Abandon::Timeout(plan_range(1, 1_000_000)),
    };
    fsim::with(|f| {
        f.open_fault = if exhaust { 0 } else { [0, 0, 150][plan(3) as usize] };
        f.set_len_fault = if exhaust { 0 } else { [0, 0, 200][plan(3) as usize] };
        f.max_latency = [0, 100_000, 5_000_000][plan(3) as usize];
    });
    let mut disk = Disk::new(page as usize);
    disk.zero = true;
    disk.any_location = true;
    disk.healthy_from = OTHER;
    disk.slow_permille = [0, 100, 500][plan(3) as usize];
    disk.fault_permille = if exhaust { 0 } else { [0, 0, 20, 100][plan(4) as usize] };
    let disk = Rc::new(disk);
    set_device(Some(disk.clone()));

    let mut valid = 0;
    let mut jobs: Vec<(Params, Abandon)> = Vec::new();
    for k in 0.. {
        if jobs.len() as u64 == per || (exhaust && valid == 255) {
            break;
        }
        let last = k + 1 == per;
        let fits = (9..=18).contains(&log_page);
        let p = if exhaust && !plan_pct(5) {
            Params { size: (16 + plan(5)) << 13, log_block: 13, log_entry: 9 }
        } else if fits && (last || plan_pct(35)) {
            let mut p = gen_params(log_page);
            if p.pages() > 200 {
                let min = (1 + 2 * (16u64 << p.log_entry).div_ceil(page) + 1).max(16);
                p.size = (min + plan(4)) << log_page;
            }
            p
        } else {
            bad_params(log_page)
        };
        let bad = impossible(&p, page).is_some();
        if !bad && p.pages() > 200 {
            continue;
        }
        valid += !bad as u64;
        jobs.push((p, mode(k)));
    }
    let mut before = BTreeMap::new();
    if !exhaust {
        for k in 0..jobs.len() {
            if plan_pct(10) {
                let path = PathBuf::from(format!("/simulated/volume{}", k));
                let len = [0, plan_range(1, 5000)][plan(2) as usize];
                let data: Vec<(u64, u8)> = (0..plan(4).min(len)).map(|i| (i * len / 4, 1 + plan(255) as u8)).collect();
                fsim::add_file(&path, len, &data);
                before.insert(path.clone(), fsim::stat(&path).map(|s| (s.len, s.data)));
            }
        }
    }
    let noise = if exhaust { 0 } else { plan(4) };
    let spare = plan(4);
    let own: u64 = jobs.iter().filter(|j| impossible(&j.0, page).is_none()).map(|j| j.0.pages()).sum();
    let need = own + 2 * noise + 1 + spare;
    let pool = match SimPool::new(page as usize, need as usize) {
        Ok(p) => Rc::new(p),
        Err(_) => return,
    };
    let busy = Rc::new(Cell::new(true));
    let seen: Rc<RefCell<BTreeMap<u64, u8>>> = Default::default();
    for k in 0..noise {
        let (pool, busy, seen) = (pool.clone(), busy.clone(), seen.clone());
        simrt::spawn(format!("other{}", k), move || other(&pool, k, page as usize, &busy, &seen));
    }
    {
        let disk = disk.clone();
        simrt::spawn("creator", move || creator(&pool, jobs, &disk, &busy, page, &before));
    }
    match simrt::run_tasks() {
        Outcome::Done => {}
        Outcome::Halted => {}
        Outcome::Stuck(s) => {
            let t: Vec<String> = s.iter().map(|(t, l)| format!("{} ({})", simrt::task_name(*t), l)).collect();
            fail(STUCK, format!("nothing can run any more but these wait: {}", t.join(", ")));
        }
    }
}

type Content = Option<(u64, BTreeMap<u64, u8>)>;

fn creator(
    pool: &Rc<SimPool>,
    jobs: Vec<(Params, Abandon)>,
    disk: &Disk,
    busy: &Cell<bool>,
    page: u64,
    before: &BTreeMap<PathBuf, Content>,
) {
    let mut manager = SimManager::new(pool);
    let mut made: Vec<Created> = Vec::new();
    let me = simrt::current_task();
    let mut refused = 0;
    // creations that may have used cache pages or identifiers without giving a volume
    let mut disturbed = 0;
    for (k, (p, mode)) in jobs.into_iter().enumerate() {
        let path = PathBuf::from(format!("/simulated/volume{}", k));
        let was: Content = before.get(&path).cloned().flatten();
        let why = impossible(&p, page);
        let from = simrt::wall().readings.len();
        let fs_faults = fsim::with(|f| f.injected.len());
        let bad_reads = disk.failed_by.borrow().get(&me).copied().unwrap_or(0);
        simrt::log(|| format!("create {} {:?} {:?} {:?}", path.display(), p, mode, why));
        let (size, log_block, log_entry) = (p.size, p.log_block, p.log_entry);
        let defaults = log_block == 12 && log_entry == 10 && plan_pct(50);
        let attempt = async {
            let real = if defaults { VolumeParameters::new_with_defaults(size) } else { p.real() };
            manager.create(&path, &real).await
        };
        let r = simrt::block_on_or_abandon(attempt, mode);
        let bad_reads = disk.failed_by.borrow().get(&me).copied().unwrap_or(0) - bad_reads;
        let fs_faults = fsim::with(|f| f.injected.len()) - fs_faults;
        let now: Content = fsim::stat(&path).map(|s| (s.len, s.data));
        simrt::event("create", matches!(r, Ok(Some(Ok(_)))) as u64, k as u64);
        let ending = match &r {
            Ok(Some(Ok(id))) => format!("identifier {}", id),
            Ok(Some(Err(e))) => format!("error {}", e),
            Ok(None) => "nothing, it was abandoned".into(),
            Err(m) => format!("panic {}", m),
        };
        simrt::log(|| format!("-> {}", ending));
        if let Some(why) = why {
            let told = format!(
                "creating a volume of {} bytes with blocks of 2^{} and entries of 2^{} bytes, pages of {} bytes ({}), gave {}",
                size, log_block, log_entry, page, why, ending
            );
            ensure!(!matches!(r, Ok(Some(Ok(_)))), ACCEPTED, "{}", told);
            if was.is_some() {
                ensure!(now == was, TOUCHED, "{} and changed the file that was there from {:?} to {:?}", told, was, now);
                count("probe.refusal_beside_existing_file");
            } else if !matches!(r, Ok(None)) {
                ensure!(now.is_none(), LEFT, "{} and left a file of {} bytes", told, now.unwrap().0);
            }
            if !matches!(r, Ok(None)) {
                refused += 1;
                count("probe.impossible_refused");
                count(match why {
                    "block size" => "refused.block_size",
                    "not whole blocks" => "refused.not_whole_blocks",
                    "fewer than sixteen blocks" => "refused.few_blocks",
                    "more blocks than can be numbered" => "refused.many_blocks",
                    "entry size" => "refused.entry_size",
                    "no room for the metadata" => "refused.no_room",
                    _ => "refused.page_size",
                });
            }
        } else {
            match r {
                Ok(Some(Ok(id))) => {
                    for c in &made {
                        ensure!(c.id != id, SPENT, "identifier {} was given to two volumes", id);
                    }
                    made.push(Created { id, params: p, readings: from..simrt::wall().readings.len() });
                    if refused > 0 {
                        count("probe.created_after_refusal");
                        count("nontrivial");
                    }
                }
                Ok(None) => disturbed += 1,
                _ => {
                    ensure!(
                        fs_faults > 0 || bad_reads > 0 || was.is_some(),
                        REFUSED,
                        "creating a volume of {} bytes with blocks of 2^{} and entries of 2^{} bytes, pages of {} bytes, gave {} after {} volumes and {} refusals",
                        size,
                        log_block,
                        log_entry,
                        page,
                        ending,
                        made.len(),
                        refused
                    );
                    disturbed += (was.is_none() || bad_reads > 0) as u64;
                }
            }
        }
        if plan_pct(if made.len() > 8 { 2 } else { 20 }) {
            if let Some(c) = made.last() {
                check_volume(pool, c);
            }
        }
    }
    if made.len() == 255 {
        count("probe.all_identifiers_given_out");
    }
    simrt::set_faults(false);
    busy.set(false);
    while simrt::others_alive() {
        simrt::block_on(simrt::sleep(10_000));
    }
    let skip = if made.len() > 8 { 32 } else { 1 };
    for c in made.iter().step_by(skip) {
        check_volume(pool, c);
    }
    if disturbed == 0 {
        // the cache was only asked for pages of the volumes there are
        let mut pages = 0;
        for (vol, off) in disk.reads.borrow().keys() {
            let known = *vol == OTHER || made.iter().any(|c| c.id == *vol && off / page < c.params.pages());
            ensure!(known, CACHE, "page at offset {} of volume {} was loaded, which belongs to no volume", off, vol);
            pages += 1;
        }
        simrt::event("pages", pages, 0);
        count("probe.cache_pages_checked");
    }
    drop(manager);
}
