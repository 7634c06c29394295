//! C08..C12: volume creation over a simulated file system, device and clock.
use super::pool::{device_byte, Disk};
use super::Cx;
use async_std::fs::sim as fsim;
use cathlamet::storage::sim_hooks::{set_device, SimManager, SimPool};
use cathlamet::storage::VolumeParameters;
use simrt::{count, ensure, fail, plan, plan_pct, plan_range, plan_u64, Outcome};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;

pub const LAYOUT: &str = "layout";
pub const ENTRY: &str = "entry";
pub const UUID: &str = "volume-uuid";
pub const HEADER: &str = "header";
pub const FREEMAP: &str = "free-map";
pub const MIRROR: &str = "mirror";
pub const EXISTING: &str = "existing-file";
pub const WINNERS: &str = "two-winners";
pub const IDENT: &str = "identifier";
pub const ERROR: &str = "create-error";
pub const TIME: &str = "timestamp";
pub const STUCK: &str = "create-stuck";

#[derive(Clone, Debug)]
pub struct Params {
    pub size: u64,
    pub log_block: u16,
    pub log_entry: u16,
}

impl Params {
    fn block(&self) -> u64 {
        1 << self.log_block
    }
    fn blocks(&self) -> u64 {
        self.size / self.block()
    }
    fn table_blocks(&self) -> u64 {
        (16u64 << self.log_entry).div_ceil(self.block())
    }
    fn map_blocks(&self) -> u64 {
        self.blocks().div_ceil(8).div_ceil(self.block())
    }
    pub fn pages(&self) -> u64 {
        1 + 2 * self.table_blocks() + self.map_blocks()
    }
    pub fn real(&self) -> VolumeParameters {
        VolumeParameters { volume_size: self.size, log_block_size: self.log_block, log_file_header_size: self.log_entry }
    }
}

pub fn gen_params(log_block: u16) -> Params {
    let log_entry = plan_range(9, log_block as u64) as u16;
    let block = 1u64 << log_block;
    let table = (16u64 << log_entry).div_ceil(block);
    // enough blocks for the metadata and not below the stated minimum
    let min = (1 + 2 * table + 1).max(16);
    let blocks = match plan(8) {
        0 => min,
        1 => min + plan(4),
        2 => plan_range(min, min + 300),
        3 => (128 * plan_range(1, 9) + plan(3)).saturating_sub(1),
        4 => {
            // around the end of a block of the map
            let bits = 8 * block;
            (bits * plan_range(1, if block <= 4096 { 3 } else { 1 })).saturating_sub(3) + plan(7)
        }
        5 => plan_range(min, 8 * block.min(2048) * 2),
        6 => 8 * plan_range(2, 600) + plan(2),
        _ => 1 << plan_range(5, 14),
    };
    // more blocks than twenty bits, and more bytes than 32 bits can tell
    let blocks = if plan(300) == 1 && log_block >= 12 { (1 << 20) + plan(9) * (1 << 16) + plan(3) } else { blocks };
    // a map so long that it takes more than one of its own blocks to mark itself
    let blocks = if log_block == 9 && plan(50) == 1 {
        count("probe.map_marks_itself_over_several_blocks");
        (1 << 24) + plan(9) * (1 << 18) + plan(3)
    } else {
        blocks
    };
    // a longer map needs further blocks itself
    let blocks = blocks.max(min).max(1 + 2 * table + blocks.div_ceil(8).div_ceil(block));
    Params { size: blocks * block, log_block, log_entry }
}

fn u16le(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
fn u32le(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64le(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

struct Entry {
    name: String,
    typ: u32,
    version: u32,
    created: u64,
    modified: u64,
    allocated: u32,
    used: u32,
    last: u32,
    extents: Vec<(u64, u64)>,
}

/// Independent decoder of one slot of the file table.
fn parse_entry(slot: &[u8], index: usize) -> Result<Entry, String> {
    let e = |m: String| Err(format!("entry {}: {}", index, m));
    let mut pos = 40; // 4+4+8+8+4+4+4 bytes and padding
    let mut name = None;
    let mut extents = Vec::new();
    loop {
        if pos + 2 > slot.len() {
            return e("attribute list is not ended".into());
        }
        match u16le(slot, pos) {
            0 => {
                pos += 2;
                break;
            }
            1 => {
                if pos + 3 > slot.len() {
                    return e("name cut off".into());
                }
                let n = slot[pos + 2] as usize;
                if pos + 3 + n > slot.len() {
                    return e("name does not fit".into());
                }
                if name.is_some() {
                    return e("two names".into());
                }
                match std::str::from_utf8(&slot[pos + 3..pos + 3 + n]) {
                    Ok(s) => name = Some(s.to_string()),
                    Err(_) => return e("name is not UTF-8".into()),
                }
                pos += 3 + n;
                pos += pos % 2;
            }
            0x10 => {
                if pos + 4 > slot.len() {
                    return e("extent list cut off".into());
                }
                let n = u16le(slot, pos + 2) as usize;
                pos = (pos + 4 + 3) & !3;
                if pos + 8 * n > slot.len() {
                    return e("extent list does not fit".into());
                }
                for _ in 0..n {
                    extents.push((u32le(slot, pos) as u64, u32le(slot, pos + 4) as u64));
                    pos += 8;
                }
            }
            x => return e(format!("unknown attribute {:#x} at offset {}", x, pos)),
        }
    }
    if let Some(i) = slot[pos..].iter().position(|b| *b != 0) {
        return e(format!("byte {:#x} left over at offset {} behind the end of the attributes", slot[pos + i], pos + i));
    }
    Ok(Entry {
        name: match name {
            Some(n) => n,
            None => return e("no name".into()),
        },
        typ: u32le(slot, 0),
        version: u32le(slot, 4),
        created: u64le(slot, 8),
        modified: u64le(slot, 16),
        allocated: u32le(slot, 24),
        used: u32le(slot, 28),
        last: u32le(slot, 32),
        extents,
    })
}

fn expected_name(i: usize) -> String {
    match i {
        0 => "$file_table_0".into(),
        1 => "$file_table_1".into(),
        2 => "$allocation_bitmap".into(),
        3 => "$journal".into(),
        4 => "$volume_header".into(),
        _ => format!("$reserved_{}", i),
    }
}

pub struct Created {
    pub id: u8,
    pub params: Params,
    pub readings: std::ops::Range<usize>,
}

/// Everything the properties say about a created volume.
pub fn check_volume(pool: &SimPool, c: &Created) {
    let p = &c.params;
    let block = p.block();
    let page = |n: u64| -> Vec<u8> {
        let mut h = simrt::block_on(pool.access_read_only(c.id, n * block));
        let b = h.bytes().to_vec();
        simrt::block_on(h.release());
        b
    };
    let h = page(0);
    ensure!(u32le(&h, 0) == 0xCA78, HEADER, "format magic {:#x}", u32le(&h, 0));
    ensure!(u32le(&h, 4) == 0x0100, HEADER, "format version {:#x}", u32le(&h, 4));
    // a random identifier: version 4 in the layout of RFC 4122
    ensure!(
        h[14] >> 4 == 4 && h[16] >> 6 == 2,
        UUID,
        "the header holds the identifier {:02x?}, which is not a random (version 4) one",
        &h[8..24]
    );
    ensure!(u64le(&h, 24) == p.size, HEADER, "header states size {}, created with {}", u64le(&h, 24), p.size);
    let table_offset = u64le(&h, 32);
    ensure!(u16le(&h, 40) == p.log_block, HEADER, "header states log block size {}, created with {}", u16le(&h, 40), p.log_block);
    ensure!(u16le(&h, 42) == p.log_entry, HEADER, "header states log entry size {}, created with {}", u16le(&h, 42), p.log_entry);
    if let Some(i) = h[48..].iter().position(|b| *b != 0) {
        fail(HEADER, format!("left-over byte at offset {} of the header block", 48 + i));
    }
    ensure!(
        table_offset % block == 0 && table_offset / block + p.table_blocks() <= p.blocks(),
        HEADER,
        "file table at offset {} of a volume of {} bytes",
        table_offset,
        p.size
    );
    // file table
    let mut table = Vec::new();
    for b in 0..p.table_blocks() {
        table.extend(page(table_offset / block + b));
    }
    let slot = 1usize << p.log_entry;
    let mut entries = Vec::new();
    for i in 0..16 {
        match parse_entry(&table[i * slot..(i + 1) * slot], i) {
            Ok(e) => entries.push(e),
            Err(m) => fail(ENTRY, m),
        }
    }
    if let Some(i) = table[16 * slot..].iter().position(|b| *b != 0) {
        fail(ENTRY, format!("left-over byte {} bytes behind the sixteen entries", i));
    }
    for (i, e) in entries.iter().enumerate() {
        let want_size = match i {
            0 | 1 => 16 * slot as u64,
            2 => p.blocks().div_ceil(8),
            4 => block,
            _ => 0,
        };
        ensure!(e.name == expected_name(i), ENTRY, "entry {} has name {:?} instead of {:?}", i, e.name, expected_name(i));
        ensure!(e.typ == 1 || (i > 4 && e.typ == 0xffff), ENTRY, "entry {} has type {:#x}", i, e.typ);
        ensure!(e.version == 1, ENTRY, "entry {} has version {}", i, e.version);
        let sum: u64 = e.extents.iter().map(|x| x.1).sum();
        ensure!(sum == e.allocated as u64, ENTRY, "entry {} states {} blocks but lists {}", i, e.allocated, sum);
        let want_blocks = want_size.div_ceil(block);
        ensure!(e.used as u64 == want_blocks, ENTRY, "entry {} states {} blocks used instead of {}", i, e.used, want_blocks);
        ensure!(sum == want_blocks, ENTRY, "entry {} has {} blocks for {} bytes", i, sum, want_size);
        let r = want_size % block;
        let full = want_size > 0 && r == 0;
        ensure!(
            e.last as u64 == r || (full && e.last as u64 == block),
            ENTRY,
            "entry {} states {} bytes in its last block instead of {}",
            i,
            e.last,
            r
        );
    }
    // positions
    let mut owner: BTreeMap<u64, usize> = BTreeMap::new();
    for (i, e) in entries.iter().enumerate() {
        for &(start, n) in &e.extents {
            ensure!(start + n <= p.blocks(), LAYOUT, "entry {} lists blocks {}..{} in a volume of {} blocks", i, start, start + n, p.blocks());
            for b in start..start + n {
                if let Some(o) = owner.insert(b, i) {
                    fail(LAYOUT, format!("block {} belongs to both {} and {}", b, expected_name(o), e.name));
                }
            }
        }
    }
    let blocks_of = |i: usize| -> Vec<u64> { entries[i].extents.iter().flat_map(|&(s, n)| s..s + n).collect() };
    ensure!(blocks_of(4) == [0], LAYOUT, "the volume header entry lists blocks {:?}", blocks_of(4));
    let t0 = blocks_of(0);
    ensure!(
        t0.iter().enumerate().all(|(i, b)| *b == table_offset / block + i as u64),
        LAYOUT,
        "the file table entry lists blocks {:?} but the header places it at block {}",
        t0,
        table_offset / block
    );
    // mirror
    let mirror = blocks_of(1);
    ensure!(mirror.len() == t0.len(), MIRROR, "mirror has {} blocks, table {}", mirror.len(), t0.len());
    for (k, (&a, &b)) in t0.iter().zip(mirror.iter()).enumerate() {
        ensure!(a != b, MIRROR, "table and mirror share block {}", a);
        let (x, y) = (&table[k * block as usize..(k + 1) * block as usize], page(b));
        if let Some(i) = x.iter().zip(y.iter()).position(|(p, q)| p != q) {
            fail(MIRROR, format!("block {} of the mirror differs from the file table at offset {}: {:#x} instead of {:#x}", k, i, y[i], x[i]));
        }
    }
    // free map
    let map: Vec<u8> = blocks_of(2).into_iter().flat_map(page).collect();
    let free = map.iter().map(|b| b.count_ones() as u64).sum();
    let mut expected = vec![0u8; map.len()];
    let whole = (p.blocks() / 8) as usize;
    expected.iter_mut().take(whole).for_each(|b| *b = 0xff);
    (whole as u64 * 8..p.blocks().min(map.len() as u64 * 8)).for_each(|bit| expected[bit as usize / 8] |= 1 << (bit % 8));
    for &bit in owner.keys().filter(|bit| **bit < map.len() as u64 * 8) {
        expected[bit as usize / 8] &= !(1 << (bit % 8));
    }
    if let Some(byte) = map.iter().zip(&expected).position(|(a, b)| a != b) {
        for bit in byte as u64 * 8..byte as u64 * 8 + 8 {
            let got = map[byte] >> (bit % 8) & 1 == 1;
            let want = expected[byte] >> (bit % 8) & 1 == 1;
            if got == want {
                continue;
            }
            let why = if bit >= p.blocks() {
                "does not exist".to_string()
            } else {
                match owner.get(&bit) {
                    Some(o) => format!("belongs to {}", expected_name(*o)),
                    None => "belongs to nothing".into(),
                }
            };
            fail(
                FREEMAP,
                format!("block {} of {} is marked {} but {}", bit, p.blocks(), if got { "free" } else { "allocated" }, why),
            );
        }
    }
    count("probe.volume_checked");
    if p.map_blocks() > 1 {
        count("probe.map_of_several_blocks");
    }
    simrt::event("volume", c.id as u64, free);
    // time
    let allowed: Vec<u64> =
        simrt::wall().readings[c.readings.clone()].iter().map(|&(s, n)| (s as u64) << 16 | (n as u64 >> 14)).collect();
    for (i, e) in entries.iter().enumerate() {
        for (what, t) in [("created", e.created), ("modified", e.modified)] {
            ensure!(
                allowed.contains(&t),
                TIME,
                "entry {} states it was {} at {:#x}, which the clock never showed while the volume was created ({} readings)",
                i,
                what,
                t,
                allowed.len()
            );
        }
    }
}

/// What is at a path
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    File(u64, BTreeMap<u64, u8>),
    Directory,
    Link(PathBuf, Option<Box<Seen>>),
}

fn content(p: &Path) -> Option<Seen> {
    match fsim::kind(p)? {
        'd' => Some(Seen::Directory),
        'l' => {
            let to = fsim::follow(p);
            let behind = content(&to).map(Box::new);
            Some(Seen::Link(to, behind))
        }
        _ => fsim::stat(p).map(|s| Seen::File(s.len, s.data)),
    }
}

pub fn set_clock(c12: bool) {
    let w = simrt::wall();
    let sec: i128 = match plan(8) {
        0 => 1_700_000_000,
        1 => 0,
        2 => plan_u64() as i128 % 4_102_444_800,
        3 => (1 << 31) - 1 + plan(3) as i128,
        4 => (1 << 32) - 1 + plan(3) as i128,
        5 => 253_402_300_799, // end of year 9999
        6 => plan_u64() as i128 % (1 << 47),
        _ => 946_684_799,
    };
    let ns: i128 = match plan(6) {
        0 => 0,
        1 => 999_999_999,
        2 => 0xC000 + plan(0x4000) as i128,
        3 => plan(1 << 14) as i128,
        4 => (1 << 29) + plan(1 << 28) as i128,
        _ => plan(1_000_000_000) as i128,
    };
    w.base_ns = sec * 1_000_000_000 + ns;
    w.jump_permille = if c12 { [0, 100, 400][plan(3) as usize] } else { [0, 0, 100][plan(3) as usize] };
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok(u8),
    Err(Option<i32>, String),
}

struct Shared {
    /// results per path: (task, size, ok)
    wins: RefCell<BTreeMap<PathBuf, Vec<(usize, u64)>>>,
    /// random identifiers of all volumes of all managers
    uuids: RefCell<BTreeMap<Vec<u8>, (usize, u8)>>,
    preexisting: BTreeMap<PathBuf, Seen>,
    creators: u64,
    attempts: Cell<u64>,
}

pub fn run(cx: &Cx) {
    set_clock(cx.property == "C12");
    simrt::seed_entropy(plan_u64());
    let exhaust = cx.property == "C11" && plan_pct(if cx.thorough { 2 } else { 1 });
    let log_block = if exhaust {
        13
    } else {
        match plan(12) {
            0..=3 => 9,
            4..=5 => 10,
            6..=7 => 12,
            8 => 11,
            9 => 13,
            10 => 14,
            _ => {
                if plan_pct(20) {
                    plan_range(15, 18) as u16
                } else {
                    12
                }
            }
        }
    };
    let creators = if exhaust {
        1
    } else if cx.property == "C10" {
        plan_range(1, 4)
    } else if plan_pct(20) {
        2
    } else {
        1
    };
    let per = if exhaust { 262 } else { plan_range(1, if cx.property == "C11" { 6 } else { 3 }) };
    let faulty = match cx.property {
        "C11" => plan_pct(85),
        "C10" => plan_pct(40),
        _ => plan_pct(15),
    };
    fsim::with(|f| {
        if faulty {
            f.open_fault = [0, 150, 400][plan(3) as usize];
            f.set_len_fault = [0, 150, 400][plan(3) as usize];
        }
        if exhaust {
            f.open_fault /= 8;
            f.set_len_fault /= 8;
        }
        f.max_latency = [0, 100_000, 5_000_000][plan(3) as usize];
    });
    // paths; with several creators they meet on the same ones
    let npaths = if exhaust { 300 } else { plan_range(1, per + 1) };
    let path = |i: u64| PathBuf::from(format!("/simulated/volume{}", i));
    let mut pre = BTreeMap::new();
    if !exhaust {
        for i in 0..npaths {
            if plan_pct(if cx.property == "C10" { 30 } else { 8 }) {
                let len = if plan_pct(30) { 0 } else { plan_range(1, 5000) };
                let data: Vec<(u64, u8)> = (0..plan(5).min(len)).map(|k| (k * len / 5, 1 + plan(255) as u8)).collect();
                // now and then it is a directory, or a link to something or to nothing
                match if cx.property == "C10" { plan(8) } else { 7 } {
                    0 => {
                        fsim::with(|f| f.dirs.insert(path(i)));
                        count("class.path_is_directory");
                    }
                    k @ 1..=2 => {
                        let to = PathBuf::from(format!("/simulated/elsewhere/file{}", i));
                        if k == 1 {
                            fsim::add_file(&to, len, &data);
                        }
                        fsim::with(|f| f.links.insert(path(i), to));
                        count(if k == 1 { "class.path_is_link" } else { "class.path_is_dangling_link" });
                    }
                    _ => fsim::add_file(&path(i), len, &data),
                }
                pre.insert(path(i), content(&path(i)).unwrap());
            }
        }
    }
    let shared = Rc::new(Shared { wins: Default::default(), uuids: Default::default(), preexisting: pre, creators, attempts: Cell::new(0) });

    // the device of all volumes: new files read as zeroes
    let block = 1usize << log_block;
    let mut disk = Disk::new(block);
    disk.zero = true;
    disk.any_location = true;
    disk.slow_permille = [0, 100][plan(2) as usize];
    let disk = Rc::new(disk);
    set_device(Some(disk.clone()));

    for t in 0..creators {
        let jobs: Vec<(Params, u64)> = (0..per)
            .map(|k| {
                let p = if exhaust {
                    let min = 16 + k % 5;
                    Params { size: min << 13, log_block: 13, log_entry: 9 }
                } else {
                    gen_params(log_block)
                };
                let where_ = if exhaust { k } else { plan(npaths) };
                (p, where_)
            })
            .collect();
        let defaults = log_block == 12 && plan_pct(30);
        // every metadata page stays in the cache, as nothing is written back
        let noise_pages = plan(6);
        let noise = if exhaust { 0 } else { plan(3) };
        let need: u64 = jobs.iter().map(|j| j.0.pages()).sum::<u64>() + noise_pages + 2 + noise;
        let pool = match SimPool::new(block, need as usize) {
            Ok(p) => Rc::new(p),
            Err(_) => return,
        };
        let busy = Rc::new(Cell::new(true));
        for k in 0..noise {
            let (pool, busy) = (pool.clone(), busy.clone());
            simrt::spawn(format!("other{}.{}", t, k), move || noise_task(&pool, block, noise_pages, &busy));
        }
        let shared = shared.clone();
        simrt::spawn(format!("creator{}", t), move || creator(&pool, jobs, &shared, &busy, defaults));
    }
    match simrt::run_tasks() {
        Outcome::Done => {}
        Outcome::Halted => return,
        Outcome::Stuck(s) => {
            let t: Vec<String> = s.iter().map(|(t, l)| format!("{} ({})", simrt::task_name(*t), l)).collect();
            return fail(STUCK, format!("nothing can run any more but these wait: {}", t.join(", ")));
        }
    }
    // afterwards: files
    for (p, before) in &shared.preexisting {
        match content(p) {
            None => fail(EXISTING, format!("{} existed before and is gone", p.display())),
            Some(now) if now != *before => {
                fail(EXISTING, format!("{} existed before; it had {:?} and has {:?}", p.display(), before, now))
            }
            _ => {}
        }
    }
    for (p, w) in shared.wins.borrow().iter() {
        if w.len() > 1 {
            return fail(WINNERS, format!("{} was created successfully {} times", p.display(), w.len()));
        }
        match content(p) {
            None => return fail(EXISTING, format!("{} was created but does not exist", p.display())),
            Some(Seen::File(len, _)) if len == w[0].1 => {}
            Some(s) => {
                return fail(EXISTING, format!("{} was created with {} bytes and now is {:?}", p.display(), w[0].1, s))
            }
        }
    }
    let wins: usize = shared.wins.borrow().values().map(|v| v.len()).sum();
    let ok = match cx.property {
        "C10" => !shared.preexisting.is_empty() || simrt::counter("seam.open_found_existing") > 0,
        "C11" => shared.attempts.get() > 1 && wins > 0,
        _ => wins > 0,
    };
    if ok {
        count("nontrivial");
    }
}

/// Other users of the same cache.
fn noise_task(pool: &SimPool, block: usize, pages: u64, busy: &Cell<bool>) {
    let mut mine: BTreeMap<u64, u8> = BTreeMap::new();
    let mut n = 0;
    let me = simrt::current_task() as u64;
    while busy.get() && n < 40 {
        n += 1;
        if pages == 0 || plan_pct(40) {
            // looks at metadata that is being written
            let mut h = simrt::block_on(pool.access_read_only(0, 0));
            simrt::preempt("user");
            simrt::block_on(h.release());
        } else {
            let k = plan(pages);
            let off = (me * 64 + k % 2) * block as u64;
            let mut h = simrt::block_on(pool.access_read_write(250, off));
            if let Some(v) = mine.get(&off) {
                let b = h.bytes();
                ensure!(b.iter().all(|x| x == v), LAYOUT, "a page of another volume changed while a volume was created");
            }
            let v = device_byte(n, off, 0) | 1;
            h.bytes_mut().fill(v);
            mine.insert(off, v);
            simrt::preempt("user");
            simrt::block_on(h.release());
        }
        if plan_pct(30) {
            simrt::block_on(simrt::sleep(3_000));
        }
    }
    for (off, v) in mine {
        let mut h = simrt::block_on(pool.access_read_only(250, off));
        ensure!(h.bytes().iter().all(|x| *x == v), LAYOUT, "a page of another volume changed while a volume was created");
        simrt::block_on(h.release());
    }
    count("op.other_cache_user");
}

fn creator(pool: &Rc<SimPool>, jobs: Vec<(Params, u64)>, shared: &Shared, busy: &Cell<bool>, defaults: bool) {
    let mut manager = SimManager::new(pool);
    let mut made: Vec<Created> = Vec::new();
    if defaults {
        // sizes next to the smallest and to the largest of 2^32 blocks
        let blocks = match plan(4) {
            0 => 16 + plan(3),
            1 => (1u64 << 32) - plan(3),
            2 => 1 << plan_range(4, 32),
            _ => plan_range(16, 1 << 32),
        };
        let d = VolumeParameters::new_with_defaults(blocks << 12);
        ensure!(
            d.volume_size == blocks << 12 && d.log_block_size == 12 && d.log_file_header_size == 10,
            HEADER,
            "default parameters for {} blocks: size {}, log block size {}, log entry size {}",
            blocks,
            d.volume_size,
            d.log_block_size,
            d.log_file_header_size
        );
        count("probe.default_parameters_of_any_size");
    }
    for (p, k) in jobs {
        let path = PathBuf::from(format!("/simulated/volume{}", k));
        let real = if defaults {
            let d = VolumeParameters::new_with_defaults(p.size);
            ensure!(
                d.volume_size == p.size && d.log_block_size == 12 && d.log_file_header_size == 10,
                HEADER,
                "default parameters for {} bytes: size {}, log block size {}, log entry size {}",
                p.size,
                d.volume_size,
                d.log_block_size,
                d.log_file_header_size
            );
            p.real()
        } else {
            p.real()
        };
        // files that other creators are about to give up on may disappear again
        let existed = shared.preexisting.contains_key(&path) || shared.wins.borrow().contains_key(&path);
        let injected_before = fsim::with(|f| f.injected.iter().filter(|x| x.2 == simrt::current_task()).count());
        let from = simrt::wall().readings.len();
        shared.attempts.set(shared.attempts.get() + 1);
        count("op.create");
        simrt::log(|| format!("create {} {:?}", path.display(), p));
        let r = simrt::block_on(manager.create(&path, &real));
        let res = match &r {
            Ok(i) => Res::Ok(*i),
            Err(e) => Res::Err(e.raw_os_error(), e.to_string()),
        };
        simrt::log(|| format!("create {} -> {:?}", path.display(), res));
        simrt::event("create", matches!(res, Res::Ok(_)) as u64, k);
        let injected: Vec<(&'static str, i32)> = fsim::with(|f| {
            f.injected.iter().filter(|x| x.2 == simrt::current_task()).skip(injected_before).map(|x| (x.0, x.1)).collect()
        });
        match res {
            Res::Ok(id) => {
                ensure!(!existed, EXISTING, "creating {} succeeded although the file existed", path.display());
                for c in &made {
                    ensure!(c.id != id, IDENT, "identifier {} was given to two volumes", id);
                }
                shared.wins.borrow_mut().entry(path.clone()).or_default().push((simrt::current_task(), p.size));
                match fsim::stat(&path) {
                    None => fail(EXISTING, format!("{} was created but does not exist", path.display())),
                    Some(s) => ensure!(s.len == p.size, HEADER, "{} has {} bytes, asked for {}", path.display(), s.len, p.size),
                }
                made.push(Created { id, params: p.clone(), readings: from..simrt::wall().readings.len() });
            }
            Res::Err(code, text) => {
                // whatever failed behind opening the file, the file does not outlive the creation
                let opened = !matches!(injected.last(), Some(("open", _))) && code != Some(17);
                if opened && !existed && shared.creators == 1 {
                    ensure!(
                        content(&path).is_none(),
                        ERROR,
                        "creating {} failed with {:?} {} and left its file behind",
                        path.display(),
                        code,
                        text
                    );
                    count("probe.failed_creation_left_nothing");
                }
                if let Some((op, e)) = injected.last() {
                    ensure!(code == Some(*e) || code == Some(17), ERROR, "{} failed with errno {} but creation returned {:?} {}", op, e, code, text);
                    count("probe.create_failed_by_fault");
                    if *op == "set_len" && !existed && shared.creators == 1 {
                        // once the disk has room again the same creation must work
                        simrt::set_faults(false);
                        let from = simrt::wall().readings.len();
                        let r = simrt::block_on(manager.create(&path, &real));
                        simrt::set_faults(true);
                        match r {
                            Err(_) if made.len() >= 255 => count("probe.identifiers_exhausted"),
                            Err(e) => fail(
                                ERROR,
                                format!("sizing {} failed, and creating it again when nothing fails gives {}", path.display(), e),
                            ),
                            Ok(id) => {
                                count("probe.created_after_failure");
                                for c in &made {
                                    ensure!(c.id != id, IDENT, "identifier {} was given to two volumes", id);
                                }
                                shared.wins.borrow_mut().entry(path.clone()).or_default().push((simrt::current_task(), p.size));
                                made.push(Created { id, params: p.clone(), readings: from..simrt::wall().readings.len() });
                            }
                        }
                    }
                } else if existed || code == Some(17) {
                    count("probe.create_refused_existing");
                } else {
                    ensure!(
                        made.len() >= 255,
                        ERROR,
                        "creating {} failed with {:?} {} after {} volumes although nothing went wrong",
                        path.display(),
                        code,
                        text,
                        made.len()
                    );
                    count("probe.identifiers_exhausted");
                }
            }
        }
        simrt::preempt("user");
        if made.len() <= 4 || plan_pct(2) {
            if let Some(c) = made.last() {
                if plan_pct(60) {
                    check_volume(pool, c);
                }
            }
        }
    }
    busy.set(false);
    for c in &made {
        let mut h = simrt::block_on(pool.access_read_only(c.id, 0));
        let uuid = h.bytes()[8..24].to_vec();
        simrt::block_on(h.release());
        let mine = (simrt::current_task(), c.id);
        if let Some(other) = shared.uuids.borrow_mut().insert(uuid, mine) {
            fail(UUID, format!("volume {} of {} has the same random identifier as volume {} of {}", c.id, simrt::task_name(mine.0), other.1, simrt::task_name(other.0)));
        }
        if shared.uuids.borrow().len() > 1 {
            count("probe.random_identifiers_compared");
        }
    }
    let skip = if made.len() > 8 { 32 } else { 1 };
    for c in made.iter().step_by(skip) {
        check_volume(pool, c);
    }
    // the files stay open until the manager goes away
    drop(manager);
}
