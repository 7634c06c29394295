//! Batches of simulated runs over worker processes, minimisation, evidence.
use crate::proto::{read_known, Known, Replay, J};
use crate::scen::{self, Prop, PROPS};
use simrt::choice::{Choices, CrashLog};
use simrt::rng::mix64;
use simrt::{RunConfig, RunReport};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const STEP_CAP: u64 = 400_000;
/// CPU seconds one run may take before it counts as a hang
const HANG_CPU_S: i64 = 20;

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    opt(args, name).and_then(|s| s.parse().ok()).unwrap_or(default)
}
fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {}", id);
        std::process::exit(2)
    })
}
fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
fn known_file() -> PathBuf {
    verif_dir().join("KNOWN_FINDINGS.txt")
}

pub fn run_seed(seed: u64, property: &str, run: u64) -> u64 {
    let p = property.bytes().fold(0u64, |h, b| h.wrapping_mul(131) + b as u64);
    mix64(mix64(seed ^ 0xca7b) ^ mix64(p) ^ run.wrapping_mul(0x9E37_79B9_7F4A_7C15))
}

/// Execute one run on a fresh thread.
fn execute(p: &'static Prop, tier: &str, choices: Choices, gen_seed: u64, trace: bool) -> RunReport {
    let thorough = tier == "thorough";
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let cfg = RunConfig { choices, gen_seed, trace, step_cap: STEP_CAP };
            simrt::run(cfg, || {
                let cx = scen::Cx { property: p.id, thorough };
                scen::with_cleanup(|| (p.run)(&cx))
            })
        })
        .expect("thread")
        .join()
        .expect("run thread")
}

fn arm_hang_timer(seconds: i64) {
    let tv = libc::timeval { tv_sec: seconds, tv_usec: 0 };
    let zero = libc::timeval { tv_sec: 0, tv_usec: 0 };
    let it = libc::itimerval { it_interval: zero, it_value: tv };
    unsafe { libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut()) };
}

fn limit_memory() {
    let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

struct Shared {
    base: *mut u64,
    words: usize,
}
impl Shared {
    fn open(path: &Path, words: usize) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("shared file");
        f.set_len((words * 8) as u64).expect("shared size");
        use std::os::fd::AsRawFd;
        let base = unsafe {
            libc::mmap(std::ptr::null_mut(), words * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(base != libc::MAP_FAILED);
        Shared { base: base as *mut u64, words }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.base.add(i)) }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.base.add(i), v) }
    }
}

impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.words * 8) };
    }
}

fn common_class(c: &str) -> bool {
    c.starts_with("panic") || c == "crash" || c == "hang"
}
fn owned(p: &Prop, class: &str) -> bool {
    common_class(class) || p.owns.contains(&class)
}

// ---------------------------------------------------------------- worker

/// One worker process: runs w, w+W, w+2W, ... and writes a result file.
pub fn worker(args: &[String]) -> i32 {
    let p = prop(opt(args, "--property").unwrap());
    let tier = opt(args, "--tier").unwrap().to_string();
    let seed = num(args, "--seed", 1);
    let me = num(args, "--worker", 0);
    let total = num(args, "--workers", 1);
    let runs = num(args, "--runs", 100);
    let first = num(args, "--first", me);
    let deadline = Instant::now() + Duration::from_millis(num(args, "--ms", 60_000));
    let out = PathBuf::from(opt(args, "--out").unwrap());
    let shared = Shared::open(Path::new(opt(args, "--shared").unwrap()), 16);
    let known: Vec<Known> = read_known(&known_file()).into_iter().filter(|k| k.property == p.id).collect();
    simrt::install_panic_hook();
    limit_memory();

    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let (mut done, mut steps, mut switches, mut sim_ns, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut foreign: BTreeMap<String, u64> = BTreeMap::new();
    let mut violation: Option<Replay> = None;
    let mut sample: Option<(u64, Vec<String>)> = None;
    let mut i = first;
    while i < runs {
        if Instant::now() >= deadline {
            break;
        }
        shared.set(0, i + 1);
        arm_hang_timer(HANG_CPU_S);
        let s = run_seed(seed, p.id, i);
        let want_trace = i < 3 * total && sample.is_none();
        let r = execute(p, &tier, Choices::generate(s), s, want_trace);
        done += 1;
        steps += r.steps;
        switches += r.switches;
        sim_ns += r.sim_ns;
        if r.counters.get("nontrivial").copied().unwrap_or(0) > 0 {
            nontrivial += 1;
            hashes.insert(r.hash);
            if want_trace && r.violation.is_none() {
                sample = Some((i, r.trace.clone()));
            }
        }
        for (k, v) in &r.counters {
            *counters.entry(k.to_string()).or_insert(0) += v;
        }
        if let Some(v) = r.violation {
            if known.iter().any(|k| k.class == v.class) {
                *known_hits.entry(v.class.clone()).or_insert(0) += 1;
            } else if owned(p, &v.class) {
                violation = Some(Replay {
                    property: p.id.to_string(),
                    class: v.class,
                    message: v.message,
                    tier: tier.clone(),
                    seed,
                    run: i,
                    streams: r.streams,
                    trace: Vec::new(),
                });
                break;
            } else {
                *foreign.entry(v.class.clone()).or_insert(0) += 1;
            }
        }
        i += total;
    }
    arm_hang_timer(0);
    let mut s = String::new();
    use std::fmt::Write as _;
    writeln!(s, "done {} {} {} {} {}", done, steps, switches, sim_ns, nontrivial).unwrap();
    for (k, v) in &counters {
        writeln!(s, "count {} {}", v, k).unwrap();
    }
    for (k, v) in &known_hits {
        writeln!(s, "known {} {}", v, k).unwrap();
    }
    for (k, v) in &foreign {
        writeln!(s, "foreign {} {}", v, k).unwrap();
    }
    if let Some((i, t)) = sample {
        writeln!(s, "samplerun {}", i).unwrap();
        for l in t.iter().take(60) {
            writeln!(s, "sample {}", l.replace('\n', " ")).unwrap();
        }
    }
    s.push_str("hashes");
    for h in &hashes {
        write!(s, " {:x}", h).unwrap();
    }
    s.push('\n');
    if let Some(v) = violation {
        let f = out.with_extension("violation");
        v.write(&f).unwrap();
        writeln!(s, "violation {}", f.display()).unwrap();
    }
    std::fs::write(&out, s).unwrap();
    shared.set(1, 1);
    0
}

// ------------------------------------------------------------ single run

/// `exec FILE --out RESULT`: run the streams of FILE (or the seed if
/// `--generate`), leaving the choices in shared memory in case of a crash.
pub fn exec(args: &[String]) -> i32 {
    let r = Replay::read(Path::new(&args[0])).expect("replay file");
    let out = PathBuf::from(opt(args, "--out").unwrap());
    let p = prop(&r.property);
    simrt::install_panic_hook();
    limit_memory();
    arm_hang_timer(HANG_CPU_S);
    let generate = args.iter().any(|a| a == "--generate");
    let s = run_seed(r.seed, p.id, r.run);
    let mut ch = if generate { Choices::generate(s) } else { Choices::replay(r.streams.clone()) };
    let _keep;
    if let Some(l) = opt(args, "--crashlog") {
        let sh = Shared::open(Path::new(l), 1 << 22);
        ch = ch.with_crash_log(CrashLog { base: sh.base, words: sh.words });
        _keep = sh;
    }
    let rep = execute(p, &r.tier, ch, s, !args.iter().any(|a| a == "--quiet"));
    let (class, message) = match rep.violation {
        Some(v) => (v.class, v.message),
        None => (String::new(), String::new()),
    };
    let o = Replay { class, message, streams: rep.streams, trace: rep.trace, ..r };
    o.write(&out).unwrap();
    0
}

fn work_dir() -> PathBuf {
    let d = verif_dir().join("work").join(format!("{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("work dir");
    d
}

fn exit_class(st: std::process::ExitStatus) -> Option<&'static str> {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() {
        Some(libc::SIGPROF) => Some("hang"),
        Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGABRT) | Some(libc::SIGILL) | Some(libc::SIGFPE)
        | Some(libc::SIGTRAP) => Some("crash"),
        _ => None,
    }
}

/// Execute in a child process; crashes become the class "crash" or "hang".
fn exec_child(r: &Replay, dir: &Path, generate: bool, quiet: bool) -> Option<Replay> {
    let f = dir.join("cand");
    let out = dir.join("cand.out");
    let log = dir.join("cand.log");
    r.write(&f).ok()?;
    let _ = std::fs::remove_file(&out);
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("exec").arg(&f).arg("--out").arg(&out).arg("--crashlog").arg(&log);
    if generate {
        c.arg("--generate");
    }
    if quiet {
        c.arg("--quiet");
    }
    let st = c.stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?;
    if let Some(class) = exit_class(st) {
        let sh = Shared::open(&log, 1 << 22);
        let n = sh.get(0) as usize;
        let mut streams: [Vec<u64>; 3] = Default::default();
        for k in 0..n {
            streams[sh.get(1 + 2 * k) as usize % 3].push(sh.get(2 + 2 * k));
        }
        return Some(Replay {
            class: class.to_string(),
            message: format!("the process died in this run ({})", st),
            streams,
            trace: Vec::new(),
            ..r.clone()
        });
    }
    if !st.success() {
        return None;
    }
    Replay::read(&out).ok()
}

// ---------------------------------------------------------------- shrink

struct Shrinker<'a> {
    p: &'static Prop,
    best: Replay,
    child: Option<&'a Path>,
    tries: u64,
    deadline: Instant,
}

impl Shrinker<'_> {
    fn size(s: &[Vec<u64>; 3]) -> (usize, u128) {
        (s.iter().map(|v| v.len()).sum(), s.iter().flatten().map(|&x| x as u128).sum())
    }
    fn attempt(&mut self, mut streams: [Vec<u64>; 3]) -> bool {
        if Instant::now() >= self.deadline {
            return false;
        }
        for s in streams.iter_mut() {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
        if Self::size(&streams) >= Self::size(&self.best.streams) {
            return false;
        }
        self.tries += 1;
        let cand = Replay { streams: streams.clone(), ..self.best.clone() };
        let (class, message) = match self.child {
            Some(dir) => match exec_child(&cand, dir, false, true) {
                Some(r) => (r.class, r.message),
                None => return false,
            },
            None => {
                arm_hang_timer(HANG_CPU_S);
                let r = execute(self.p, &cand.tier, Choices::replay(streams.clone()), 0, false);
                match r.violation {
                    Some(v) => (v.class, v.message),
                    None => return false,
                }
            }
        };
        if class != self.best.class {
            return false;
        }
        self.best.streams = streams;
        self.best.message = message;
        true
    }

    fn pass(&mut self) -> bool {
        let mut any = false;
        for k in [0usize, 2, 1] {
            // drop the tail
            let mut keep = 0;
            while keep < self.best.streams[k].len() {
                let mut s = self.best.streams.clone();
                s[k].truncate(keep);
                if self.attempt(s) {
                    any = true;
                    break;
                }
                keep = (keep * 2).max(keep + 1);
            }
            // remove, then zero, chunks
            for zero in [false, true] {
                let mut size = (self.best.streams[k].len() / 2).max(1);
                loop {
                    let mut at = 0;
                    while at < self.best.streams[k].len() {
                        let mut s = self.best.streams.clone();
                        let end = (at + size).min(s[k].len());
                        if zero {
                            s[k][at..end].iter_mut().for_each(|x| *x = 0);
                        } else {
                            s[k].drain(at..end);
                        }
                        if self.attempt(s) {
                            any = true;
                            if zero {
                                at += size;
                            }
                        } else {
                            at += size;
                        }
                        if Instant::now() >= self.deadline {
                            return any;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
            }
            // lower single values
            let mut at = 0;
            while at < self.best.streams[k].len() {
                let v = self.best.streams[k][at];
                for lower in [v / 2, v.saturating_sub(1)] {
                    if lower < v {
                        let mut s = self.best.streams.clone();
                        s[k][at] = lower;
                        if self.attempt(s) {
                            any = true;
                            break;
                        }
                    }
                }
                at += 1;
                if Instant::now() >= self.deadline {
                    return any;
                }
            }
        }
        any
    }
}

/// `shrink FILE --out FILE --ms N [--child DIR]`
pub fn shrink_cmd(args: &[String]) -> i32 {
    let r = Replay::read(Path::new(&args[0])).expect("replay file");
    let out = PathBuf::from(opt(args, "--out").unwrap());
    let dir = opt(args, "--child").map(PathBuf::from);
    simrt::install_panic_hook();
    limit_memory();
    let p = prop(&r.property);
    let mut s = Shrinker {
        p,
        best: r,
        child: dir.as_deref(),
        tries: 0,
        deadline: Instant::now() + Duration::from_millis(num(args, "--ms", 20_000)),
    };
    let start = s.best.clone();
    while Instant::now() < s.deadline && s.pass() {
        s.best.write(&out).unwrap();
    }
    s.best.write(&out).unwrap();
    eprintln!(
        "minimised {:?} -> {:?} choices in {} attempts",
        start.streams.iter().map(|v| v.len()).collect::<Vec<_>>(),
        s.best.streams.iter().map(|v| v.len()).collect::<Vec<_>>(),
        s.tries
    );
    0
}

// ----------------------------------------------------------------- check

struct Totals {
    done: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    nontrivial: u64,
    counters: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    foreign: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    samples: Vec<(u64, Vec<String>)>,
}

fn read_result(path: &Path, t: &mut Totals) -> Option<Replay> {
    let text = std::fs::read_to_string(path).ok()?;
    let mut viol = None;
    for line in text.lines() {
        let (k, v) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "done" => {
                let n: Vec<u64> = v.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
                t.done += n[0];
                t.steps += n[1];
                t.switches += n[2];
                t.sim_ns += n[3];
                t.nontrivial += n[4];
            }
            "count" | "known" | "foreign" => {
                let (n, name) = v.split_once(' ').unwrap();
                let m = match k {
                    "count" => &mut t.counters,
                    "known" => &mut t.known,
                    _ => &mut t.foreign,
                };
                *m.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
            }
            "samplerun" => t.samples.push((v.parse().unwrap_or(0), Vec::new())),
            "sample" => t.samples.last_mut().unwrap().1.push(v.to_string()),
            "hashes" => t.hashes.extend(v.split(' ').filter_map(|h| u64::from_str_radix(h, 16).ok())),
            "violation" => viol = Replay::read(Path::new(v)).ok(),
            _ => {}
        }
    }
    viol
}

pub fn check(args: &[String]) -> i32 {
    let p = prop(args.first().map(|s| s.as_str()).unwrap_or(""));
    let tier = opt(args, "--tier").map(|s| s.to_string()).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = opt(args, "--seed")
        .map(|s| s.to_string())
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1);
    let thorough = tier == "thorough";
    let runs = num(args, "--runs", if thorough { p.runs_thorough } else { p.runs_quick });
    let ms = num(args, "--ms", if thorough { 600_000 } else { 90_000 });
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16);
    let workers = num(args, "--workers", cores.min(runs).max(1));
    println!("{}: {} runs, seed {}, tier {}, {} workers", p.id, runs, seed, tier, workers);
    let start = Instant::now();
    let dir = work_dir();
    let exe = std::env::current_exe().unwrap();

    struct W {
        child: Child,
        out: PathBuf,
        shared: Shared,
    }
    let mut ws: Vec<Option<W>> = Vec::new();
    for w in 0..workers {
        let out = dir.join(format!("w{}", w));
        let sh = dir.join(format!("w{}.shared", w));
        let shared = Shared::open(&sh, 16);
        let child = Command::new(&exe)
            .args(["worker", "--property", p.id, "--tier", &tier])
            .args(["--seed", &seed.to_string(), "--worker", &w.to_string(), "--workers", &workers.to_string()])
            .args(["--runs", &runs.to_string(), "--ms", &ms.to_string()])
            .arg("--out")
            .arg(&out)
            .arg("--shared")
            .arg(&sh)
            .stdin(Stdio::null())
            .spawn()
            .expect("worker");
        ws.push(Some(W { child, out, shared }));
    }
    let mut t = Totals {
        done: 0,
        steps: 0,
        switches: 0,
        sim_ns: 0,
        nontrivial: 0,
        counters: BTreeMap::new(),
        known: BTreeMap::new(),
        foreign: BTreeMap::new(),
        hashes: BTreeSet::new(),
        samples: Vec::new(),
    };
    let known: Vec<Known> = read_known(&known_file()).into_iter().filter(|k| k.property == p.id).collect();
    let mut violations: Vec<Replay> = Vec::new();
    let mut errors = Vec::new();
    while ws.iter().any(|w| w.is_some()) {
        for slot in ws.iter_mut() {
            let st = match slot {
                Some(w) => w.child.try_wait().expect("wait"),
                None => continue,
            };
            if let Some(st) = st {
                let w = slot.take().unwrap();
                if st.success() && w.shared.get(1) == 1 {
                    if let Some(v) = read_result(&w.out, &mut t) {
                        violations.push(v);
                    }
                } else if let (Some(class), n) = (exit_class(st), w.shared.get(0)) {
                    if n > 0 {
                        violations.push(Replay {
                            property: p.id.into(),
                            class: class.into(),
                            tier: tier.clone(),
                            seed,
                            run: n - 1,
                            ..Default::default()
                        });
                    } else {
                        errors.push(format!("worker died before its first run: {}", st));
                    }
                } else {
                    errors.push(format!("worker ended with {} in run {}", st, w.shared.get(0)));
                }
            }
        }
        if !violations.is_empty() {
            for slot in ws.iter_mut() {
                if let Some(mut w) = slot.take() {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    if let Some(v) = read_result(&w.out, &mut t) {
                        violations.push(v);
                    }
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let mut code = 0;
    let mut alarm = None;
    if !violations.is_empty() {
        violations.sort_by_key(|v| v.run);
        // confirm in a fresh process, then minimise
        for v in violations.iter() {
            let generated = v.streams.iter().all(|s| s.is_empty());
            match exec_child(v, &dir, generated, true) {
                Some(r) if !r.class.is_empty() => {
                    if r.class == v.class || generated {
                        if known.iter().any(|k| k.class == r.class) {
                            continue;
                        }
                        alarm = Some(r);
                        break;
                    }
                    errors.push(format!("run {}: class {} replayed as {}", v.run, v.class, r.class));
                }
                _ => errors.push(format!("run {}: violation {} ({}) did not replay", v.run, v.class, v.message)),
            }
        }
    }
    if let Some(a) = &alarm {
        let crashy = a.class == "crash" || a.class == "hang";
        let full = dir.join("full");
        a.write(&full).unwrap();
        let min = dir.join("min");
        let budget = if a.class == "hang" { 60_000 } else { 25_000 };
        let mut c = Command::new(&exe);
        c.arg("shrink").arg(&full).arg("--out").arg(&min).args(["--ms", &budget.to_string()]);
        if crashy {
            c.arg("--child").arg(&dir);
        }
        let ok = c.status().map(|s| s.success()).unwrap_or(false);
        let mut best = a.clone();
        if ok || min.exists() {
            if let Ok(m) = Replay::read(&min) {
                best = m;
            }
        }
        // final execution for message and trace; must reproduce
        match exec_child(&best, &dir, false, false) {
            Some(r) if r.class == a.class => {
                best.message = r.message;
                best.trace = r.trace;
            }
            _ => best = a.clone(),
        }
        let path = verif_dir().join("replays").join(format!("{}-{}-{}.replay", p.id, seed, a.run));
        best.write(&path).expect("write replay");
        println!("violation of {} in run {} of seed {}: {}", p.id, a.run, seed, best.class);
        println!("  {}", best.message);
        for l in best.trace.iter().rev().take(40).rev() {
            println!("  | {}", l);
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if !errors.is_empty() {
        code = 3;
    }
    for e in &errors {
        eprintln!("harness error: {}", e);
    }
    for k in &known {
        let n = t.known.get(&k.class).copied().unwrap_or(0);
        if code == 0 {
            println!("KNOWN-FINDING: property={} {} [{}; reached in {} of {} runs]", p.id, k.text, k.class, n, t.done);
        }
    }
    for (f, n) in &t.foreign {
        println!("note: {} run(s) ended early with '{}', which belongs to another property", n, f);
    }
    let wall = start.elapsed().as_secs_f64();
    write_evidence(p, &tier, seed, wall, &t, &known, alarm.is_some() as u64, workers);
    println!(
        "{}: {} runs in {:.1}s ({:.0} runs/hour), {} distinct executions, {:.3}s simulated, {}",
        p.id,
        t.done,
        wall,
        t.done as f64 / wall * 3600.0,
        t.hashes.len(),
        t.sim_ns as f64 / 1e9,
        if code == 0 { "no violation" } else { "FAILED" }
    );
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, wall: f64, t: &Totals, known: &[Known], violations: u64, workers: u64) {
    let pick = |prefix: &str| {
        J::O(t.counters
            .iter()
            .filter(|(k, _)| k.starts_with(prefix))
            .map(|(k, v)| (k[prefix.len()..].to_string(), J::I(*v as i64)))
            .collect())
    };
    let samples = t
        .samples
        .iter()
        .take(3)
        .map(|(i, l)| J::O(vec![("run".into(), J::I(*i as i64)), ("events".into(), J::strings(l.iter().map(|s| s.as_str())))]))
        .collect();
    let cov = vec![
        ("evaluations".to_string(), J::I(t.done as i64)),
        ("distinct_nontrivial".into(), J::I(t.hashes.len() as i64)),
        ("rule".into(), J::s(format!(
            "one evaluation = one simulated run generated from (seed, property, run number); non-trivial when {}; two runs are distinct when the 64-bit fingerprints of their full event sequences (scheduling decisions at every synchronisation point, timers, faults, operations and their results) differ",
            p.nontrivial
        ))),
        ("samples".into(), J::A(samples)),
        ("runs_per_hour".into(), J::I((t.done as f64 / wall.max(0.001) * 3600.0) as i64)),
        ("seeds_per_hour".into(), J::I((t.done as f64 / wall.max(0.001) * 3600.0) as i64)),
        ("nontrivial_runs".into(), J::I(t.nontrivial as i64)),
        ("simulated_seconds".into(), J::F(t.sim_ns as f64 / 1e9)),
        ("scheduler_steps".into(), J::I(t.steps as i64)),
        ("preemptions".into(), J::I(t.switches as i64)),
        ("faults_injected".into(), pick("fault.")),
        ("reach_probes".into(), pick("probe.")),
        ("seam_events".into(), pick("seam.")),
        ("operations".into(), pick("op.")),
        ("known_findings_reached".into(), J::O(
            known.iter().map(|k| (k.class.clone(), J::I(t.known.get(&k.class).copied().unwrap_or(0) as i64))).collect())),
        ("runs_ended_by_other_properties".into(), J::O(t.foreign.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())),
        ("ran_real_code".into(), J::strings(p.real.iter().copied())),
        ("ran_stub".into(), J::strings(p.stub.iter().copied())),
        ("workers".into(), J::I(workers as i64)),
    ];
    let doc = J::O(vec![
        ("property".into(), J::s(p.id)),
        ("tier".into(), J::s(tier)),
        ("seed".into(), J::I(seed as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), J::O(cov)),
        ("assumptions".into(), J::strings(p.assumptions.iter().copied())),
        ("wall_s".into(), J::F(wall)),
        ("violations".into(), J::I(violations as i64)),
        ("complete".into(), J::B(true)),
    ]);
    let mut s = String::new();
    doc.render(0, &mut s);
    s.push('\n');
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), s).expect("write evidence");
}

// ---------------------------------------------------------------- replay

pub fn replay(args: &[String]) -> i32 {
    let path = Path::new(&args[0]);
    let r = match Replay::read(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {}: {}", path.display(), e);
            return 2;
        }
    };
    let dir = work_dir();
    let res = exec_child(&r, &dir, false, false);
    let _ = std::fs::remove_dir_all(&dir);
    match res {
        Some(o) => {
            for l in &o.trace {
                println!("{}", l);
            }
            if o.class.is_empty() {
                println!("no violation in this execution (recorded: {})", r.class);
                0
            } else {
                println!("{}: {}", o.class, o.message);
                if o.class != r.class {
                    println!("note: recorded class was {}", r.class);
                }
                println!("VIOLATION property={} replay={}", r.property, path.display());
                1
            }
        }
        None => {
            eprintln!("harness error while replaying");
            3
        }
    }
}

pub fn trace(args: &[String]) -> i32 {
    let p = prop(&args[0]);
    let seed = num(args, "--seed", 1);
    let run = num(args, "--run", 0);
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    simrt::install_panic_hook();
    let s = run_seed(seed, p.id, run);
    let r = execute(p, &tier, Choices::generate(s), s, true);
    for l in &r.trace {
        println!("{}", l);
    }
    println!("{:?}", r.counters);
    println!("hash {:x} steps {} switches {} choices {:?}", r.hash, r.steps, r.switches, r.streams.iter().map(|s| s.len()).collect::<Vec<_>>());
    if let Some(v) = r.violation {
        println!("{}: {}", v.class, v.message);
    }
    0
}

// ----------------------------------------------------------- determinism

/// `digest PROP --seed S --first A --count N`: one line per run, used by selftest.
pub fn digest(args: &[String]) -> i32 {
    let p = prop(&args[0]);
    let seed = num(args, "--seed", 1);
    let first = num(args, "--first", 0);
    let count = num(args, "--count", 10);
    let stride = num(args, "--stride", 1);
    simrt::install_panic_hook();
    limit_memory();
    let mut i = first;
    for _ in 0..count {
        let s = run_seed(seed, p.id, i);
        let r = execute(p, "quick", Choices::generate(s), s, true);
        let mut h = r.hash;
        for l in &r.trace {
            for b in l.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
        for s in &r.streams {
            for v in s {
                h = mix64(h ^ *v);
            }
        }
        let class = r.violation.map(|v| v.class).unwrap_or_default();
        // the same run from its recorded streams must be the same execution
        let r2 = execute(p, "quick", Choices::replay(r.streams.clone()), 0, true);
        let same = r2.hash == r.hash && r2.trace == r.trace && r2.streams == r.streams;
        println!("{} {:016x} {} {} {}", i, h, r.steps, if same { "replays" } else { "DIVERGES" }, class);
        i += stride;
    }
    0
}

pub fn selftest(args: &[String]) -> i32 {
    let runs = num(args, "--runs", 200);
    let seed = num(args, "--seed", 1);
    let only = opt(args, "--property");
    let exe = std::env::current_exe().unwrap();
    let get = |p: &str, first: u64, count: u64, stride: u64| -> Vec<String> {
        let o = Command::new(&exe)
            .args(["digest", p, "--seed", &seed.to_string(), "--first", &first.to_string()])
            .args(["--count", &count.to_string(), "--stride", &stride.to_string()])
            .output()
            .expect("digest");
        if !o.status.success() {
            println!("{}: digest process ended with {} (stride {} first {})", p, o.status, stride, first);
        }
        String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect()
    };
    let mut bad = 0;
    for p in PROPS.iter().filter(|p| only.map_or(true, |o| o == p.id)) {
        let a = get(p.id, 0, runs, 1);
        // again, in other processes, in another order of execution, several at a time
        let k = 5;
        let parts: Vec<Vec<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..k).map(|w| s.spawn(move || get(p.id, w, (runs + k - 1 - w) / k, k))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut b: Vec<String> = parts.into_iter().flatten().collect();
        b.sort_by_key(|l| l.split(' ').next().unwrap().parse::<u64>().unwrap_or(0));
        let diverge = a.iter().filter(|l| l.contains("DIVERGES")).count();
        let same = a == b && a.len() as u64 == runs;
        println!("{}: {} runs executed twice in {} processes: {}, {} diverged on replay", p.id, a.len(), k + 1, if same { "identical" } else { "DIFFERENT" }, diverge);
        if !same {
            for (x, y) in a.iter().zip(b.iter()).filter(|(x, y)| x != y).take(3) {
                println!("   {}\n   {}", x, y);
            }
        }
        if !same || diverge > 0 {
            bad += 1;
        }
    }
    if bad > 0 {
        1
    } else {
        0
    }
}
