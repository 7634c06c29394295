//! Deterministic single-threaded simulator.
//!
//! One run = one OS thread = one `Sim`.  Tasks are stackful coroutines, so the
//! scheduler may switch at every synchronisation operation of the code under
//! test, including those inside `Drop`.  Every decision (generated workload,
//! schedule, fault) is drawn through one of three recorded choice streams; a
//! run is a pure function of those streams.
pub mod choice;
pub mod mem;
pub mod rng;

use choice::{Choices, Stream};
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use rng::Rng;
use std::cell::Cell;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;
const NOBODY: TaskId = usize::MAX;
const STACK: usize = 192 * 1024;

/// How the generator picks the next task.  Only used while generating; a
/// replay follows the recorded values.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Policy {
    /// at each scheduling point switch with this probability, to a random task
    Random(f64),
    /// priorities with occasional demotion of the running task
    Pct(f64),
    /// never switch unless blocked; then round robin
    Sequential,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub message: String,
}

struct TaskWaker {
    id: TaskId,
    run: u64,
    woken: AtomicBool,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if let Some(sim) = sim_opt() {
            if sim.run_no == self.run && self.id < sim.tasks.len() {
                sim.tasks[self.id].runnable = true;
            }
        }
    }
}

struct Task {
    name: String,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    waker: Arc<TaskWaker>,
    runnable: bool,
    done: bool,
    /// an expected panic is on its way to the catch() that waits for it
    unwinding: bool,
    priority: u64,
    blocked_on: &'static str,
}

struct Timer {
    at: u64,
    seq: u64,
    waker: Waker,
}
impl PartialEq for Timer {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Timer {}
impl PartialOrd for Timer {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timer {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct Wall {
    /// nanoseconds since the epoch when the run started
    pub base_ns: i128,
    /// chance (in 1/1000) that the clock is stepped before a reading
    pub jump_permille: u64,
    /// every reading handed out, as (seconds, nanoseconds)
    pub readings: Vec<(i64, u32)>,
    pub max_ns: i128,
}

pub struct Sim {
    run_no: u64,
    tasks: Vec<Task>,
    free_stacks: Vec<DefaultStack>,
    current: TaskId,
    last: TaskId,
    next: Option<TaskId>,
    now: u64,
    timers: BinaryHeap<Timer>,
    timer_seq: u64,
    pub choices: Choices,
    gen_rng: Rng,
    policy: Policy,
    steps: u64,
    step_cap: u64,
    switches: u64,
    hash: u64,
    halted: bool,
    violation: Option<Violation>,
    counters: BTreeMap<&'static str, u64>,
    trace: Option<Vec<String>>,
    wall: Wall,
    entropy: Rng,
    entropy_used: u64,
    faults_on: bool,
    low_priority: u64,
}

thread_local! {
    static SIM: Cell<*mut Sim> = const { Cell::new(std::ptr::null_mut()) };
    static EXPECT_PANIC: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn sim_opt() -> Option<&'static mut Sim> {
    let p = SIM.with(|s| s.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn sim() -> &'static mut Sim {
    sim_opt().expect("not inside a simulated run")
}

pub fn active() -> bool {
    !SIM.with(|s| s.get()).is_null()
}

pub fn in_task() -> bool {
    sim_opt().map_or(false, |s| s.current != NOBODY)
}

pub struct RunReport {
    pub violation: Option<Violation>,
    pub counters: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub trace: Vec<String>,
    pub streams: [Vec<u64>; 3],
}

pub struct RunConfig {
    pub choices: Choices,
    pub gen_seed: u64,
    pub trace: bool,
    pub step_cap: u64,
}

static RUN_NO: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

/// Execute one run on this thread.
pub fn run(cfg: RunConfig, body: impl FnOnce()) -> RunReport {
    let mut gen_rng = Rng::new(rng::mix64(cfg.gen_seed ^ 0x5eed));
    let policy = match gen_rng.below(8) {
        0 => Policy::Sequential,
        1 => Policy::Random(0.02),
        2 => Policy::Random(0.1),
        3 | 4 => Policy::Random(0.3),
        5 => Policy::Random(0.6),
        6 => Policy::Pct(0.01),
        _ => Policy::Pct(0.06),
    };
    let mut sim = Box::new(Sim {
        run_no: RUN_NO.fetch_add(1, Ordering::Relaxed),
        tasks: Vec::new(),
        free_stacks: Vec::new(),
        current: NOBODY,
        last: NOBODY,
        next: None,
        now: 0,
        timers: BinaryHeap::new(),
        timer_seq: 0,
        choices: cfg.choices,
        gen_rng,
        policy,
        steps: 0,
        step_cap: cfg.step_cap,
        switches: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        halted: false,
        violation: None,
        counters: BTreeMap::new(),
        trace: if cfg.trace { Some(Vec::new()) } else { None },
        wall: Wall {
            base_ns: 1_700_000_000_000_000_000,
            jump_permille: 0,
            readings: Vec::new(),
            max_ns: ((1i128 << 48) - 1) * 1_000_000_000,
        },
        entropy: Rng::new(0),
        entropy_used: 0,
        faults_on: true,
        low_priority: 1 << 20,
    });
    mem::reset();
    SIM.with(|s| s.set(&mut *sim));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    if r.is_err() && sim.violation.is_none() {
        let msg = last_panic();
        sim.violation = Some(Violation { class: format!("panic: {}", clip(&msg)), message: msg });
    }
    // tasks that never finished: discard their stacks without unwinding
    for t in sim.tasks.iter_mut() {
        if let Some(mut co) = t.co.take() {
            unsafe { co.force_reset() };
            drop(co);
        }
    }
    sim.timers.clear();
    SIM.with(|s| s.set(std::ptr::null_mut()));
    let mut sim = *sim;
    RunReport {
        violation: sim.violation,
        counters: sim.counters,
        steps: sim.steps,
        switches: sim.switches,
        sim_ns: sim.now,
        hash: sim.hash,
        trace: sim.trace.unwrap_or_default(),
        streams: sim.choices.take(),
    }
}

/// Addresses differ from process to process: a run must not depend on them.
fn no_addresses(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("0x") {
        let tail = &rest[i + 2..];
        let n = tail.chars().take_while(|c| c.is_ascii_hexdigit()).count();
        out.push_str(&rest[..i]);
        out.push_str(if n >= 4 { "<address>" } else { &rest[i..i + 2 + n] });
        rest = &tail[n..];
    }
    out.push_str(rest);
    out
}

fn clip(s: &str) -> String {
    // drop digits so that the class does not depend on sizes
    let mut out: String = s.chars().filter(|c| !c.is_ascii_digit()).take(90).collect();
    if let Some(i) = out.find('\n') {
        out.truncate(i);
    }
    out.trim().to_string()
}

// ---------------------------------------------------------------- panics

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Install once per process.  An unexpected panic inside a task is recorded as
/// a violation and the task is frozen where it stands (no unwinding, so no
/// double panic from handles that are still open).
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _m = mem::uncounted();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if !active() {
            eprintln!("harness panic: {}{}", msg, loc);
            return;
        }
        let msg = no_addresses(&msg);
        if std::thread::panicking() && std::env::var_os("DST_PANICS").is_some() {
            eprintln!("panic: {}{}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
        if EXPECT_PANIC.with(|e| e.get()) > 0 {
            set_unwinding(true);
            return;
        }
        if in_task() {
            fail(&format!("panic: {}", clip(&msg)), format!("the code panicked: {}{}", msg, loc));
        }
    }));
}

/// Run `f`, treating a panic as an ordinary outcome.
fn set_unwinding(on: bool) {
    if let Some(s) = sim_opt() {
        if s.current != NOBODY {
            s.tasks[s.current].unwinding = on;
        }
    }
}

/// Is the current task unwinding?  Other tasks may run meanwhile, so the flag
/// of the thread says nothing.
fn unwinding(s: &Sim) -> bool {
    if s.current == NOBODY {
        std::thread::panicking()
    } else {
        s.tasks[s.current].unwinding
    }
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    EXPECT_PANIC.with(|e| e.set(e.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    EXPECT_PANIC.with(|e| e.set(e.get() - 1));
    if r.is_err() {
        set_unwinding(false);
    }
    r.map_err(|_| last_panic())
}

// ------------------------------------------------------------- reporting

/// Record a violation and stop the run.  Inside a task this never returns.
pub fn fail(class: &str, message: String) {
    let _m = mem::uncounted();
    let s = sim();
    if s.violation.is_none() {
        event("violation", 0, 0);
        log(|| format!("VIOLATION {}: {}", class, message));
        s.violation = Some(Violation { class: class.to_string(), message });
    }
    s.halted = true;
    if s.current != NOBODY {
        loop {
            s.tasks[s.current].runnable = false;
            suspend();
        }
    }
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::fail($class, format!($($arg)*)); }
    };
}

pub fn failed() -> bool {
    sim().violation.is_some()
}

pub fn count(name: &'static str) {
    let _m = mem::uncounted();
    if let Some(s) = sim_opt() {
        *s.counters.entry(name).or_insert(0) += 1;
    }
}

pub fn count_n(name: &'static str, n: u64) {
    let _m = mem::uncounted();
    if let Some(s) = sim_opt() {
        *s.counters.entry(name).or_insert(0) += n;
    }
}

pub fn counter(name: &'static str) -> u64 {
    sim().counters.get(name).copied().unwrap_or(0)
}

pub fn log(f: impl FnOnce() -> String) {
    let _m = mem::uncounted();
    if let Some(s) = sim_opt() {
        if s.trace.is_some() {
            let who = if s.current == NOBODY { "-".to_string() } else { s.tasks[s.current].name.clone() };
            let line = format!("[{:>6} t={}us {}] {}", s.steps, s.now / 1000, who, f());
            s.trace.as_mut().unwrap().push(line);
        }
    }
}

/// Mix an observable event into the run's fingerprint.
pub fn event(kind: &'static str, a: u64, b: u64) {
    if let Some(s) = sim_opt() {
        let mut h = s.hash;
        for x in [kind.len() as u64 ^ ((kind.as_bytes()[0] as u64) << 8), a, b, s.current as u64] {
            h ^= x;
            h = h.wrapping_mul(0x0000_0100_0000_01b3);
            h ^= h >> 29;
        }
        s.hash = h;
    }
}

// --------------------------------------------------------------- choices

/// workload choice in 0..n
pub fn plan(n: u64) -> u64 {
    sim().choices.draw(Stream::Plan, n, |r| r.below(n))
}
pub fn plan_range(lo: u64, hi: u64) -> u64 {
    lo + plan(hi - lo + 1)
}
/// true with probability p/100; false is the simple case
pub fn plan_pct(p: u64) -> bool {
    sim().choices.draw(Stream::Plan, 2, |r| (r.below(100) < p) as u64) == 1
}
pub fn plan_u64() -> u64 {
    sim().choices.draw(Stream::Plan, 0, |r| r.next())
}
/// weighted workload choice
pub fn plan_weighted(weights: &[u64]) -> usize {
    let total: u64 = weights.iter().sum();
    sim().choices.draw(Stream::Plan, weights.len() as u64, |r| {
        let mut x = r.below(total.max(1));
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i as u64;
            }
            x -= w;
        }
        0
    }) as usize
}
/// fault choice: 0 means no fault; 1..n are fault kinds, with total chance
/// `permille`.  Draws nothing once faults have been switched off.
pub fn fault(permille: u64, n: u64) -> u64 {
    let s = sim();
    if !s.faults_on || permille == 0 {
        return 0;
    }
    s.choices.draw(Stream::Fault, n, |r| if r.below(1000) < permille { 1 + r.below(n - 1) } else { 0 })
}
pub fn fault_value(n: u64) -> u64 {
    sim().choices.draw(Stream::Fault, n, |r| r.below(n))
}
pub fn set_faults(on: bool) {
    sim().faults_on = on;
}
pub fn sched_value(n: u64) -> u64 {
    sim().choices.draw(Stream::Sched, n, |r| r.below(n))
}

// ------------------------------------------------------------ wall clock

pub fn wall() -> &'static mut Wall {
    &mut sim().wall
}

/// One reading of the simulated wall clock.
pub fn read_wall() -> (i64, u32) {
    let _m = mem::uncounted();
    let s = sim();
    if s.wall.jump_permille > 0 {
        match fault(s.wall.jump_permille, 5) {
            0 => {}
            k => {
                let mag = [1_000_000_000i128, 3_600_000_000_000, 86_400_000_000_000 * 400, 1_234_567][k as usize - 1];
                let neg = fault_value(2) == 1;
                s.wall.base_ns += if neg { -mag } else { mag };
                let lo = -(s.now as i128);
                let hi = s.wall.max_ns - s.now as i128;
                s.wall.base_ns = s.wall.base_ns.clamp(lo, hi);
                count("fault.clock_step");
            }
        }
    }
    let t = (s.wall.base_ns + s.now as i128).clamp(0, s.wall.max_ns);
    // each reading takes a little time
    s.now += 1 + (t as u64 % 7);
    let r = ((t / 1_000_000_000) as i64, (t % 1_000_000_000) as u32);
    s.wall.readings.push(r);
    count("seam.clock_reading");
    log(|| format!("clock reads {}.{:09}", r.0, r.1));
    r
}

pub fn seed_entropy(seed: u64) {
    sim().entropy = Rng::new(seed);
}

pub fn fill_entropy(buf: &mut [u8]) {
    let s = sim();
    for b in buf.iter_mut() {
        *b = s.entropy.next() as u8;
    }
    s.entropy_used += buf.len() as u64;
    count("seam.entropy_request");
}

// ----------------------------------------------------------------- tasks

pub fn spawn(name: impl Into<String>, f: impl FnOnce() + 'static) -> TaskId {
    let _m = mem::uncounted();
    let s = sim();
    let id = s.tasks.len();
    let stack = s.free_stacks.pop().unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        sim().tasks[id].yielder = y as *const _;
        f();
    });
    let priority = (1 << 30) + s.gen_rng.below(1 << 20);
    s.tasks.push(Task {
        name: name.into(),
        co: Some(co),
        yielder: std::ptr::null(),
        waker: Arc::new(TaskWaker { id, run: s.run_no, woken: AtomicBool::new(false) }),
        runnable: true,
        done: false,
        unwinding: false,
        priority,
        blocked_on: "",
    });
    id
}

pub fn current_task() -> TaskId {
    sim().current
}

pub fn is_done(id: TaskId) -> bool {
    sim().tasks[id].done
}

/// Is there a task besides the current one that has not ended?
pub fn others_alive() -> bool {
    let s = sim();
    s.tasks.iter().enumerate().any(|(i, t)| i != s.current && !t.done)
}

pub fn task_name(id: TaskId) -> String {
    sim().tasks[id].name.clone()
}

fn suspend() {
    let s = sim();
    let y = s.tasks[s.current].yielder;
    // whether a panic is expected is a property of the task, not the thread
    let expect = EXPECT_PANIC.with(|e| e.replace(0));
    let counting = mem::swap(false);
    // and so is what it panicked with
    let panic = if s.tasks[s.current].unwinding { Some(last_panic()) } else { None };
    unsafe { (*y).suspend(()) };
    if let Some(panic) = panic {
        LAST_PANIC.with(|p| *p.borrow_mut() = panic);
    }
    mem::swap(counting);
    EXPECT_PANIC.with(|e| e.set(expect));
}

/// Allow a run that is longer by nature so many times the steps of others.
pub fn allow_steps(factor: u64) {
    sim().step_cap *= factor;
}

/// A point at which the scheduler may let another task run.
pub fn preempt(kind: &'static str) {
    let _m = mem::uncounted();
    let s = match sim_opt() {
        Some(s) => s,
        None => return,
    };
    if s.current == NOBODY || unwinding(s) {
        return;
    }
    s.steps += 1;
    event(kind, 1, 0);
    if s.steps >= s.step_cap {
        fail("no-progress", format!("the run did not finish within {} scheduler steps", s.step_cap));
    }
    let me = s.current;
    let others: Vec<TaskId> = (0..s.tasks.len()).filter(|&t| t != me && s.tasks[t].runnable && !s.tasks[t].done).collect();
    let extra = !s.timers.is_empty() as usize;
    if others.is_empty() && extra == 0 {
        return;
    }
    let n = others.len() + extra + 1;
    let policy = s.effective_policy();
    let prios: Vec<u64> = others.iter().map(|&t| s.tasks[t].priority).collect();
    let my_prio = s.tasks[me].priority;
    let mut demote = false;
    let v = s.choices.draw(Stream::Sched, n as u64, |r| {
        let other = |r: &mut Rng| {
            if extra == 1 && (others.is_empty() || r.below(6) == 0) {
                (n - 1) as u64
            } else {
                1 + r.below(others.len() as u64)
            }
        };
        match policy {
            Policy::Sequential => 0,
            Policy::Random(p) => {
                let p = if others.is_empty() { p * 0.3 } else { p };
                if r.chance(p) {
                    other(r)
                } else {
                    0
                }
            }
            Policy::Pct(p) => {
                let mut mine = my_prio;
                if r.chance(p) {
                    demote = true;
                    mine = 0;
                }
                let mut best = 0;
                let mut bp = mine;
                for (i, &pr) in prios.iter().enumerate() {
                    if pr > bp {
                        bp = pr;
                        best = i as u64 + 1;
                    }
                }
                if extra == 1 && r.chance(0.03) {
                    best = (n - 1) as u64;
                }
                best
            }
        }
    });
    if demote {
        s.low_priority = s.low_priority.saturating_sub(1);
        s.tasks[me].priority = s.low_priority;
    }
    if v == 0 {
        return;
    }
    if extra == 1 && v as usize == n - 1 {
        s.fire_next_timer();
        return;
    }
    let target = others[v as usize - 1];
    s.next = Some(target);
    s.switches += 1;
    event("switch", target as u64, 0);
    suspend();
}

/// Give other tasks a turn (used by the task::yield_now of the shim).
pub fn yield_now() {
    let s = sim();
    if s.current != NOBODY {
        s.low_priority = s.low_priority.saturating_sub(1);
        let lp = s.low_priority;
        s.tasks[s.current].priority = lp;
    }
    let s = sim();
    if s.current == NOBODY {
        return;
    }
    s.steps += 1;
    if s.steps >= s.step_cap {
        fail("no-progress", format!("the run did not finish within {} scheduler steps", s.step_cap));
    }
    suspend();
}

impl Sim {
    fn effective_policy(&self) -> Policy {
        if self.steps > self.step_cap / 4 {
            // late in a long run: fair scheduling only
            Policy::Random(0.3)
        } else {
            self.policy
        }
    }

    fn fire_next_timer(&mut self) -> bool {
        match self.timers.pop() {
            None => false,
            Some(t) => {
                if t.at > self.now {
                    self.now = t.at;
                }
                event("timer", t.at, t.seq);
                t.waker.wake();
                true
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    /// every task finished
    Done,
    /// nothing can run any more, these tasks are still waiting
    Stuck(Vec<(TaskId, &'static str)>),
    /// a violation was recorded
    Halted,
}

/// Drive all tasks until nothing can run any more.
pub fn run_tasks() -> Outcome {
    loop {
        let s = sim();
        assert!(s.current == NOBODY);
        if s.halted {
            return Outcome::Halted;
        }
        let target = match s.next.take() {
            Some(t) => t,
            None => {
                // starting after the task that ran last, so that choice 0 is round robin
                let n = s.tasks.len();
                let first = s.last.wrapping_add(1);
                let ready: Vec<TaskId> =
                    (0..n).map(|i| (i + first) % n).filter(|&t| s.tasks[t].runnable && !s.tasks[t].done).collect();
                if ready.is_empty() {
                    if s.fire_next_timer() {
                        continue;
                    }
                    let stuck: Vec<_> =
                        (0..s.tasks.len()).filter(|&t| !s.tasks[t].done).map(|t| (t, s.tasks[t].blocked_on)).collect();
                    return if stuck.is_empty() { Outcome::Done } else { Outcome::Stuck(stuck) };
                }
                let policy = s.effective_policy();
                let prios: Vec<u64> = ready.iter().map(|&t| s.tasks[t].priority).collect();
                let extra = !s.timers.is_empty() as u64;
                let v = if ready.len() == 1 && extra == 0 {
                    0
                } else {
                    s.choices.draw(Stream::Sched, ready.len() as u64 + extra, |r| match policy {
                        Policy::Sequential => 0,
                        Policy::Random(_) => {
                            if extra == 1 && r.below(10) == 0 {
                                ready.len() as u64
                            } else {
                                r.below(ready.len() as u64)
                            }
                        }
                        Policy::Pct(_) => (0..prios.len()).max_by_key(|&i| prios[i]).unwrap() as u64,
                    })
                };
                if v as usize == ready.len() {
                    s.fire_next_timer();
                    continue;
                }
                ready[v as usize]
            }
        };
        let s = sim();
        s.steps += 1;
        if s.steps >= s.step_cap {
            fail("no-progress", format!("the run did not finish within {} scheduler steps", s.step_cap));
            continue;
        }
        event("run", target as u64, 0);
        s.current = target;
        s.last = target;
        let mut co = s.tasks[target].co.take().unwrap();
        let r = co.resume(());
        let s = sim();
        s.current = NOBODY;
        match r {
            CoroutineResult::Yield(()) => s.tasks[target].co = Some(co),
            CoroutineResult::Return(()) => {
                s.tasks[target].done = true;
                s.tasks[target].runnable = false;
                s.free_stacks.push(co.into_stack());
            }
        }
    }
}

pub fn waker() -> Waker {
    let s = sim();
    assert!(s.current != NOBODY, "blocking outside a task");
    Waker::from(s.tasks[s.current].waker.clone())
}

fn park(what: &'static str) {
    let s = sim();
    let me = s.current;
    if s.tasks[me].waker.woken.swap(false, Ordering::SeqCst) {
        return;
    }
    s.tasks[me].runnable = false;
    s.tasks[me].blocked_on = what;
    suspend();
    let s = sim();
    s.tasks[me].waker.woken.store(false, Ordering::SeqCst);
}

/// name of what the task waits for, shown when a run gets stuck
pub fn waiting_for(what: &'static str) {
    let s = sim();
    if s.current != NOBODY {
        s.tasks[s.current].blocked_on = what;
    }
}

/// what a suspended task waits for
pub fn blocked_on(task: TaskId) -> Option<&'static str> {
    let t = &sim().tasks[task];
    if t.runnable {
        None
    } else {
        Some(t.blocked_on)
    }
}

fn blocked_label() -> &'static str {
    let s = sim();
    s.tasks[s.current].blocked_on
}

pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = std::pin::pin!(fut);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    loop {
        sim().tasks[current_task()].waker.woken.store(false, Ordering::SeqCst);
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return v,
            Poll::Pending => park(blocked_label()),
        }
    }
}

/// How a pending access is given up.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Abandon {
    /// dropped at the n-th time it is pending
    AtPending(u32),
    /// dropped after having been woken for the n-th time, without being polled again
    AfterWake(u32),
    /// dropped when this much simulated time has passed
    Timeout(u64),
    Never,
}

/// Like block_on, but may drop the future before completion (None).
/// A panic inside the future is returned as Err.
pub fn block_on_or_abandon<F: Future>(fut: F, mode: Abandon) -> Result<Option<F::Output>, String> {
    let mut fut: Pin<Box<F>> = Box::pin(fut);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let deadline = match mode {
        Abandon::Timeout(d) => {
            let at = sim().now + d;
            add_timer(at, w.clone());
            Some(at)
        }
        _ => None,
    };
    let mut pendings = 0;
    loop {
        sim().tasks[current_task()].waker.woken.store(false, Ordering::SeqCst);
        match catch(|| fut.as_mut().poll(&mut cx)) {
            Err(e) => {
                // the future is in its poisoned state and holds nothing
                let _ = catch(move || drop(fut));
                return Err(e);
            }
            Ok(Poll::Ready(v)) => return Ok(Some(v)),
            Ok(Poll::Pending) => {
                pendings += 1;
                if mode == Abandon::AtPending(pendings) {
                    drop(fut);
                    return Ok(None);
                }
                park(blocked_label());
                if mode == Abandon::AfterWake(pendings) {
                    drop(fut);
                    return Ok(None);
                }
                if let Some(at) = deadline {
                    if sim().now >= at {
                        drop(fut);
                        return Ok(None);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ time

pub fn now() -> u64 {
    sim().now
}

fn add_timer(at: u64, waker: Waker) {
    let _m = mem::uncounted();
    let s = sim();
    s.timer_seq += 1;
    let seq = s.timer_seq;
    s.timers.push(Timer { at, seq, waker });
}

pub struct Sleep {
    at: u64,
    armed: bool,
}

pub fn sleep(ns: u64) -> Sleep {
    Sleep { at: sim().now + ns, armed: false }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if sim().now >= self.at {
            return Poll::Ready(());
        }
        // re-arm on every poll: the waker may have changed or been used up
        self.armed = true;
        add_timer(self.at, cx.waker().clone());
        waiting_for("a timer");
        Poll::Pending
    }
}
