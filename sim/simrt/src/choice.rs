//! The three recorded choice streams that determine a run.
use crate::rng::{mix64, Rng};

#[derive(Clone, Copy)]
pub enum Stream {
    Plan = 0,
    Sched = 1,
    Fault = 2,
}

enum Source {
    Generate([Rng; 3]),
    Replay([Vec<u64>; 3]),
}

/// Shared-memory log so that a crashing process leaves its choices behind:
/// word 0 = number of entries, then pairs (stream, value).
#[derive(Clone, Copy)]
pub struct CrashLog {
    pub base: *mut u64,
    pub words: usize,
}
unsafe impl Send for CrashLog {}

pub struct Choices {
    source: Source,
    taken: [Vec<u64>; 3],
    crash_log: Option<CrashLog>,
}

impl Choices {
    pub fn generate(seed: u64) -> Choices {
        let r = |k: u64| Rng::new(mix64(seed ^ mix64(k)));
        Choices { source: Source::Generate([r(1), r(2), r(3)]), taken: Default::default(), crash_log: None }
    }

    pub fn replay(streams: [Vec<u64>; 3]) -> Choices {
        Choices { source: Source::Replay(streams), taken: Default::default(), crash_log: None }
    }

    pub fn with_crash_log(mut self, log: CrashLog) -> Choices {
        unsafe { *log.base = 0 };
        self.crash_log = Some(log);
        self
    }

    /// A value in 0..n (n = 0: any u64).  Beyond the end of a recording the
    /// answer is 0, which is the simplest choice everywhere.
    pub fn draw(&mut self, stream: Stream, n: u64, generate: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let _m = crate::mem::uncounted();
        let k = stream as usize;
        let v = match &mut self.source {
            Source::Generate(r) => generate(&mut r[k]),
            Source::Replay(s) => {
                let i = self.taken[k].len();
                s[k].get(i).copied().unwrap_or(0)
            }
        };
        let v = if n > 0 { v % n } else { v };
        self.taken[k].push(v);
        if let Some(log) = self.crash_log {
            unsafe {
                let len = *log.base as usize;
                if 1 + 2 * (len + 1) <= log.words {
                    *log.base.add(1 + 2 * len) = k as u64;
                    *log.base.add(2 + 2 * len) = v;
                    std::ptr::write_volatile(log.base, (len + 1) as u64);
                }
            }
        }
        v
    }

    pub fn take(&mut self) -> [Vec<u64>; 3] {
        std::mem::take(&mut self.taken)
    }
}
