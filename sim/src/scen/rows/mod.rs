//! C16..C20: rows on pages.
//!
//! `shared` runs tasks that edit shared pages through the page cache (C16,
//! C17), `restart` carries marshalled rows from one simulated process to the
//! next (C18), `damage` tears and flips stored rows and pages (C19, C20).
pub mod arena;
pub mod damage;
pub mod history;
pub mod restart;
pub mod shared;

pub use super::Cx;

pub const HISTORY: &str = "rows-not-one-by-one";
pub const UNSTABLE: &str = "rows-change-under-handle";
pub const SPACE_REFUSED: &str = "advertised-space-refused";
pub const SPACE_DAMAGE: &str = "row-damaged-other-rows";
pub const SPACE_EXCESS: &str = "excess-row-not-refused-cleanly";
pub const SPACE_HISTORY: &str = "space-depends-on-history";
pub const ROW_LOST: &str = "row-lost";
pub const SIZE: &str = "announced-size-differs";
pub const VALUE: &str = "row-decoded-to-another-value";
pub const NONDET: &str = "equal-values-decode-differently";
pub const OUTSIDE: &str = "depends-on-bytes-outside";
pub const INVALID: &str = "invalid-value-returned";
pub const WROTE_OUTSIDE: &str = "bytes-outside-changed";
pub const SHORT_DEST: &str = "short-destination-accepted";
pub const NEIGHBOUR: &str = "neighbour-page-changed";
pub const NO_SUCH_ROW: &str = "missing-row-not-refused-cleanly";
pub const STUCK: &str = "rows-stuck";

pub fn run(cx: &Cx) {
    match cx.property {
        "C16" if simrt::plan(1000) == 1 => shared::many_rows(HISTORY),
        "C17" if simrt::plan(1000) == 1 => shared::many_rows(SPACE_DAMAGE),
        "C16" => shared::run(cx, false),
        "C17" => shared::run(cx, true),
        "C18" if simrt::plan(1200) == 1 => restart::many_cases(),
        "C18" => restart::run(cx),
        "C19" => damage::rows(cx),
        _ => damage::pages(cx),
    }
}

/// Fingerprint for the event hash.
pub fn fp(b: &[u8]) -> u64 {
    b.iter().fold(b.len() as u64, |h, x| h.wrapping_mul(0x100_0000_01b3) ^ *x as u64)
}

pub fn show(b: &[u8]) -> String {
    let mut s = b.iter().take(16).map(|x| format!("{:02x}", x)).collect::<Vec<_>>().join("");
    if b.len() > 16 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    if b.is_empty() {
        s.push_str("(empty)");
    }
    s
}

pub fn finish_tasks(what: &str) -> bool {
    match simrt::run_tasks() {
        simrt::Outcome::Done => true,
        simrt::Outcome::Halted => false,
        simrt::Outcome::Stuck(s) => {
            simrt::fail(STUCK, format!("{}: tasks wait for ever: {:?}", what, s));
            false
        }
    }
}
