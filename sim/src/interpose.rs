//! The harness executable defines the C entry points through which the standard
//! library and the uuid crate reach the clock and the random number generator.
//! Inside a simulated run they answer from the simulator; outside they make the
//! real system call.
use std::arch::asm;

#[inline]
unsafe fn raw_syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn finish(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if simrt::active() {
        if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            let (s, n) = simrt::read_wall();
            (*tp).tv_sec = s;
            (*tp).tv_nsec = n as i64;
        } else {
            let t = simrt::now();
            (*tp).tv_sec = (t / 1_000_000_000) as i64;
            (*tp).tv_nsec = (t % 1_000_000_000) as i64;
        }
        return 0;
    }
    finish(raw_syscall6(libc::SYS_clock_gettime, clk as i64, tp as i64, 0, 0, 0, 0)) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if simrt::active() {
        if buf.is_null() || len == 0 {
            return 0;
        }
        simrt::fill_entropy(std::slice::from_raw_parts_mut(buf as *mut u8, len));
        return len as libc::ssize_t;
    }
    finish(raw_syscall6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as libc::ssize_t
}

/// libc's variadic `syscall`; integer arguments are passed in the same registers.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> libc::c_long {
    if n == libc::SYS_getrandom && simrt::active() {
        // a request for nothing only asks if the call exists
        if a == 0 || b == 0 {
            return 0;
        }
        simrt::fill_entropy(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
        return b;
    }
    finish(raw_syscall6(n, a, b, c, d, e, f))
}

/// The simulated path that a C string names, if it is one.
unsafe fn simulated(p: *const libc::c_char) -> Option<std::path::PathBuf> {
    if p.is_null() || !simrt::active() {
        return None;
    }
    let s = std::ffi::CStr::from_ptr(p).to_str().ok()?;
    s.starts_with("/simulated/").then(|| std::path::PathBuf::from(s))
}

unsafe fn answer(r: std::io::Result<()>) -> libc::c_int {
    match r {
        Ok(()) => 0,
        Err(e) => {
            *libc::__errno_location() = e.raw_os_error().unwrap_or(5);
            -1
        }
    }
}

/// `std::path::Path::exists`, `std::fs::metadata` and the like
#[no_mangle]
pub unsafe extern "C" fn statx(dir: libc::c_int, p: *const libc::c_char, flags: libc::c_int, mask: libc::c_uint, out: *mut libc::statx) -> libc::c_int {
    use async_std::fs::sim;
    let Some(path) = simulated(p) else {
        return finish(raw_syscall6(libc::SYS_statx, dir as i64, p as i64, flags as i64, mask as i64, out as i64, 0)) as libc::c_int;
    };
    simrt::preempt("fs.stat");
    let path = if flags & libc::AT_SYMLINK_NOFOLLOW != 0 { path } else { sim::follow(&path) };
    let Some(kind) = sim::kind(&path) else {
        *libc::__errno_location() = libc::ENOENT;
        return -1;
    };
    std::ptr::write_bytes(out, 0, 1);
    (*out).stx_mask = libc::STATX_BASIC_STATS;
    (*out).stx_mode = match kind {
        'd' => libc::S_IFDIR | 0o755,
        'l' => libc::S_IFLNK | 0o777,
        _ => libc::S_IFREG | 0o644,
    } as u16;
    (*out).stx_nlink = 1;
    (*out).stx_size = sim::stat(&path).map_or(0, |s| s.len);
    0
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> libc::c_int {
    let Some(path) = simulated(p) else {
        return finish(raw_syscall6(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as libc::c_int;
    };
    simrt::preempt("fs.unlink");
    answer(async_std::fs::sim::unlink(&path))
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> libc::c_int {
    let (Some(a), Some(b)) = (simulated(from), simulated(to)) else {
        return finish(raw_syscall6(libc::SYS_rename, from as i64, to as i64, 0, 0, 0, 0)) as libc::c_int;
    };
    simrt::preempt("fs.rename");
    answer(async_std::fs::sim::rename(&a, &b))
}
