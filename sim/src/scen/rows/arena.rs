//! Memory with no neighbours: accesses beyond it end the process, accesses
//! beyond the object placed in it are seen by comparing guard bytes.
const SIZE: usize = 1 << 21;
const GUARD: usize = 1 << 14;
/// bytes around an object that are filled and compared
const WINDOW: usize = 512;

pub struct Arena {
    base: *mut u8,
}

impl Arena {
    fn map() -> Arena {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                SIZE + 2 * GUARD,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let base = (p as *mut u8).add(GUARD);
            assert_eq!(libc::mprotect(base as *mut _, SIZE, libc::PROT_READ | libc::PROT_WRITE), 0);
            Arena { base }
        }
    }
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.sub(GUARD) as *mut _, SIZE + 2 * GUARD) };
    }
}

/// One object in memory of its own.
pub struct Placed {
    arena: Arena,
    off: usize,
    len: usize,
    lo: usize,
    hi: usize,
    fill: u8,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Where {
    /// the last byte is the last byte of the memory
    End,
    /// the first byte is the first byte of the memory
    Start,
    /// somewhere in the middle, at this distance from an aligned address
    Middle(usize),
}

impl Placed {
    pub fn new(bytes: &[u8], place: Where, fill: u8) -> Placed {
        let arena = Arena::map();
        assert!(bytes.len() + 4 * WINDOW < SIZE);
        let off = match place {
            Where::End => SIZE - bytes.len(),
            Where::Start => 0,
            Where::Middle(k) => 2 * WINDOW + k,
        };
        let lo = off.saturating_sub(WINDOW);
        let hi = (off + bytes.len() + WINDOW).min(SIZE);
        let p = Placed { arena, off, len: bytes.len(), lo, hi, fill };
        unsafe {
            for i in lo..hi {
                *p.arena.base.add(i) = p.guard(i);
            }
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), p.arena.base.add(off), bytes.len());
        }
        p
    }
    fn guard(&self, i: usize) -> u8 {
        self.fill ^ (i as u8).wrapping_mul(29)
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.arena.base.add(self.off), self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.arena.base.add(self.off), self.len) }
    }
    /// Position relative to the object of the first byte around it that changed.
    pub fn trampled(&self) -> Option<isize> {
        for i in self.lo..self.hi {
            if i >= self.off && i < self.off + self.len {
                continue;
            }
            if unsafe { *self.arena.base.add(i) } != self.guard(i) {
                return Some(i as isize - self.off as isize);
            }
        }
        None
    }
    /// Is the slice inside the object?
    pub fn contains(&self, s: &[u8]) -> bool {
        let a = s.as_ptr() as usize;
        let b = self.arena.base as usize + self.off;
        s.is_empty() || (a >= b && s.len() <= self.len && a - b <= self.len - s.len())
    }
    pub fn offset_of(&self, s: &[u8]) -> usize {
        (s.as_ptr() as usize).wrapping_sub(self.arena.base as usize + self.off)
    }
}
