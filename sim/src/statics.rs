//! The library's static variables, one copy per simulated process. All simulated processes live in one real process,
//! so a static would be shared between them, and would survive a restart; here the bytes of the library's statics
//! are exchanged whenever the simulation goes on in another process. A process starts with the bytes of the
//! program's start.
use std::sync::OnceLock;

pub struct Statics {
    ranges: Vec<(usize, usize)>,
    pristine: Vec<u8>,
}
static STATICS: OnceLock<Statics> = OnceLock::new();

extern "C" {
    static __ehdr_start: u8;
}

/// to be called before the library is used
pub fn setup() {
    let ranges = std::fs::read("/proc/self/exe").ok().and_then(|b| find(&b)).unwrap_or_default();
    let pristine = copy(&ranges);
    let _ = STATICS.set(Statics { ranges, pristine });
}
fn copy(ranges: &[(usize, usize)]) -> Vec<u8> {
    let mut out = vec![];
    for &(a, n) in ranges {
        out.extend_from_slice(unsafe { std::slice::from_raw_parts(a as *const u8, n) });
    }
    out
}
/// symbols of the library in the writable sections of the program
fn find(b: &[u8]) -> Option<Vec<(usize, usize)>> {
    let n = |o: usize, k: usize| b.get(o..o + k).map(|s| s.iter().rev().fold(0usize, |a, &x| a << 8 | x as usize));
    let base = unsafe { &__ehdr_start as *const u8 as usize };
    // position-independent: addresses in the file count from the start
    let pie = n(16, 2)? == 3;
    let (shoff, shentsize, shnum, shstr) = (n(40, 8)?, n(58, 2)?, n(60, 2)?, n(62, 2)?);
    let sec = |i: usize| {
        let o = shoff + i * shentsize;
        Some((n(o, 4)?, n(o + 4, 4)?, n(o + 24, 8)?, n(o + 32, 8)?, n(o + 40, 4)?))
    };
    let text = |o: usize| {
        let e = b.get(o..)?.iter().position(|&c| c == 0)?;
        std::str::from_utf8(&b[o..o + e]).ok()
    };
    let names = sec(shstr)?.2;
    let mut out = vec![];
    for i in 0..shnum {
        let (_, kind, off, size, link) = sec(i)?;
        if kind != 2 {
            continue;
        }
        let strings = sec(link)?.2;
        for k in 0..size / 24 {
            let o = off + k * 24;
            let (name, info, shndx, value, len) = (n(o, 4)?, n(o + 4, 1)?, n(o + 6, 2)?, n(o + 8, 8)?, n(o + 16, 8)?);
            if info & 15 != 1 || len == 0 || shndx == 0 || shndx >= shnum {
                continue;
            }
            let name = text(strings + name)?;
            if !name.contains("13rusty_network") || name.contains("6rn_sim") {
                continue;
            }
            let s = text(names + sec(shndx)?.0)?;
            if s == ".data" || s == ".bss" || ((s.starts_with(".data.") || s.starts_with(".bss.")) && !s.contains("rel.ro")) {
                out.push((if pie { base + value } else { value }, len));
            }
        }
    }
    out.sort();
    out.dedup();
    Some(out)
}

pub fn take() -> Vec<u8> {
    STATICS.get().map(|s| copy(&s.ranges)).unwrap_or_default()
}
pub fn fresh() -> Vec<u8> {
    STATICS.get().map(|s| s.pristine.clone()).unwrap_or_default()
}
pub fn put(bytes: &[u8]) {
    let Some(s) = STATICS.get() else { return };
    let mut o = 0;
    for &(a, n) in &s.ranges {
        unsafe { std::ptr::copy_nonoverlapping(bytes[o..].as_ptr(), a as *mut u8, n) };
        o += n;
    }
}
pub fn holds(addr: usize) -> bool {
    STATICS.get().is_some_and(|s| s.ranges.iter().any(|&(a, n)| addr >= a && addr < a + n))
}
