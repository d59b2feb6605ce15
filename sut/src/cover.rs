//! Feedback for the search: which branches of the library ran how often, and how near its comparisons of
//! lengths and counts came to being equal. The library is compiled with calls to the functions below.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, Ordering};

static mut COUNTERS: (*mut u8, *mut u8) = (std::ptr::null_mut(), std::ptr::null_mut());
const NEAR: usize = 1 << 16;
static mut SEEN_NEAR: [bool; NEAR] = [false; NEAR];
static mut NEW_NEAR: Vec<u32> = Vec::new();
/// set while several threads run, which must not share the above
pub static OFF: AtomicBool = AtomicBool::new(false);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    COUNTERS = (start, stop);
}

extern "C" {
    #[link_name = "llvm.returnaddress"]
    fn caller(level: i32) -> *const u8;
}
#[inline(always)]
unsafe fn near(pc: usize, a: u64, b: u64) {
    if OFF.load(Ordering::Relaxed) {
        return;
    }
    let d = a.abs_diff(b);
    let k = (64 - d.leading_zeros()) as usize * 2 + (a < b) as usize;
    // relative to a function of this program, which is loaded at a different place each time
    let pc = pc.wrapping_sub(near as *const () as usize);
    let h = (pc.wrapping_mul(0x9e3779b97f4a7c15) >> 20).wrapping_add(k * 0x9e37) & (NEAR - 1);
    if !SEEN_NEAR[h] {
        SEEN_NEAR[h] = true;
        (*std::ptr::addr_of_mut!(NEW_NEAR)).push(1 << 24 | h as u32);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_cmp8(a: u64, b: u64) {
    near(caller(0) as usize, a, b)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) {
    near(caller(0) as usize, a, b)
}
macro_rules! ignored { ($($n:ident $t:ty),*) => { $(#[no_mangle] pub extern "C" fn $n(_a: $t, _b: $t) {})* } }
ignored!(
    __sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16, __sanitizer_cov_trace_cmp4 u32,
    __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16, __sanitizer_cov_trace_const_cmp4 u32
);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _c: *const u64) {}

/// What the last request did that none before it in this process did; starts counting anew.
pub fn news(seen: &mut HashSet<u32>) -> Vec<u32> {
    let mut out = unsafe { std::mem::take(&mut *std::ptr::addr_of_mut!(NEW_NEAR)) };
    let c = unsafe {
        let (a, b) = COUNTERS;
        if a.is_null() {
            return out;
        }
        std::slice::from_raw_parts_mut(a, b as usize - a as usize)
    };
    for (i, n) in c.iter_mut().enumerate() {
        if *n > 0 {
            // how often, roughly
            let f = i as u32 * 8 + 7 - (*n).leading_zeros();
            if seen.insert(f) {
                out.push(f);
            }
            *n = 0;
        }
    }
    out
}

/// Hash maps are keyed at random; here the keys follow from VP_HASH, so that a run can be repeated.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x: u64 = std::env::var("VP_HASH").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (x >> 56) as u8;
    }
    len as isize
}
