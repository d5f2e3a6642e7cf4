//! Hash tables of the code under test take their seeds from `getrandom`.  Answering it here makes
//! iteration orders a part of the case: same case, same order, in every run.

use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x9e37_79b9_7f4a_7c15) };
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn set(seed: u64) {
    STATE.with(|s| s.set(seed));
}

fn next() -> u64 {
    STATE
        .try_with(|s| {
            let v = s.get().wrapping_add(0x9e37_79b9_7f4a_7c15);
            s.set(v);
            let mut z = v;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        })
        .unwrap_or(42)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let p = buf as *mut u8;
    let mut i = 0;
    while i < len {
        for b in next().to_le_bytes() {
            if i < len {
                *p.add(i) = b;
                i += 1;
            }
        }
    }
    len as libc::ssize_t
}
