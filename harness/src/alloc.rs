//! A checking allocator.
//!
//! Every block carries a header with its state and size.  While tracking is on (per thread), released
//! blocks are kept instead of being returned to the system, so that a second release, a release with
//! a different size, or a write after release is seen instead of corrupting the process.
//! The contents of a released block are left alone: reading it stays harmless.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

const LIVE: u64 = 0x11fe_b10c_11fe_b10c;
const FREED: u64 = 0xf2ee_db10_f2ee_db10;

#[repr(C)]
struct Header {
    state: u64,
    size: usize,
    align: usize,
    /// next block of the quarantine list
    next: *mut Header,
    /// checksum of the contents at the time of release
    sum: u64,
    /// non-zero when allocated in tracking mode
    tracked: u64,
    /// identifies the tracking session
    _pad: [u64; 2],
}
const HEADER: usize = 64;

#[derive(Clone, Copy)]
struct Track {
    on: bool,
    list: *mut Header,
    double_free: u64,
    bad_layout: u64,
    live_blocks: i64,
    live_bytes: i64,
}

thread_local! {
    static TRACK: Cell<Track> = const { Cell::new(Track { on: false, list: null_mut(), double_free: 0, bad_layout: 0, live_blocks: 0, live_bytes: 0 }) };
}

pub struct Checking;

fn prefix(align: usize) -> usize {
    if align > HEADER { align } else { HEADER }
}

unsafe fn checksum(p: *const u8, n: usize) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for i in 0..n {
        h = (h ^ *p.add(i) as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let pre = prefix(layout.align());
        let Some(total) = layout.size().checked_add(pre) else { return null_mut() };
        let Ok(l) = Layout::from_size_align(total, layout.align().max(16)) else { return null_mut() };
        let base = System.alloc(l);
        if base.is_null() {
            return base;
        }
        let user = base.add(pre);
        let h = user.sub(HEADER) as *mut Header;
        let tracked = TRACK
            .try_with(|t| {
                let mut v = t.get();
                if v.on {
                    v.live_blocks += 1;
                    v.live_bytes += layout.size() as i64;
                    t.set(v);
                }
                v.on
            })
            .unwrap_or(false);
        h.write(Header { state: LIVE, size: layout.size(), align: layout.align(), next: null_mut(), sum: 0, tracked: tracked as u64, _pad: [0; 2] });
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, layout: Layout) {
        let h = user.sub(HEADER) as *mut Header;
        let t = TRACK.try_with(|t| t.get()).ok();
        match t {
            Some(mut v) if v.on => {
                if (*h).state != LIVE {
                    v.double_free += 1;
                    TRACK.with(|t| t.set(v));
                    return;
                }
                if (*h).size != layout.size() || (*h).align != layout.align() {
                    v.bad_layout += 1;
                }
                if (*h).tracked != 0 {
                    v.live_blocks -= 1;
                    v.live_bytes -= (*h).size as i64;
                }
                (*h).state = FREED;
                (*h).sum = checksum(user, (*h).size.min(1 << 16));
                (*h).next = v.list;
                v.list = h;
                TRACK.with(|t| t.set(v));
            }
            _ => {
                if (*h).state != LIVE {
                    // outside of a tracked case this is fatal: better a clear crash than corruption
                    libc::abort();
                }
                (*h).state = FREED;
                let pre = prefix((*h).align);
                let l = Layout::from_size_align_unchecked((*h).size + pre, (*h).align.max(16));
                System.dealloc(user.sub(pre), l);
            }
        }
    }
}

#[derive(Debug, Clone, Copy, Default)]
pub struct Report {
    pub double_free: u64,
    pub bad_layout: u64,
    pub write_after_free: u64,
    pub live_blocks: i64,
    pub live_bytes: i64,
}

pub fn live() -> (i64, i64) {
    let v = TRACK.with(|t| t.get());
    (v.live_blocks, v.live_bytes)
}

/// Runs `f` with tracking on and reports what the allocator saw.
/// `f` must drop everything it allocated, except what the code under test leaked.
pub fn tracked<R>(f: impl FnOnce() -> R) -> (R, Report) {
    TRACK.with(|t| t.set(Track { on: true, list: null_mut(), double_free: 0, bad_layout: 0, live_blocks: 0, live_bytes: 0 }));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            TRACK.with(|t| {
                let mut v = t.get();
                v.on = false;
                t.set(v)
            });
        }
    }
    let off = Off;
    let r = f();
    drop(off);
    let v = TRACK.with(|t| t.get());
    let mut rep = Report { double_free: v.double_free, bad_layout: v.bad_layout, write_after_free: 0, live_blocks: v.live_blocks, live_bytes: v.live_bytes };
    let mut h = v.list;
    unsafe {
        while !h.is_null() {
            let next = (*h).next;
            let user = (h as *mut u8).add(HEADER);
            if (*h).state != FREED || (*h).sum != checksum(user, (*h).size.min(1 << 16)) {
                rep.write_after_free += 1;
            }
            let pre = prefix((*h).align);
            let l = Layout::from_size_align_unchecked((*h).size + pre, (*h).align.max(16));
            System.dealloc(user.sub(pre), l);
            h = next;
        }
    }
    TRACK.with(|t| {
        let mut v = t.get();
        v.list = null_mut();
        t.set(v)
    });
    (r, rep)
}
