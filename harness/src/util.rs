//! Shared helpers: global state reset, an allocation guard and small generators.

use proptest::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::time::Duration;

/// Puts the process-global state that the code under test reads back to a known value.
pub fn reset_globals() {
    mock_instant::global::MockClock::set_time(Duration::from_secs(1000));
    ALLOC_LIMIT.with(|l| l.set(usize::MAX));
    ALLOC_MAX.with(|m| m.set(0));
}

pub fn clock_set(d: Duration) {
    mock_instant::global::MockClock::set_time(d);
}

pub fn clock_advance(d: Duration) {
    mock_instant::global::MockClock::advance(d);
}

thread_local! {
    static ALLOC_MAX: Cell<usize> = const { Cell::new(0) };
    static ALLOC_LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Records the largest single allocation requested by this thread, and turns a request above the
/// limit into a panic instead of letting it exhaust the machine.
pub struct Guarded;

fn note(size: usize) {
    let over = ALLOC_LIMIT
        .try_with(|l| {
            let limit = l.get();
            let _ = ALLOC_MAX.try_with(|m| m.set(m.get().max(size)));
            if size > limit {
                l.set(usize::MAX);
                true
            } else {
                false
            }
        })
        .unwrap_or(false);
    if over {
        // Unwinding out of the allocator is fine here: the callers are Vec/HashMap growth paths,
        // which have not changed their state yet.
        panic!("allocation of {size} bytes requested");
    }
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

/// Runs `f` with every single allocation capped at `limit` bytes (a larger request panics).
pub fn with_alloc_limit<T>(limit: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ALLOC_LIMIT.with(|l| l.set(usize::MAX));
        }
    }
    let _r = Reset;
    ALLOC_LIMIT.with(|l| l.set(limit));
    f()
}

/// Values near the interesting boundaries of an unsigned type, mixed with uniform ones.
pub fn edgy_u64(max: u64) -> BoxedStrategy<u64> {
    prop_oneof![
        3 => 0..=max.min(80),
        3 => (0u32..64, 0u64..3).prop_map(move |(b, d)| ((1u64 << b) + d).saturating_sub(1).min(max)),
        1 => (0u64..4).prop_map(move |d| max - d.min(max)),
        2 => 0..=max,
    ]
    .boxed()
}

pub fn edgy_u32() -> BoxedStrategy<u32> {
    edgy_u64(u32::MAX as u64).prop_map(|v| v as u32).boxed()
}

pub fn edgy_u16() -> BoxedStrategy<u16> {
    edgy_u64(u16::MAX as u64).prop_map(|v| v as u16).boxed()
}

/// Independent decoder of the variable-length integer of RFC 9000, section 16.
pub fn rfc_varint(b: &[u8]) -> Option<(u64, usize)> {
    let first = *b.first()?;
    let n = 1usize << (first >> 6);
    if b.len() < n {
        return None;
    }
    let mut v = (first & 0x3f) as u64;
    for x in &b[1..n] {
        v = v * 256 + *x as u64;
    }
    Some((v, n))
}

pub fn rfc_varint_len(v: u64) -> usize {
    match v {
        0..=0x3f => 1,
        0x40..=0x3fff => 2,
        0x4000..=0x3fff_ffff => 4,
        _ => 8,
    }
}

pub fn put_varint(out: &mut Vec<u8>, v: u64) {
    match rfc_varint_len(v) {
        1 => out.push(v as u8),
        2 => out.extend_from_slice(&((v as u16) | 0x4000).to_be_bytes()),
        4 => out.extend_from_slice(&((v as u32) | 0x8000_0000).to_be_bytes()),
        _ => out.extend_from_slice(&(v | 0xc000_0000_0000_0000).to_be_bytes()),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect();
    if b.len() > 96 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}
