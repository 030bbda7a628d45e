//! What becomes of secrets in memory: an allocator that looks, while a call of the crate is in progress, for the
//! secrets of the scenario in every block that is freed, and remembers the blocks that were allocated.
//! Everything is per thread; nothing here allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

const MAX_SECRETS: usize = 64;
const MAX_PARTS: usize = 3 * MAX_SECRETS;
const MAX_BLOCKS: usize = 1024;
/// a secret is there when this much of it is
const PART: usize = 16;

struct State {
    /// secrets are looked for in this thread
    armed: bool,
    /// a call of the crate is in progress
    on: bool,
    n: usize,
    np: usize,
    /// the parts of all secrets, and which secret each is of
    parts: [([u8; PART], usize); MAX_PARTS],
    /// the first bytes of the parts
    first: [bool; 256],
    /// blocks freed with a secret in them
    hits: i64,
    nl: usize,
    live: [(usize, usize); MAX_BLOCKS],
}

thread_local! {
    static STATE: UnsafeCell<State> = const {
        UnsafeCell::new(State { armed: false, on: false, n: 0, np: 0, parts: [([0; PART], 0); MAX_PARTS], first: [false; 256], hits: 0, nl: 0, live: [(0, 0); MAX_BLOCKS] })
    };
}

fn with<R>(f: impl FnOnce(&mut State) -> R) -> Option<R> {
    // no reference outlives `f`, and `f` neither allocates nor calls back
    STATE.try_with(|s| f(unsafe { &mut *s.get() })).ok()
}

/// a part of which secret is in a block
fn find(s: &State, p: *const u8, len: usize) -> Option<usize> {
    if len < PART {
        return None;
    }
    for i in 0..=len - PART {
        let b = unsafe { p.add(i).read_volatile() };
        if s.first[b as usize] {
            for (x, k) in &s.parts[..s.np] {
                if x[0] == b && (1..PART).all(|j| unsafe { p.add(i + j).read_volatile() } == x[j]) {
                    return Some(*k);
                }
            }
        }
    }
    None
}

struct Watching;

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // no leftovers of earlier blocks
        let p = if with(|s| s.armed) == Some(true) { System.alloc_zeroed(l) } else { System.alloc(l) };
        with(|s| {
            if s.armed && s.on && s.nl < MAX_BLOCKS {
                s.live[s.nl] = (p as usize, l.size());
                s.nl += 1;
            }
        });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        with(|s| {
            if s.armed {
                if s.on && find(s, p, l.size()).is_some() {
                    s.hits += 1;
                }
                if let Some(i) = (0..s.nl).rev().find(|i| s.live[*i].0 == p as usize) {
                    s.nl -= 1;
                    s.live[i] = s.live[s.nl];
                }
            }
        });
        System.dealloc(p, l)
    }
}

#[global_allocator]
static A: Watching = Watching;

pub fn arm(on: bool) {
    with(|s| {
        s.armed = on;
        s.on = false;
        s.n = 0;
        s.np = 0;
        s.first = [false; 256];
        s.hits = 0;
        s.nl = 0;
    });
}

/// index of the secret
pub fn secret(x: &[u8]) -> Option<usize> {
    with(|s| {
        if x.len() < PART {
            return None;
        }
        if let Some(q) = s.parts[..s.np].iter().find(|q| q.0[..] == x[..PART]) {
            return Some(q.1);
        }
        if s.n == MAX_SECRETS || s.np + x.len() / PART > MAX_PARTS {
            return None;
        }
        for c in x.chunks_exact(PART) {
            s.parts[s.np].0.copy_from_slice(c);
            s.parts[s.np].1 = s.n;
            s.first[c[0] as usize] = true;
            s.np += 1;
        }
        s.n += 1;
        Some(s.n - 1)
    })
    .unwrap_or(None)
}

/// where in this memory one of these secrets is
pub fn spots(p: *const u8, len: usize, of: &[usize]) -> Vec<usize> {
    (0..(len + 1).saturating_sub(PART)).filter(|i| with(|s| find(s, unsafe { p.add(*i) }, PART)).flatten().map(|k| of.contains(&k)).unwrap_or(false)).collect()
}

/// is a secret in one of these places
pub fn there(p: *const u8, at: &[usize]) -> i64 {
    at.iter().filter(|i| with(|s| find(s, unsafe { p.add(**i) }, PART)).flatten().is_some()).count() as i64
}

/// a call of the crate
pub fn watched<R>(f: impl FnOnce() -> R) -> R {
    with(|s| s.on = true);
    let r = f();
    with(|s| s.on = false);
    r
}

/// what the harness does within a call
pub fn unwatched<R>(f: impl FnOnce() -> R) -> R {
    let was = with(|s| std::mem::replace(&mut s.on, false));
    let r = f();
    with(|s| s.on = was.unwrap_or(false));
    r
}

/// blocks freed with a secret in them since the last question; None: not watching
pub fn freed() -> Option<i64> {
    with(|s| {
        let h = s.hits;
        s.hits = 0;
        if s.armed { Some(h) } else { None }
    })
    .unwrap_or(None)
}

/// the secrets in blocks that the crate allocated and has not freed: a bit for each
pub fn held() -> u64 {
    with(|s| (0..s.nl).filter_map(|i| find(s, s.live[i].0 as *const u8, s.live[i].1)).fold(0u64, |a, k| a | 1 << k)).unwrap_or(0)
}
