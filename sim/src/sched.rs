//! Deterministic scheduling of several caller threads.
//!
//! Clients are real threads of which exactly one runs at a time. Every I/O call
//! and every heap allocation of a client is one step; at the steps listed in the
//! schedule the running client is preempted in favour of another one. A client
//! that would block on a futex hands over as well. Who runs is decided by the
//! schedule alone.

use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Schedule {
    /// (global step, client to run next), ascending by step.
    pub preempt: Vec<(u64, u32)>,
}

pub struct Sched {
    turn: AtomicU32,
    pub clients: u32,
    pub done: Vec<bool>,
    pub steps: u64,
    next: usize,
    pub schedule: Schedule,
    pub switches: u64,
    pub blocked: u64,
    pub trace: u64,
}

thread_local! {
    static SCHED: Cell<*mut Sched> = const { Cell::new(std::ptr::null_mut()) };
    static ME: Cell<u32> = const { Cell::new(0) };
    /// Steps count only inside sections of library code.
    static LIVE: Cell<bool> = const { Cell::new(false) };
}

/// Runs library code; its allocations and I/O calls are scheduling steps.
pub fn section<R>(f: impl FnOnce() -> R) -> R {
    LIVE.with(|l| l.set(true));
    let r = f();
    LIVE.with(|l| l.set(false));
    r
}
pub fn end_section() {
    LIVE.with(|l| l.set(false));
}
/// Suspends stepping while the simulator itself is at work.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let was = LIVE.with(|l| l.replace(false));
    let r = f();
    LIVE.with(|l| l.set(was));
    r
}

pub const NOBODY: u32 = u32::MAX;

impl Sched {
    pub fn new(clients: u32, schedule: Schedule) -> Self {
        Sched {
            turn: AtomicU32::new(NOBODY),
            clients,
            done: vec![false; clients as usize],
            steps: 0,
            next: 0,
            schedule,
            switches: 0,
            blocked: 0,
            trace: 0,
        }
    }
    /// Called by the runner once all clients wait for their turn.
    pub fn start(&self, first: u32) {
        self.turn.store(first, Ordering::SeqCst);
        wake(&self.turn);
    }
    fn pick_after(&self, me: u32) -> u32 {
        for i in 1..=self.clients {
            let c = (me + i) % self.clients;
            if !self.done[c as usize] {
                return c;
            }
        }
        NOBODY
    }
}

fn wake(t: &AtomicU32) {
    unsafe {
        let r: i64;
        core::arch::asm!("syscall", inlateout("rax") libc::SYS_futex => r,
            in("rdi") t as *const _ as i64, in("rsi") (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64,
            in("rdx") i32::MAX as i64, in("r10") 0i64, in("r8") 0i64, in("r9") 0i64,
            lateout("rcx") _, lateout("r11") _);
        let _ = r;
    }
}

fn wait_turn(s: *mut Sched, me: u32) {
    let t = unsafe { &(*s).turn };
    loop {
        let v = t.load(Ordering::SeqCst);
        if v == me {
            return;
        }
        unsafe {
            let r: i64;
            core::arch::asm!("syscall", inlateout("rax") libc::SYS_futex => r,
                in("rdi") t as *const _ as i64, in("rsi") (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64,
                in("rdx") v as i64, in("r10") 0i64, in("r8") 0i64, in("r9") 0i64,
                lateout("rcx") _, lateout("r11") _);
            let _ = r;
        }
    }
}

pub fn enter(s: *mut Sched, me: u32) {
    wait_turn(s, me);
    ME.with(|m| m.set(me));
    SCHED.with(|c| c.set(s));
}

pub fn leave() {
    let s = SCHED.with(|c| c.replace(std::ptr::null_mut()));
    let me = ME.with(|m| m.get());
    unsafe {
        let sc = &mut *s;
        sc.done[me as usize] = true;
        let n = sc.pick_after(me);
        sc.turn.store(n, Ordering::SeqCst);
        wake(&sc.turn);
    }
}

#[inline(always)]
pub fn is_client() -> bool {
    !SCHED.with(|c| c.get()).is_null()
}

fn switch_to(s: *mut Sched, me: u32, to: u32) {
    unsafe {
        let sc = &mut *s;
        sc.switches += 1;
        sc.trace = crate::rng::mix(sc.trace, sc.steps ^ ((to as u64) << 48));
        sc.turn.store(to, Ordering::SeqCst);
        wake(&sc.turn);
    }
    // The world of the run follows whoever runs; thread locals stay put.
    wait_turn(s, me);
}

/// One scheduling step of the running client.
#[inline(always)]
pub fn step(_io: bool) {
    let s = SCHED.with(|c| c.get());
    if s.is_null() || !LIVE.with(|l| l.get()) {
        return;
    }
    step_slow(s);
}

#[inline(never)]
fn step_slow(s: *mut Sched) {
    unsafe {
        let sc = &mut *s;
        sc.steps += 1;
        if sc.next < sc.schedule.preempt.len() && sc.schedule.preempt[sc.next].0 <= sc.steps {
            let to = sc.schedule.preempt[sc.next].1 % sc.clients;
            sc.next += 1;
            let me = ME.with(|m| m.get());
            if to != me && !sc.done[to as usize] {
                switch_to(s, me, to);
            }
        }
    }
}

/// The running client cannot proceed.
pub fn blocked() {
    let s = SCHED.with(|c| c.get());
    if s.is_null() {
        return;
    }
    unsafe {
        let sc = &mut *s;
        sc.blocked += 1;
        let me = ME.with(|m| m.get());
        let to = sc.pick_after(me);
        if to != me && to != NOBODY {
            switch_to(s, me, to);
        }
    }
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        step(false);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        step(false);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        step(false);
        System.realloc(p, l, n)
    }
}
