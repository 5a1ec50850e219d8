//! Deterministic simulation runtime.
//!
//! * every source of choice is a `draw` from one tape (seeded PRNG, or a recorded tape on replay);
//! * simulated threads are OS threads of which exactly one runs at a time, handed over at
//!   basic-block edges of instrumented code (the SanitizerCoverage callback below) and at
//!   blocking futex calls, where and to whom being drawn from the tape;
//! * futexes, clocks, sleeping, yielding and kernel entropy are interposed at the libc symbols the
//!   Rust standard library calls, and simulated while a run is active;
//! * every run happens in a forked child, so that it starts from the state of a fresh process, and
//!   an abort, a stack overflow or a hang is an observation instead of the end of the check.
//!
//! This crate is compiled WITHOUT instrumentation.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{
    AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst,
};

pub const TAPE_CAP: usize = 1 << 18;
pub const TRACE_CAP: usize = 1 << 18;
pub const MSG_CAP: usize = 1 << 15;
pub const EDGE_WORDS: usize = 2048;
pub const STATES_CAP: usize = 4096;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ctr {
    pub name: [u8; 40],
    pub n: u64,
}

/// Memory shared between the forking worker and the child that executes one run.
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub kind_len: u32,
    pub kind: [u8; 128],
    pub msg_len: u32,
    pub msg: [u8; MSG_CAP],
    pub tape_len: u32,
    pub trace_len: u32,
    pub trace_hash: u64,
    pub trace_lines: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub nontrivial: u32,
    pub nctr: u32,
    pub ctr: [Ctr; 128],
    pub nstates: u32,
    pub states: [u64; STATES_CAP],
    pub edges: [u64; EDGE_WORDS],
    pub tape: [u32; TAPE_CAP],
    pub trace: [u8; TRACE_CAP],
}

static mut SH: *mut Shared = std::ptr::null_mut();

pub fn shared() -> &'static mut Shared {
    unsafe { &mut *SH }
}

/// Maps the shared block. Called once per worker (or per exec'd lifetime).
pub fn map_shared() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SH = p as *mut Shared;
    }
}

fn reset_shared() {
    let s = shared();
    s.status = 0;
    s.kind_len = 0;
    s.msg_len = 0;
    s.tape_len = 0;
    s.trace_len = 0;
    s.trace_hash = FNV0;
    s.trace_lines = 0;
    s.steps = 0;
    s.sim_ns = 0;
    s.switches = 0;
    s.sched_hash = FNV0;
    s.nontrivial = 0;
    s.nctr = 0;
    s.nstates = 0;
    s.edges = [0; EDGE_WORDS];
}

// ---------------------------------------------------------------------------------------------
// hashing and random numbers

pub const FNV0: u64 = 0xcbf29ce484222325;

pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h.rotate_left(17) ^ v.wrapping_mul(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Copy)]
pub struct Prng(u64);

impl Prng {
    pub const fn new(seed: u64) -> Self {
        Prng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

// ---------------------------------------------------------------------------------------------
// the tape

struct Tape {
    gen: Option<Prng>,
    replay: Vec<u32>,
    pos: usize,
    exhausted: bool,
}

static mut TAPE: Tape = Tape {
    gen: None,
    replay: Vec::new(),
    pos: 0,
    exhausted: false,
};

#[inline]
fn record(v: u32) {
    let s = shared();
    if (s.tape_len as usize) < TAPE_CAP {
        s.tape[s.tape_len as usize] = v;
        s.tape_len += 1;
    }
}

/// A choice in `0..n`. 0 is by convention the simplest, fault-free choice.
pub fn draw(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe {
        let v = if let Some(p) = &mut TAPE.gen {
            if shared().tape_len as usize >= TAPE_CAP {
                0
            } else {
                ((p.next() >> 32) as u32) % n
            }
        } else if TAPE.pos < TAPE.replay.len() {
            let v = TAPE.replay[TAPE.pos] % n;
            TAPE.pos += 1;
            v
        } else {
            TAPE.exhausted = true;
            0
        };
        record(v);
        v
    }
}

/// Like `draw(n + 1)`, but the generator never yields 0; only a shrunk tape does.
fn draw_nz(n: u32) -> u32 {
    unsafe {
        if let Some(p) = &mut TAPE.gen {
            if shared().tape_len as usize >= TAPE_CAP {
                return 0;
            }
            let v = 1 + ((p.next() >> 32) as u32) % n;
            record(v);
            v
        } else {
            draw(n + 1)
        }
    }
}

/// True with probability `num / den`; false for a zeroed tape.
pub fn chance(num: u32, den: u32) -> bool {
    draw(den) >= den - num.min(den)
}

pub fn draw64() -> u64 {
    let a = draw(1 << 16) as u64;
    let b = draw(1 << 16) as u64;
    let c = draw(1 << 16) as u64;
    let d = draw(1 << 16) as u64;
    a | b << 16 | c << 32 | d << 48
}

// ---------------------------------------------------------------------------------------------
// observations

pub fn event(line: &str) {
    let s = shared();
    s.trace_hash = fnv(fnv(s.trace_hash, line.as_bytes()), b"\n");
    s.trace_lines += 1;
    let need = line.len() + 1;
    if s.trace_len as usize + need <= TRACE_CAP {
        let o = s.trace_len as usize;
        s.trace[o..o + line.len()].copy_from_slice(line.as_bytes());
        s.trace[o + line.len()] = b'\n';
        s.trace_len += need as u32;
    }
}

#[macro_export]
macro_rules! ev {
    ($($t:tt)*) => { $crate::event(&format!($($t)*)) };
}

pub fn count(name: &str) {
    count_n(name, 1)
}

pub fn count_n(name: &str, n: u64) {
    let s = shared();
    let b = name.as_bytes();
    for c in &mut s.ctr[..s.nctr as usize] {
        if &c.name[..b.len()] == b && c.name[b.len()] == 0 {
            c.n += n;
            return;
        }
    }
    if (s.nctr as usize) < s.ctr.len() {
        let c = &mut s.ctr[s.nctr as usize];
        c.name = [0; 40];
        c.name[..b.len().min(39)].copy_from_slice(&b[..b.len().min(39)]);
        c.n = n;
        s.nctr += 1;
    }
}

/// A state reached by the run, by its hash.
pub fn state(h: u64) {
    let s = shared();
    if (s.nstates as usize) < STATES_CAP {
        s.states[s.nstates as usize] = h;
        s.nstates += 1;
    }
}

/// The run did something the rule of its property counts as non-trivial.
pub fn nontrivial() {
    shared().nontrivial = 1;
}

/// Ends the run: the property is violated.
pub fn violate(kind: &str, msg: &str) -> ! {
    ACTIVE.store(false, SeqCst);
    let s = shared();
    let k = kind.as_bytes();
    s.kind_len = k.len().min(s.kind.len()) as u32;
    s.kind[..s.kind_len as usize].copy_from_slice(&k[..s.kind_len as usize]);
    let m = msg.as_bytes();
    s.msg_len = m.len().min(MSG_CAP) as u32;
    s.msg[..s.msg_len as usize].copy_from_slice(&m[..s.msg_len as usize]);
    s.status = 2;
    finish_counts();
    unsafe { libc::_exit(0) }
}

#[macro_export]
macro_rules! violate {
    ($kind:expr, $($t:tt)*) => { $crate::violate($kind, &format!($($t)*)) };
}

fn finish_counts() {
    let s = shared();
    s.steps = STEPS.load(Relaxed);
    s.sim_ns = now_ns() - T0;
    s.switches = SWITCHES.load(Relaxed);
}

// ---------------------------------------------------------------------------------------------
// simulated time

const T0: u64 = 1_000_000_000_000;
static CLOCK_EXTRA: AtomicU64 = AtomicU64::new(0);
static CLOCK_SKEW: AtomicI64 = AtomicI64::new(0);

/// Monotonic simulated time: 100 ns per executed edge plus what the simulation slept.
pub fn now_ns() -> u64 {
    T0 + STEPS.load(Relaxed) * 100 + CLOCK_EXTRA.load(Relaxed)
}

pub fn advance(ns: u64) {
    CLOCK_EXTRA.fetch_add(ns, Relaxed);
}

/// Moves the simulated wall clock (not the monotonic one).
pub fn jump_wall_clock(ns: i64) {
    CLOCK_SKEW.fetch_add(ns, Relaxed);
}

// ---------------------------------------------------------------------------------------------
// instrumentation callback

static ACTIVE: AtomicBool = AtomicBool::new(false);
static STEPS: AtomicU64 = AtomicU64::new(0);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static SWITCHES: AtomicU64 = AtomicU64::new(0);
static mut COUNTDOWN: u64 = u64::MAX;
/// simulated threads exist
static THREADS: AtomicBool = AtomicBool::new(false);
pub static GUARDS: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static TASK: Cell<i32> = const { Cell::new(-1) };
}

pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

/// From now on the run may execute at most `n` more edges before it counts as stuck.
pub fn set_budget(n: u64) {
    BUDGET.store(STEPS.load(Relaxed).saturating_add(n), Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        *p = GUARDS.fetch_add(1, Relaxed) + 1;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    // threads that are starting up or have ended run beside the simulated ones, in the allocator
    if THREADS.load(Relaxed) && TASK.with(|t| t.get()) < 0 {
        return;
    }
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    let g = *guard;
    let w = (g as usize / 64) % EDGE_WORDS;
    (*SH).edges[w] |= 1 << (g % 64);
    if n > BUDGET.load(Relaxed) {
        violate(
            "no-progress",
            "the step budget ran out: the run makes no progress",
        );
    }
    if COUNTDOWN != u64::MAX {
        COUNTDOWN -= 1;
        if COUNTDOWN == 0 {
            preempt(g);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// scheduler

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked { addr: usize, deadline: u64 },
    Done,
}

const MAX_TASKS: usize = 16;
static GATES: [AtomicU32; MAX_TASKS + 1] = [const { AtomicU32::new(0) }; MAX_TASKS + 1];
const CONTROLLER: usize = MAX_TASKS;

struct Sched {
    on: bool,
    n: usize,
    st: [St; MAX_TASKS],
    timed_out: [bool; MAX_TASKS],
    stalled_until: [u64; MAX_TASKS],
    gap_bits: u32,
    preempts_left: u32,
    stalls: u32,
    spurious_left: u32,
}

static mut SCHED: Sched = Sched {
    on: false,
    n: 0,
    st: [St::Done; MAX_TASKS],
    timed_out: [false; MAX_TASKS],
    stalled_until: [0; MAX_TASKS],
    gap_bits: 0,
    preempts_left: 0,
    stalls: 0,
    spurious_left: 0,
};

unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

unsafe fn gate_wait(i: usize) {
    while GATES[i].load(SeqCst) == 0 {
        raw6(
            libc::SYS_futex,
            GATES[i].as_ptr() as i64,
            libc::FUTEX_WAIT as i64,
            0,
            0,
            0,
            0,
        );
    }
    GATES[i].store(0, SeqCst);
}

unsafe fn gate_open(i: usize) {
    GATES[i].store(1, SeqCst);
    raw6(
        libc::SYS_futex,
        GATES[i].as_ptr() as i64,
        libc::FUTEX_WAKE as i64,
        1,
        0,
        0,
        0,
    );
}

unsafe fn new_gap() {
    if SCHED.preempts_left == 0 || SCHED.gap_bits == 0 {
        COUNTDOWN = u64::MAX;
        return;
    }
    let g = draw_nz(1 << SCHED.gap_bits);
    COUNTDOWN = if g == 0 { u64::MAX } else { g as u64 };
}

/// Picks the next task to run among the ready ones; None if there is none.
unsafe fn pick(except: Option<usize>) -> Option<usize> {
    let now = SWITCHES.load(Relaxed);
    let mut c = [0usize; MAX_TASKS];
    let mut k = 0;
    for pass in 0..2 {
        for i in 0..SCHED.n {
            if SCHED.st[i] == St::Ready
                && Some(i) != except
                && (pass == 1 || SCHED.stalled_until[i] <= now)
            {
                c[k] = i;
                k += 1;
            }
        }
        if k > 0 {
            break;
        }
    }
    if k == 0 {
        return None;
    }
    Some(c[draw(k as u32) as usize])
}

unsafe fn note_switch(from: usize, to: usize, at: u32) {
    SWITCHES.fetch_add(1, Relaxed);
    let s = shared();
    s.sched_hash = mix(
        s.sched_hash,
        ((from as u64) << 48) | ((to as u64) << 40) | at as u64,
    );
}

unsafe fn preempt(at: u32) {
    let me = TASK.with(|t| t.get());
    if !SCHED.on || me < 0 {
        COUNTDOWN = u64::MAX;
        return;
    }
    let me = me as usize;
    SCHED.preempts_left -= 1;
    if let Some(next) = pick(Some(me)) {
        count("fault.preemption");
        if SCHED.stalls > 0 && chance(1, 12) {
            SCHED.stalls -= 1;
            count("fault.stalled_thread");
            SCHED.stalled_until[me] = SWITCHES.load(Relaxed) + 1 + draw(64) as u64;
        }
        new_gap();
        note_switch(me, next, at);
        gate_open(next);
        gate_wait(me);
    } else {
        new_gap();
    }
}

/// The current task cannot go on: hand over to another one, advancing time if all are waiting.
unsafe fn switch_away(me: usize) {
    loop {
        if let Some(next) = pick(None) {
            new_gap();
            note_switch(me, next, 0);
            if next != me {
                // read before the hand-over: afterwards the state belongs to the others
                let done = SCHED.st[me] == St::Done;
                gate_open(next);
                if done {
                    return;
                }
                gate_wait(me);
            }
            return;
        }
        // nobody is ready: time passes until the first deadline
        let mut best: Option<(u64, usize)> = None;
        for i in 0..SCHED.n {
            if let St::Blocked { deadline, .. } = SCHED.st[i] {
                if deadline != u64::MAX && best.map_or(true, |b| deadline < b.0) {
                    best = Some((deadline, i));
                }
            }
        }
        match best {
            Some((d, i)) => {
                let now = now_ns();
                if d > now {
                    advance(d - now);
                }
                SCHED.st[i] = St::Ready;
                SCHED.timed_out[i] = true;
            }
            None => {
                if (0..SCHED.n).all(|i| SCHED.st[i] == St::Done) {
                    gate_open(CONTROLLER);
                    return;
                }
                let mut m = String::from("every thread waits for another:");
                for i in 0..SCHED.n {
                    m += &format!(
                        " t{i}={}",
                        match SCHED.st[i] {
                            St::Done => "finished",
                            _ => "blocked on a lock",
                        }
                    );
                }
                violate("deadlock", &m);
            }
        }
    }
}

pub struct SchedCfg {
    /// log2 of the largest distance, in edges, between forced preemptions; 0 for none
    pub gap_bits: u32,
    pub max_preempts: u32,
    pub stalls: u32,
    pub spurious: u32,
}

/// Runs the bodies as simulated threads until all have finished. Returns, per thread, the message
/// of the panic that ended it.
pub fn run_threads(cfg: SchedCfg, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Vec<Option<String>> {
    unsafe {
        let n = bodies.len();
        assert!(n > 0 && n <= MAX_TASKS);
        static mut PANICS: Vec<Option<String>> = Vec::new();
        PANICS = vec![None; n];
        THREADS.store(true, SeqCst);
        SCHED.n = n;
        SCHED.gap_bits = cfg.gap_bits;
        SCHED.preempts_left = cfg.max_preempts;
        SCHED.stalls = cfg.stalls;
        SCHED.spurious_left = cfg.spurious;
        for (i, body) in bodies.into_iter().enumerate() {
            SCHED.st[i] = St::Ready;
            SCHED.timed_out[i] = false;
            SCHED.stalled_until[i] = 0;
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    gate_wait(i);
                    TASK.with(|t| t.set(i as i32));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                    TASK.with(|t| t.set(-1));
                    if let Err(p) = r {
                        PANICS[i] = Some(panic_message(&*p));
                        std::mem::forget(p);
                    }
                    SCHED.st[i] = St::Done;
                    switch_away(i);
                    // the thread stays parked: its destructors must not run beside the others
                    loop {
                        raw6(libc::SYS_pause, 0, 0, 0, 0, 0, 0);
                    }
                })
                .expect("spawn");
        }
        SCHED.on = true;
        let first = pick(None).unwrap();
        new_gap();
        gate_open(first);
        gate_wait(CONTROLLER);
        SCHED.on = false;
        THREADS.store(false, SeqCst);
        COUNTDOWN = u64::MAX;
        std::mem::take(&mut PANICS)
    }
}

/// The simulated thread that is running, if any.
pub fn task() -> Option<usize> {
    let t = TASK.with(|t| t.get());
    (t >= 0).then_some(t as usize)
}

pub fn panic_message(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(panic payload)".to_string()
    }
}

// ---------------------------------------------------------------------------------------------
// interposed libc symbols

unsafe fn set_errno(e: i32) -> i64 {
    *libc::__errno_location() = e;
    -1
}

unsafe fn sim_futex(me: usize, addr: i64, op: i64, val: i64, timeout: i64) -> i64 {
    let cmd = (op & 127) as i32;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let a = &*(addr as *const AtomicU32);
            if a.load(SeqCst) != val as u32 {
                return set_errno(libc::EAGAIN);
            }
            if SCHED.spurious_left > 0 && chance(1, 8) {
                SCHED.spurious_left -= 1;
                count("fault.spurious_wakeup");
                return 0;
            }
            let deadline = if timeout == 0 {
                u64::MAX
            } else {
                let ts = &*(timeout as *const libc::timespec);
                let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    now_ns() + t
                } else {
                    t
                }
            };
            count("sched.blocked");
            SCHED.st[me] = St::Blocked {
                addr: addr as usize,
                deadline,
            };
            switch_away(me);
            if SCHED.timed_out[me] {
                SCHED.timed_out[me] = false;
                return set_errno(libc::ETIMEDOUT);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut woken = 0;
            while woken < val {
                let mut c = [0usize; MAX_TASKS];
                let mut k = 0;
                for i in 0..SCHED.n {
                    if matches!(SCHED.st[i], St::Blocked { addr: x, .. } if x == addr as usize) {
                        c[k] = i;
                        k += 1;
                    }
                }
                if k == 0 {
                    break;
                }
                if k > 1 {
                    count("fault.wakeup_order");
                }
                let i = c[draw(k as u32) as usize];
                SCHED.st[i] = St::Ready;
                woken += 1;
            }
            woken
        }
        _ => violate("harness", "unsupported futex operation"),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if ACTIVE.load(Relaxed) {
        if n == libc::SYS_futex && SCHED.on {
            let me = TASK.with(|t| t.get());
            if me >= 0 {
                return sim_futex(me as usize, a, b, c, d);
            }
        }
        if n == libc::SYS_futex
            && !THREADS.load(Relaxed)
            && matches!((b & 127) as i32, libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET)
            && TASK.with(|t| t.get()) < 0
            && (*(a as *const AtomicU32)).load(SeqCst) == c as u32
        {
            // there is nobody else who could wake it
            if d != 0 {
                return set_errno(libc::ETIMEDOUT);
            }
            violate("deadlock", "the only thread there is waits for another");
        }
        if n == libc::SYS_getrandom {
            return sim_entropy(a as *mut u8, b as usize) as i64;
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        return set_errno(-r as i32);
    }
    r
}

static mut ENTROPY: Prng = Prng::new(0);

/// Seeds what the simulated kernel returns as random bytes.
pub fn seed_entropy(seed: u64) {
    unsafe { ENTROPY = Prng::new(seed) }
}

unsafe fn sim_entropy(buf: *mut u8, len: usize) -> isize {
    count("env.entropy_read");
    for i in 0..len {
        *buf.add(i) = (ENTROPY.next() >> 56) as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if ACTIVE.load(Relaxed) {
        return sim_entropy(buf as *mut u8, len);
    }
    let r = raw6(
        libc::SYS_getrandom,
        buf as i64,
        len as i64,
        flags as i64,
        0,
        0,
        0,
    );
    if r < 0 {
        return set_errno(-r as i32) as isize;
    }
    r as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if ACTIVE.load(Relaxed) {
        count("env.clock_read");
        let mut t = now_ns();
        if clk == libc::CLOCK_REALTIME {
            t = (1_600_000_000_000_000_000i64 + t as i64 + CLOCK_SKEW.load(Relaxed)) as u64;
        }
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        return set_errno(-r as i32) as i32;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if ACTIVE.load(Relaxed) && SCHED.on && TASK.with(|t| t.get()) >= 0 {
        sim_yield();
        return 0;
    }
    raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}

unsafe fn sim_yield() {
    let me = TASK.with(|t| t.get()) as usize;
    // a task that yields or sleeps in a loop must count as making steps
    let n = STEPS.load(Relaxed) + 1;
    STEPS.store(n, Relaxed);
    if n > BUDGET.load(Relaxed) {
        violate(
            "no-progress",
            "the step budget ran out: a thread yields forever",
        );
    }
    if let Some(next) = pick(Some(me)) {
        new_gap();
        note_switch(me, next, 1);
        gate_open(next);
        gate_wait(me);
    }
}

unsafe fn sim_sleep(ns: u64) {
    let me = TASK.with(|t| t.get());
    if SCHED.on && me >= 0 {
        let me = me as usize;
        SCHED.st[me] = St::Blocked {
            addr: 0,
            deadline: now_ns() + ns,
        };
        switch_away(me);
        SCHED.timed_out[me] = false;
    } else {
        advance(ns);
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if ACTIVE.load(Relaxed) {
        sim_sleep((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
        return 0;
    }
    let r = raw6(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 {
        return set_errno(-r as i32) as i32;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: i32,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if ACTIVE.load(Relaxed) {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let ns = if flags & libc::TIMER_ABSTIME != 0 {
            t.saturating_sub(now_ns())
        } else {
            t
        };
        sim_sleep(ns);
        return 0;
    }
    let r = raw6(
        libc::SYS_clock_nanosleep,
        clk as i64,
        flags as i64,
        req as i64,
        rem as i64,
        0,
        0,
    );
    -r as i32
}

// ---------------------------------------------------------------------------------------------
// memory accounting

pub struct Accounting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);

unsafe impl GlobalAlloc for Accounting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        LIVE.store(LIVE.load(Relaxed) - l.size() as i64, Relaxed);
        grow(new);
        System.realloc(p, l, new)
    }
}

fn grow(n: usize) {
    let v = LIVE
        .load(Relaxed)
        .saturating_add(n.min(i64::MAX as usize) as i64);
    LIVE.store(v, Relaxed);
    if v > PEAK.load(Relaxed) {
        PEAK.store(v, Relaxed);
        if v > LIMIT.load(Relaxed) && ACTIVE.load(Relaxed) {
            let lim = LIMIT.load(Relaxed);
            LIMIT.store(i64::MAX, Relaxed);
            violate(
                "memory",
                &format!("more than the allowed {lim} bytes of memory in use"),
            );
        }
    }
}

/// Runs `f` and returns its result with the most memory that was in use above the start; more
/// than `limit` bytes is a violation.
pub fn with_memory_limit<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    LIMIT.store(base + limit as i64, Relaxed);
    let r = f();
    LIMIT.store(i64::MAX, Relaxed);
    (r, (PEAK.load(Relaxed) - base).max(0) as usize)
}

// ---------------------------------------------------------------------------------------------
// runs

#[derive(Clone, Debug)]
pub enum Source {
    Seed(u64),
    Tape(Vec<u32>),
}

#[derive(Clone, Debug)]
pub struct Outcome {
    /// None: the property held. Some((kind, message)): it did not.
    pub bad: Option<(String, String)>,
    pub tape: Vec<u32>,
    pub trace: String,
    pub trace_hash: u64,
    pub trace_lines: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub nontrivial: bool,
    pub ctr: Vec<(String, u64)>,
    pub states: Vec<u64>,
}

/// Makes the calling process a simulated one. Used in the forked child and in exec'd lifetimes.
pub fn activate(src: Source, budget: u64) {
    unsafe {
        match src {
            Source::Seed(s) => {
                TAPE = Tape {
                    gen: Some(Prng::new(s)),
                    replay: Vec::new(),
                    pos: 0,
                    exhausted: false,
                };
                seed_entropy(0x5eed);
            }
            Source::Tape(t) => {
                TAPE = Tape {
                    gen: None,
                    replay: t,
                    pos: 0,
                    exhausted: false,
                };
                seed_entropy(0x5eed);
            }
        }
        STEPS.store(0, SeqCst);
        CLOCK_EXTRA.store(0, SeqCst);
        CLOCK_SKEW.store(0, SeqCst);
        SWITCHES.store(0, SeqCst);
        BUDGET.store(budget, SeqCst);
        COUNTDOWN = u64::MAX;
    }
    std::panic::set_hook(Box::new(|_| {}));
    ACTIVE.store(true, SeqCst);
}

pub fn deactivate() {
    ACTIVE.store(false, SeqCst);
    finish_counts();
}

/// Runs `f` (no more edges counted, no simulation) inside an active run.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = ACTIVE.swap(false, SeqCst);
    let r = f();
    ACTIVE.store(was, SeqCst);
    r
}

/// Executes one run in a forked child.
pub fn run(src: &Source, budget: u64, cpu_s: u64, f: &dyn Fn()) -> Outcome {
    run_keep(src, budget, cpu_s, f, true)
}

pub fn run_keep(src: &Source, budget: u64, cpu_s: u64, f: &dyn Fn(), keep: bool) -> Outcome {
    reset_shared();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let it = libc::itimerval {
                it_interval: libc::timeval {
                    tv_sec: 0,
                    tv_usec: 0,
                },
                it_value: libc::timeval {
                    tv_sec: cpu_s as i64,
                    tv_usec: 0,
                },
            };
            raw6(
                libc::SYS_setitimer,
                libc::ITIMER_VIRTUAL as i64,
                &it as *const _ as i64,
                0,
                0,
                0,
                0,
            );
            libc::alarm((cpu_s + 10) as u32);
            let rl = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &rl);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            activate(src.clone(), budget);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if let Err(p) = r {
                let m = panic_message(&*p);
                violate(
                    "panic",
                    &format!("a panic nothing in the run provoked: {m}"),
                );
            }
            ACTIVE.store(false, SeqCst);
            finish_counts();
            shared().status = 1;
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = shared();
        let bad = if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let (k, m) = match sig {
                libc::SIGVTALRM => ("hang", "the run kept computing without end".to_string()),
                libc::SIGALRM => ("hang", "the run never ended".to_string()),
                libc::SIGABRT => ("abort", "the process aborted (stack overflow, failed allocation or a panic that could not unwind)".to_string()),
                libc::SIGSEGV | libc::SIGBUS => ("crash", "the process died of a memory fault".to_string()),
                _ => ("signal", format!("the process died of signal {sig}")),
            };
            Some((k.to_string(), m))
        } else if s.status == 2 {
            Some((
                String::from_utf8_lossy(&s.kind[..s.kind_len as usize]).into_owned(),
                String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned(),
            ))
        } else if s.status == 1 {
            None
        } else {
            Some((
                "exit".to_string(),
                "the process exited in the middle of the run".to_string(),
            ))
        };
        let keep = keep || bad.is_some();
        Outcome {
            bad,
            tape: if keep {
                s.tape[..s.tape_len as usize].to_vec()
            } else {
                Vec::new()
            },
            trace: if keep {
                String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned()
            } else {
                String::new()
            },
            trace_hash: s.trace_hash,
            trace_lines: s.trace_lines,
            steps: s.steps,
            sim_ns: s.sim_ns,
            switches: s.switches,
            sched_hash: s.sched_hash,
            nontrivial: s.nontrivial != 0,
            ctr: s.ctr[..s.nctr as usize]
                .iter()
                .map(|c| {
                    let l = c.name.iter().position(|b| *b == 0).unwrap_or(40);
                    (String::from_utf8_lossy(&c.name[..l]).into_owned(), c.n)
                })
                .collect(),
            states: s.states[..s.nstates as usize].to_vec(),
        }
    }
}

/// The edges the last run covered, as words of a bitmap.
pub fn last_edges() -> &'static [u64] {
    &shared().edges[..]
}
