//! Concurrent histories of the stack. Threads run freely, or one at a time under a schedule that
//! names the machine instruction at which each thread is set aside (by single-stepping itself).
use crate::util::*;
use extended_collections::sync::Stack;
use std::cell::Cell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

extern "C" {
    fn sigaction(sig: c_int, act: *const SigAction, old: *mut SigAction) -> c_int;
    fn sched_yield() -> c_int;
    static __executable_start: u8;
    static etext: u8;
}
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: c_int,
    restorer: usize,
}
const SA_SIGINFO: c_int = 4;
const SA_NODEFER: c_int = 0x4000_0000;
const SIGTRAP: c_int = 5;
const TF: i64 = 0x100;
const NT: usize = 8;

static TURN: AtomicUsize = AtomicUsize::new(usize::max_value());
static SEG: AtomicUsize = AtomicUsize::new(0);
static REMAIN: AtomicI64 = AtomicI64::new(-1);
static NSEG: AtomicUsize = AtomicUsize::new(0);
static NTHREADS: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicI64 = AtomicI64::new(0);
const Z: AtomicUsize = AtomicUsize::new(0);
const ZI: AtomicI64 = AtomicI64::new(0);
const ZB: AtomicBool = AtomicBool::new(false);
static SEG_T: [AtomicUsize; 64] = [Z; 64];
static SEG_N: [AtomicI64; 64] = [ZI; 64];
static DONE: [AtomicBool; NT] = [ZB; NT];
thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

/// Hands the turn on: to the next segment of the schedule whose thread has work left, then to anyone.
fn advance() {
    let mut s = SEG.load(SeqCst) + 1;
    let n = NSEG.load(SeqCst);
    while s < n && DONE[SEG_T[s].load(SeqCst)].load(SeqCst) {
        s += 1;
    }
    SEG.store(s, SeqCst);
    if s < n {
        REMAIN.store(SEG_N[s].load(SeqCst), SeqCst);
        TURN.store(SEG_T[s].load(SeqCst), SeqCst);
        return;
    }
    REMAIN.store(-1, SeqCst);
    for t in 0..NTHREADS.load(SeqCst) {
        if !DONE[t].load(SeqCst) {
            TURN.store(t, SeqCst);
            return;
        }
    }
    TURN.store(usize::max_value(), SeqCst);
}
fn await_turn(me: usize) {
    let mut n = 0u32;
    while TURN.load(SeqCst) != me {
        n += 1;
        if n % 64 == 0 {
            unsafe { sched_yield() };
        } else {
            std::hint::spin_loop();
        }
    }
}
unsafe extern "C" fn on_step(_s: c_int, _i: *mut c_void, uc: *mut c_void) {
    let gregs = (uc as *mut u8).add(40) as *mut i64;
    let rip = *gregs.add(16) as usize;
    if rip < &__executable_start as *const u8 as usize || rip >= &etext as *const u8 as usize {
        return;
    }
    STEPS.fetch_add(1, SeqCst);
    let left = REMAIN.load(SeqCst);
    if left < 0 {
        *gregs.add(17) &= !TF;
        return;
    }
    if left > 0 {
        REMAIN.store(left - 1, SeqCst);
        return;
    }
    let me = ME.with(|m| m.get());
    advance();
    await_turn(me);
    if REMAIN.load(SeqCst) < 0 {
        *gregs.add(17) &= !TF;
    }
}
#[inline(always)]
fn step_on() {
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn step_off() {
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
fn install() {
    let a = SigAction {
        handler: on_step as usize,
        mask: [0; 16],
        flags: SA_SIGINFO | SA_NODEFER,
        restorer: 0,
    };
    unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) };
}

/// Runs `f` alone, counting the instructions of this program it executes (those of libc excluded).
pub fn count_steps<R, F: FnOnce() -> R>(f: F) -> (R, i64) {
    install();
    STEPS.store(0, SeqCst);
    REMAIN.store(i64::max_value() / 2, SeqCst);
    step_on();
    let r = f();
    step_off();
    (r, STEPS.load(SeqCst))
}

static SEEN: Mutex<Option<HashSet<u64>>> = Mutex::new(None);
pub static RUNS: AtomicUsize = AtomicUsize::new(0);
struct Rec {
    body: Vec<String>,
}
impl Rec {
    fn ev(&mut self, b: String) {
        self.body.push(b);
    }
}

/// A value whose destruction is counted.
pub struct Tok(pub u32, Arc<Vec<AtomicU32>>);
impl Drop for Tok {
    fn drop(&mut self) {
        // a corrupted value may carry any number
        if let Some(c) = self.1.get(self.0 as usize) {
            c.fetch_add(1, SeqCst);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SOp {
    Push(u32),
    Pop,
    Len,
    Empty,
}
struct Ev {
    at: usize,
    end: usize,
    op: SOp,
    r: i64,
}
pub struct Plan {
    pub initial: u32,
    pub threads: Vec<Vec<SOp>>,
    /// empty: run freely
    pub sched: Vec<(usize, i64)>,
}

/// Runs a plan; returns the number of instructions stepped through.
pub fn run(out: &mut Out, id: &str, plan: &Plan) -> i64 {
    static SEQ: AtomicUsize = AtomicUsize::new(0);
    let nt = plan.threads.len();
    let total = plan.initial + plan.threads.iter().flat_map(|t| t.iter()).filter(|o| if let SOp::Push(_) = o { true } else { false }).count() as u32;
    let counts: Arc<Vec<AtomicU32>> = Arc::new((0..=total).map(|_| AtomicU32::new(0)).collect());
    let stack: Arc<Stack<Tok>> = Arc::new(Stack::new());
    for i in 1..=plan.initial {
        stack.push(Tok(i, counts.clone()));
    }
    SEQ.store(0, SeqCst);
    STEPS.store(0, SeqCst);
    NTHREADS.store(nt, SeqCst);
    for t in 0..nt {
        DONE[t].store(false, SeqCst);
    }
    let stepped = !plan.sched.is_empty();
    NSEG.store(plan.sched.len(), SeqCst);
    for (i, (t, n)) in plan.sched.iter().enumerate() {
        SEG_T[i].store(*t, SeqCst);
        SEG_N[i].store(*n, SeqCst);
    }
    if stepped {
        SEG.store(0, SeqCst);
        REMAIN.store(plan.sched[0].1, SeqCst);
        TURN.store(plan.sched[0].0, SeqCst);
    }
    let barrier = Arc::new(Barrier::new(nt));
    let mut hs = vec![];
    for (t, ops) in plan.threads.iter().enumerate() {
        let (ops, stack, counts, barrier) = (ops.clone(), stack.clone(), counts.clone(), barrier.clone());
        hs.push(std::thread::spawn(move || {
            ME.with(|m| m.set(t));
            let mut evs = vec![];
            let mut got = Vec::with_capacity(64);
            // first use of the reclamation scheme in this thread
            let other: Stack<u32> = Stack::new();
            other.push(1);
            other.try_pop();
            drop(other);
            barrier.wait();
            if stepped {
                await_turn(t);
            }
            for op in ops {
                // built before the call so that only the call itself is interleaved
                let tok = if let SOp::Push(v) = op { Some(Tok(v, counts.clone())) } else { None };
                let at = SEQ.fetch_add(1, SeqCst);
                if stepped {
                    step_on();
                }
                let mut popped = None;
                let mut r = -1;
                match op {
                    SOp::Push(_) => stack.push(tok.unwrap()),
                    SOp::Pop => popped = stack.try_pop(),
                    SOp::Len => r = cnt(stack.len()),
                    SOp::Empty => r = stack.is_empty() as i64,
                }
                if stepped {
                    step_off();
                }
                let end = SEQ.fetch_add(1, SeqCst);
                if op == SOp::Pop {
                    r = popped.as_ref().map_or(0, |x| x.0 as i64);
                    got.push(popped);
                }
                evs.push(Ev { at, end, op, r });
            }
            if stepped {
                DONE[t].store(true, SeqCst);
                advance();
            }
            (evs, got)
        }));
    }
    let mut evs: Vec<(usize, bool, usize, SOp, i64)> = vec![];
    let mut got = vec![];
    let mut died = false;
    for (t, h) in hs.into_iter().enumerate() {
        match h.join() {
            Ok((e, g)) => {
                for x in e {
                    evs.push((x.at, true, t, x.op, x.r));
                    evs.push((x.end, false, t, x.op, x.r));
                }
                got.extend(g);
            }
            Err(_) => died = true,
        }
    }
    evs.sort_by_key(|e| e.0);
    let mut tr = Rec { body: vec![] };
    // between which events each value was handed out
    let keep = if total <= 8 { total as usize / 2 } else { total as usize };
    let last = evs.len() as i64 + total as i64 + 2;
    let (mut pc, mut pr) = (vec![last; total as usize], vec![last; total as usize]);
    for (i, (_, call, _, op, r)) in evs.iter().enumerate() {
        if *op == SOp::Pop && *r >= 1 && *r <= total as i64 {
            let w = if *call { &mut pc } else { &mut pr };
            w[*r as usize - 1] = i as i64 + 1;
        }
    }
    let events = evs.len() as i64;
    for (_, call, t, op, r) in &evs {
        let (o, a) = match op {
            SOp::Push(v) => ("push", *v as i64),
            SOp::Pop => ("pop", 0),
            SOp::Len => ("len", 0),
            SOp::Empty => ("empty", 0),
        };
        tr.ev(format!("\"e\":\"{}\",\"t\":{},\"o\":\"{}\",\"v\":{},\"r\":{}", if *call { "call" } else { "ret" }, t + 1, o, a, clamp(*r)));
    }
    if died {
        tr.ev("\"e\":\"died\",\"t\":1,\"o\":\"none\",\"v\":0,\"r\":0".to_string());
    }
    // alone again: the length, and everything left, in order
    let mut left = vec![];
    let n = cnt(stack.len());
    let early: Vec<i64> = counts.iter().map(|c| c.load(SeqCst) as i64).collect();
    let mut rest = vec![];
    while left.len() <= keep {
        match stack.try_pop() {
            Some(x) => {
                left.push(x.0 as i64);
                if x.0 >= 1 && x.0 <= total {
                    pc[x.0 as usize - 1] = events + left.len() as i64;
                    pr[x.0 as usize - 1] = events + left.len() as i64;
                }
                rest.push(x);
            }
            None => break,
        }
    }
    let n2 = cnt(stack.len());
    drop(rest);
    drop(got);
    drop(stack);
    // lets deferred work of the reclamation scheme run
    let other: Stack<u32> = Stack::new();
    for i in 0..600 {
        other.push(i);
        other.try_pop();
    }
    let late: Vec<i64> = counts.iter().map(|c| c.load(SeqCst) as i64).collect();
    tr.ev(format!(
        "\"e\":\"end\",\"t\":1,\"o\":\"none\",\"v\":0,\"r\":0,\"n\":{},\"left\":{},\"keep\":{},\"n2\":{},\"early\":{},\"late\":{}",
        n,
        js(&left),
        keep + 1,
        n2,
        js(&early),
        js(&late)
    ));
    let header = format!(",\"init\":{},\"total\":{},\"pc\":{},\"pr\":{}", plan.initial, total, js(&pc), js(&pr));
    // schedules that produce the same history need judging once
    let mut hs = std::collections::hash_map::DefaultHasher::new();
    (&header, &tr.body).hash(&mut hs);
    if SEEN.lock().unwrap().get_or_insert_with(Default::default).insert(hs.finish()) {
        out.begin("stack", id, &header);
        for b in &tr.body {
            out.ev(b);
        }
        out.end();
    }
    RUNS.fetch_add(1, SeqCst);
    STEPS.load(SeqCst)
}

fn gen_ops(rng: &mut Rng, n: usize, next: &mut u32, style: u64) -> Vec<SOp> {
    (0..n)
        .map(|i| {
            let x = rng.below(100);
            let push = match style {
                0 => 45,
                1 => if i < n / 2 { 8 } else { 80 },
                2 => 75,
                _ => 20,
            };
            if x < push {
                *next += 1;
                SOp::Push(*next)
            } else if x < 88 {
                SOp::Pop
            } else if x < 96 {
                SOp::Len
            } else {
                SOp::Empty
            }
        })
        .collect()
}

/// Threads running freely.
pub fn free(out: &mut Out, rng: &mut Rng, id: &str, nt: usize, n: usize) {
    let initial = rng.below(4) as u32;
    let mut next = initial;
    let style = rng.below(4);
    let threads = (0..nt).map(|_| gen_ops(rng, n, &mut next, style)).collect();
    run(out, id, &Plan { initial, threads, sched: vec![] });
}

/// One thread's calls cut at every instruction, another thread's calls in between.
pub fn stepped(out: &mut Out, rng: &mut Rng, id: &str, budget: i64) {
    install();
    let initial = rng.below(4) as u32;
    let mut next = initial;
    let three = rng.chance(1, 4);
    let na = 1 + rng.below(2) as usize;
    let nb = 1 + rng.below(4) as usize;
    let (sa, sb) = (rng.below(4), rng.below(4));
    let mut threads = vec![gen_ops(rng, na, &mut next, sa), gen_ops(rng, nb, &mut next, sb)];
    if three {
        let nc = 1 + rng.below(3) as usize;
        threads.push(gen_ops(rng, nc, &mut next, sa));
    }
    let mut plan = Plan { initial, threads, sched: vec![(0, i64::max_value() / 4)] };
    // how long the first thread's calls are when nobody interferes
    let len = run(out, &format!("{}-alone", id), &plan);
    let mut runs = 1;
    // every cut of the first thread
    let step = (len / (budget / 2).max(1)).max(1);
    let mut i = rng.below(step as u64) as i64;
    while i <= len {
        plan.sched = vec![(0, i), (1, -1), (2.min(plan.threads.len() - 1), -1)];
        run(out, &format!("{}-cut{}", id, i), &plan);
        runs += 1;
        i += step;
    }
    // several cuts in both
    while runs < budget {
        plan.sched.clear();
        let k = 2 + rng.below(4) as usize;
        for j in 0..k {
            let t = if three { rng.below(3) as usize } else { j % 2 };
            plan.sched.push((t, rng.below(len.max(2) as u64) as i64 / (1 + rng.below(2) as i64)));
        }
        run(out, &format!("{}-mix{}", id, runs), &plan);
        runs += 1;
    }
}
