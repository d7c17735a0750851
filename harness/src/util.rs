//! Recording: random numbers, instrumented key and value types, and the history writer.
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x >> 12;
        x ^= x << 25;
        x ^= x >> 27;
        self.0 = x;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick_ref<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

thread_local! {
    pub static CMPS: Cell<u64> = Cell::new(0);
    pub static DROPS: RefCell<Vec<u32>> = RefCell::new(Vec::new());
    pub static TRACK: Cell<bool> = Cell::new(false);
    static IDS: Cell<u32> = Cell::new(1);
    /// (which of the element's own calls fail: 1 comparisons, 2 destructors, 3 both; calls until then)
    static BOOM: Cell<(i64, i64)> = Cell::new((0, 0));
}

/// One of the element's own calls, of some kind, is going to fail (within tracked code only).
pub fn arm(kind: i64, n: i64) {
    BOOM.with(|b| b.set((kind, n)));
}
/// No call fails any more; whether the one that was armed did.
pub fn disarm() -> bool {
    BOOM.with(|b| b.replace((0, 0)) == (-1, -1))
}
fn user_call(kind: i64) {
    let tracked = TRACK.try_with(|t| t.get()).unwrap_or(false);
    if !tracked || std::thread::panicking() {
        return;
    }
    let fail = BOOM
        .try_with(|b| {
            let (k, n) = b.get();
            if n <= 0 || k & kind == 0 {
                return false;
            }
            b.set(if n == 1 { (-1, -1) } else { (k, n - 1) });
            n == 1
        })
        .unwrap_or(false);
    if fail {
        panic!("the element's own code fails");
    }
}
pub fn last_id() -> u32 {
    IDS.with(|i| i.get() - 1)
}

pub fn fresh_id() -> u32 {
    IDS.with(|i| {
        let v = i.get();
        i.set(v + 1);
        v
    })
}
pub fn reset_ids() {
    IDS.with(|i| i.set(1));
    DROPS.with(|d| d.borrow_mut().clear());
    TRACK.with(|t| t.set(false));
}
pub fn cmps() -> u64 {
    CMPS.with(|c| c.get())
}
fn dropped(id: u32) {
    // try_with: thread-local destruction order at thread exit
    let _ = TRACK.try_with(|t| {
        if t.get() {
            let _ = DROPS.try_with(|d| d.borrow_mut().push(id));
        }
    });
    user_call(2);
}
/// Runs `f`, recording which instrumented values are destroyed during it.
pub fn track<R, F: FnOnce() -> R>(f: F) -> R {
    TRACK.with(|t| t.set(true));
    let r = f();
    TRACK.with(|t| t.set(false));
    r
}
pub fn take_drops() -> Vec<u32> {
    TRACK.with(|t| t.set(false));
    DROPS.with(|d| std::mem::replace(&mut *d.borrow_mut(), Vec::new()))
}

/// Key: ordered by `k` only; `id` distinguishes equal keys.
pub struct K {
    pub k: i32,
    pub id: u32,
}
impl K {
    pub fn new(k: i64) -> K {
        K {
            k: k as i32,
            id: fresh_id(),
        }
    }
    /// A key used only for lookups.
    pub fn probe(k: i64) -> K {
        K { k: k as i32, id: 0 }
    }
}
impl Drop for K {
    fn drop(&mut self) {
        if self.id != 0 {
            dropped(self.id);
        }
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        CMPS.with(|c| c.set(c.get() + 1));
        user_call(1);
        self.k.cmp(&o.k)
    }
}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        CMPS.with(|c| c.set(c.get() + 1));
        user_call(1);
        self.k == o.k
    }
}
impl Eq for K {}
impl Borrow<i32> for K {
    fn borrow(&self) -> &i32 {
        &self.k
    }
}

/// Value: over-aligned, so that a container placing it at an address of its own choosing is noticed.
#[repr(align(64))]
pub struct V {
    pub v: i64,
    pub id: u32,
}
impl V {
    pub fn new(v: i64) -> V {
        V { v, id: fresh_id() }
    }
}
impl Drop for V {
    fn drop(&mut self) {
        if self.id != 0 {
            dropped(self.id);
        }
    }
}

/// One operation of a script: a name and integer arguments.
#[derive(Clone, Debug)]
pub struct Op {
    pub o: String,
    pub a: Vec<i64>,
}
impl Op {
    pub fn new(o: &str, a: &[i64]) -> Op {
        Op {
            o: o.to_string(),
            a: a.to_vec(),
        }
    }
}

/// Parses "ins 3;rem 2;..." (one script per line).
pub fn parse_script(line: &str) -> Vec<Op> {
    line.split(';')
        .filter(|s| !s.trim().is_empty())
        .map(|s| {
            let mut it = s.split_whitespace();
            let o = it.next().unwrap().to_string();
            Op {
                o,
                a: it.map(|x| x.parse::<i64>().unwrap()).collect(),
            }
        })
        .collect()
}

/// Writes histories, one JSON object per line: {"im":..., "id":..., "ev":[...]}.
pub struct Out {
    f: BufWriter<File>,
    journal: Option<File>,
    buf: String,
    first: bool,
    pub events: u64,
    pub histories: u64,
}
impl Out {
    pub fn new(path: &str) -> Out {
        let journal = std::env::var("ECD_JOURNAL").ok().map(|p| File::create(p).unwrap());
        Out {
            f: BufWriter::new(File::create(path).unwrap()),
            journal,
            buf: String::new(),
            first: true,
            events: 0,
            histories: 0,
        }
    }
    pub fn begin(&mut self, im: &str, id: &str, extra: &str) {
        self.buf.clear();
        let _ = write!(self.buf, "{{\"im\":\"{}\",\"id\":\"{}\"{},\"ev\":[", im, id, extra);
        self.first = true;
        if let Some(j) = &mut self.journal {
            let _ = j.set_len(0);
            use std::io::Seek;
            let _ = j.seek(std::io::SeekFrom::Start(0));
            let _ = writeln!(j, "{}", self.buf);
        }
    }
    /// Before an operation is issued: what a crash will be attributed to.
    pub fn intent(&mut self, o: &str, a: &[i64]) {
        if let Some(j) = &mut self.journal {
            let _ = writeln!(j, "issued {} {:?}", o, a);
        }
    }
    /// `body` is the inside of a JSON object.
    pub fn ev(&mut self, body: &str) {
        if !self.first {
            self.buf.push(',');
        }
        self.first = false;
        self.buf.push('{');
        self.buf.push_str(body);
        self.buf.push('}');
        self.events += 1;
        if let Some(j) = &mut self.journal {
            let _ = writeln!(j, "  -> {{{}}}", body);
        }
    }
    pub fn end(&mut self) {
        self.buf.push_str("]}\n");
        self.f.write_all(self.buf.as_bytes()).unwrap();
        self.histories += 1;
    }
    pub fn finish(mut self) {
        self.f.flush().unwrap();
        eprintln!("RECORDED histories={} events={}", self.histories, self.events);
    }
}

/// TLC integers have 32 bits; anything this large is wrong already.
pub fn clamp(x: i64) -> i64 {
    x.max(-(1 << 30)).min(1 << 30)
}
pub fn cnt(x: usize) -> i64 {
    clamp(x as i64)
}
pub fn js(xs: &[i64]) -> String {
    let mut s = String::with_capacity(xs.len() * 4 + 2);
    s.push('[');
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", clamp(*x));
    }
    s.push(']');
    s
}
pub fn jss(xs: &[Vec<i64>]) -> String {
    let mut s = String::from("[");
    for (i, x) in xs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&js(x));
    }
    s.push(']');
    s
}
pub fn base(o: &str, a: &[i64], r: &str) -> String {
    format!("\"o\":\"{}\",\"a\":{},\"r\":{}", o, js(a), r)
}

/// Decides the next random number the code under test draws (hooked builds only).
#[cfg(ecd_hooks)]
pub fn decide(xs: &[u32]) {
    extended_collections::rng::chosen::forget();
    for x in xs {
        extended_collections::rng::chosen::choose(*x);
    }
}
#[cfg(not(ecd_hooks))]
pub fn decide(_: &[u32]) {}

/// Unfavourable random choices for a whole history: ties, runs, extremes.
pub struct Steer {
    rng: Rng,
    style: u64,
    at: u32,
}
impl Steer {
    pub fn new(seed: i64, id: &str) -> Option<Steer> {
        decide(&[]);
        if seed == 0 {
            return None;
        }
        let h = id.bytes().fold(seed as u64, |h, b| h.wrapping_mul(31).wrapping_add(u64::from(b)));
        let mut rng = Rng::new(h);
        let style = rng.below(8);
        let at = rng.pick(&[0, 1, 7, 1 << 16, 1 << 31, u32::max_value()]);
        Some(Steer { rng, style, at })
    }
    pub fn next(&mut self) {
        let mut xs = [0u32; 3];
        for x in &mut xs {
            *x = match self.style {
                0 => self.at,
                1 => self.rng.below(3) as u32,
                2 => {
                    self.at = self.at.wrapping_add(1);
                    self.at
                }
                3 => {
                    self.at = self.at.wrapping_sub(1);
                    self.at
                }
                4 => (1u64 << 31 >> self.rng.pick(&[0, 0, 1, 2, 3, 7, 30, 31, 32])) as u32,
                5 => self.rng.pick(&[0, 1, 1 << 31, u32::max_value()]),
                6 => (1u64 << 31 >> self.rng.below(4)) as u32,
                _ => self.rng.next() as u32,
            };
        }
        decide(&xs);
    }
}

/// Runs an operation of the code under test; `Err` if it panicked.
pub fn guarded<R, F: FnOnce() -> R>(f: F) -> Result<R, ()> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        std::mem::forget(e);
    })
}

/// Overwrites freed memory when asked to, so that using it afterwards shows.
pub struct Poison;
static POISON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn poison() {
    POISON.store(true, std::sync::atomic::Ordering::SeqCst);
}
unsafe impl std::alloc::GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if POISON.load(std::sync::atomic::Ordering::Relaxed) {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Poison = Poison;

/// Inserts failures of the elements' own code into a script.
pub fn with_booms(rng: &mut Rng, ops: Vec<Op>) -> Vec<Op> {
    let rate = rng.pick(&[3, 6, 12, 30]);
    let mut v = Vec::new();
    for op in ops {
        if op.o != "sweep" && rng.chance(1, rate) {
            let n = if rng.chance(2, 3) { rng.range(1, 6) } else { rng.range(1, 30) };
            v.push(Op::new("boom", &[rng.range(1, 3), n]));
        }
        v.push(op);
    }
    v
}
