//! Histories of the log-structured map, with a controlled compaction thread, reopening and kills.
use crate::shim;
use crate::util::*;
use extended_collections::lsm_tree::compaction::{CompactionStrategy, LeveledStrategy, SizeTieredStrategy};
use extended_collections::lsm_tree::{LsmMap, Result};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::hash::Hash;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub mem: u64,
    pub mc: usize,
    pub min: u64,
    pub low: f64,
    pub high: f64,
    pub maxs: u64,
    pub mi: usize,
    pub gf: u64,
    pub kmax: i64,
}

pub trait Codec: 'static {
    type K: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync;
    type V: 'static + Clone + DeserializeOwned + Send + Serialize + Sync;
    fn k(k: i64) -> Self::K;
    fn v(v: i64) -> Self::V;
    fn kx(k: &Self::K) -> i64;
    fn vx(v: &Self::V) -> i64;
}
pub struct Num;
impl Codec for Num {
    type K = u32;
    type V = u64;
    fn k(k: i64) -> u32 {
        k as u32
    }
    fn v(v: i64) -> u64 {
        v as u64
    }
    fn kx(k: &u32) -> i64 {
        *k as i64
    }
    fn vx(v: &u64) -> i64 {
        *v as i64
    }
}
/// Strings of varying length on both sides.
pub struct Text;
impl Codec for Text {
    type K = String;
    type V = Vec<u8>;
    fn k(k: i64) -> String {
        format!("{:06}{}", k, "k".repeat((k as usize * 7) % 23))
    }
    fn v(v: i64) -> Vec<u8> {
        let mut b = format!("{};", v).into_bytes();
        b.extend(std::iter::repeat(b'v').take((v as usize * 5) % 37));
        b
    }
    fn kx(k: &String) -> i64 {
        let n: i64 = k.get(..6).and_then(|s| s.parse().ok()).unwrap_or(-7);
        if n >= 0 && *k == Self::k(n) {
            n
        } else {
            -7
        }
    }
    fn vx(v: &Vec<u8>) -> i64 {
        let s: Vec<u8> = v.iter().cloned().take_while(|b| *b != b';').collect();
        let n: i64 = String::from_utf8_lossy(&s).parse().unwrap_or(-7);
        if n >= 0 && *v == Self::v(n) {
            n
        } else {
            -7
        }
    }
}
/// Signed pair keys, unit-like optional values.
pub struct Pair;
impl Codec for Pair {
    type K = (i8, i32);
    type V = Option<i64>;
    fn k(k: i64) -> (i8, i32) {
        ((k / 4) as i8 - 2, (k % 4) as i32 - 2)
    }
    fn v(v: i64) -> Option<i64> {
        if v == 0 {
            None
        } else {
            Some(v)
        }
    }
    fn kx(k: &(i8, i32)) -> i64 {
        (k.0 as i64 + 2) * 4 + k.1 as i64 + 2
    }
    fn vx(v: &Option<i64>) -> i64 {
        v.unwrap_or(0)
    }
}

/// Values of very different sizes, so that tables holding the same number of entries do not look alike.
pub struct Blob;
impl Blob {
    fn width(v: i64) -> usize {
        [0, 0, 0, 0, 400, 400, 3000, 3000][(v as usize).wrapping_mul(2_654_435_761) >> 7 & 7]
    }
}
impl Codec for Blob {
    type K = u32;
    type V = Vec<u8>;
    fn k(k: i64) -> u32 {
        k as u32
    }
    fn v(v: i64) -> Vec<u8> {
        let mut b = (v as u32).to_be_bytes().to_vec();
        b.extend(std::iter::repeat(v as u8).take(Self::width(v)));
        b
    }
    fn kx(k: &u32) -> i64 {
        *k as i64
    }
    fn vx(v: &Vec<u8>) -> i64 {
        let n = v.iter().take(4).fold(0, |n, b| n * 256 + *b as i64);
        if *v == Self::v(n) {
            n
        } else {
            -7
        }
    }
}

pub trait Strat<C: Codec>: CompactionStrategy<C::K, C::V> + Sized {
    fn create(p: &Path, c: &Cfg) -> Result<Self>;
    fn reopen(p: &Path) -> Result<Self>;
}
impl<C: Codec> Strat<C> for SizeTieredStrategy<C::K, C::V> {
    fn create(p: &Path, c: &Cfg) -> Result<Self> {
        SizeTieredStrategy::new(p, c.mem, c.mc, c.min, c.low, c.high)
    }
    fn reopen(p: &Path) -> Result<Self> {
        SizeTieredStrategy::open(p)
    }
}
impl<C: Codec> Strat<C> for LeveledStrategy<C::K, C::V> {
    fn create(p: &Path, c: &Cfg) -> Result<Self> {
        LeveledStrategy::new(p, c.mem, c.mc, c.maxs, c.mi, c.gf)
    }
    fn reopen(p: &Path) -> Result<Self> {
        LeveledStrategy::open(p)
    }
}

type It<C> = Box<dyn Iterator<Item = Result<(<C as Codec>::K, <C as Codec>::V)>>>;

pub struct Store<C: Codec, S: Strat<C>> {
    m: Option<LsmMap<C::K, C::V, S>>,
    its: BTreeMap<i64, It<C>>,
    path: PathBuf,
    cfg: Cfg,
    /// false once the store was closed with compaction work outstanding or killed
    clean: bool,
    /// nothing has happened since the last flush
    flushed: bool,
}

fn dirs(p: &Path) -> i64 {
    match std::fs::read_dir(p) {
        Ok(d) => d.filter(|e| e.as_ref().map(|e| e.path().is_dir()).unwrap_or(false)).count() as i64,
        Err(_) => -1,
    }
}

fn contents<C: Codec, S: Strat<C>>(m: &mut LsmMap<C::K, C::V, S>, kmax: i64) -> Result<Vec<Vec<i64>>> {
    let mut r = vec![];
    for k in 0..=kmax + 1 {
        if let Some(v) = m.get(&C::k(k))? {
            r.push(vec![k, C::vx(&v)]);
        }
    }
    Ok(r)
}

impl<C: Codec, S: Strat<C>> Store<C, S> {
    pub fn create(path: &Path, cfg: Cfg) -> Result<Self> {
        Ok(Store { m: Some(LsmMap::new(S::create(path, &cfg)?)), its: BTreeMap::new(), path: path.into(), cfg, clean: true, flushed: true })
    }
    pub fn open(path: &Path, cfg: Cfg) -> Result<Self> {
        Ok(Store { m: Some(LsmMap::new(S::reopen(path)?)), its: BTreeMap::new(), path: path.into(), cfg, clean: false, flushed: true })
    }
    pub fn read_all(&mut self) -> Result<String> {
        Ok(jss(&contents::<C, S>(self.m.as_mut().unwrap(), self.cfg.kmax)?))
    }

    /// Runs one operation; the text describes it to the specification.
    pub fn step(&mut self, op: &Op) -> Result<Option<String>> {
        let a = |i: usize| op.a[i];
        let mut extra = String::new();
        let m = self.m.as_mut().unwrap();
        let pairs = |xs: Vec<(C::K, C::V)>| jss(&xs.iter().map(|(k, v)| vec![C::kx(k), C::vx(v)]).collect::<Vec<_>>());
        let r = match op.o.as_str() {
            "ins" => {
                m.insert(C::k(a(0)), C::v(a(1)))?;
                "[]".into()
            }
            "rem" => {
                m.remove(C::k(a(0)))?;
                "[]".into()
            }
            "has" => js(&[m.contains_key(&C::k(a(0)))? as i64]),
            "get" => match m.get(&C::k(a(0)))? {
                Some(v) => js(&[C::vx(&v)]),
                None => "[]".into(),
            },
            "hint" => js(&[cnt(m.len_hint()?)]),
            "len" => js(&[cnt(m.len()?)]),
            "empty" => js(&[m.is_empty()? as i64]),
            "min" => js(&m.min()?.map(|k| C::kx(&k)).into_iter().collect::<Vec<_>>()),
            "max" => js(&m.max()?.map(|k| C::kx(&k)).into_iter().collect::<Vec<_>>()),
            "flush" => {
                m.flush()?;
                "[]".into()
            }
            // the number of tables is judged after enough further flushes to let every due compaction run
            "settle" => {
                m.flush()?;
                let n = if !self.its.is_empty() {
                    0
                } else if self.clean {
                    dirs(&self.path)
                } else {
                    // directories nobody names may be left over: count the tables that are read
                    shim::trace();
                    let it = m.iter()?;
                    for x in it {
                        x?;
                    }
                    let at = self.path.to_string_lossy().into_owned() + "/";
                    let seen = shim::traced();
                    let names = seen.iter().filter_map(|s| s.strip_prefix(&at)).filter_map(|s| s.find('/').map(|i| &s[..i]));
                    names.collect::<std::collections::HashSet<_>>().len() as i64
                };
                extra = format!(",\"d\":{}", n);
                "[]".into()
            }
            "clear" => {
                self.its.clear();
                m.clear()?;
                extra = format!(",\"d\":{}", if self.clean { dirs(&self.path) } else { 0 });
                self.clean = self.clean || (shim::threads() <= 1 && !shim::failing());
                "[]".into()
            }
            "sweep" => jss(&contents::<C, S>(m, self.cfg.kmax)?),
            "iter" => {
                let mut xs = vec![];
                let mut i = 0;
                for x in m.iter()? {
                    xs.push(x?);
                    i += 1;
                    if i > 100_000 {
                        break;
                    }
                }
                pairs(xs)
            }
            "it" => {
                let it = m.iter()?;
                self.its.insert(a(0), it);
                "[]".into()
            }
            // takes up to a(1) items; "x" tells whether the iterator said it had no more
            "nx" => {
                let it = match self.its.get_mut(&a(0)) {
                    Some(it) => it,
                    None => return Ok(None),
                };
                let mut xs = vec![];
                let mut end = 0;
                for _ in 0..a(1) {
                    match it.next() {
                        Some(x) => xs.push(x?),
                        None => {
                            end = 1;
                            break;
                        }
                    }
                }
                extra = format!(",\"x\":{}", end);
                pairs(xs)
            }
            "itc" => {
                if self.its.remove(&a(0)).is_none() {
                    return Ok(None);
                }
                "[]".into()
            }
            "reopen" => {
                self.its.clear();
                self.m = None;
                shim::heal();
                if !self.flushed {
                    self.clean = false;
                }
                self.m = Some(LsmMap::new(S::reopen(&self.path)?));
                self.read_all()?
            }
            // closes and opens the flushed store and reads all of it: tables nobody looks at are garbage
            "tidy" => {
                self.its.clear();
                m.flush()?;
                self.m = None;
                shim::heal();
                shim::trace();
                self.m = Some(LsmMap::new(S::reopen(&self.path)?));
                let mut xs = vec![];
                for x in self.m.as_mut().unwrap().iter()? {
                    xs.push(x?);
                }
                let seen = shim::traced();
                let mut garbage = 0;
                for e in std::fs::read_dir(&self.path)? {
                    let p = e?.path();
                    if p.is_dir() {
                        let p = p.to_string_lossy().into_owned() + "/";
                        garbage += !seen.iter().any(|s| s.starts_with(&p)) as i64;
                    }
                }
                extra = format!(",\"g\":{}", if self.clean { garbage } else { 0 });
                pairs(xs)
            }
            "hold" => {
                shim::hold();
                return Ok(None);
            }
            "rel" => {
                shim::release();
                return Ok(None);
            }
            "bg" => {
                shim::permit(a(0));
                return Ok(None);
            }
            "wait" => {
                shim::release();
                shim::quiesce();
                return Ok(None);
            }
            // file calls of some kinds fail
            "fail" => {
                self.clean = false;
                shim::fail(a(0) as u64, a(1) as u64, a(2), a(3));
                return Ok(None);
            }
            "heal" => {
                shim::heal();
                return Ok(None);
            }
            o => panic!("unknown operation {}", o),
        };
        shim::progress();
        if op.o != "reopen" && op.o != "sweep" {
            self.flushed = op.o == "flush" || op.o == "settle" || op.o == "tidy" || op.o == "clear";
        }
        Ok(Some(format!("{}{}", base(&op.o, &op.a, &r), extra)))
    }
    /// What a refused operation was about.
    fn after(&mut self, op: &Op) -> Result<String> {
        let m = self.m.as_mut().unwrap();
        Ok(match op.o.as_str() {
            "ins" | "rem" => js(&m.get(&C::k(op.a[0]))?.map(|v| C::vx(&v)).into_iter().collect::<Vec<_>>()),
            "clear" => {
                self.its.clear();
                self.read_all()?
            }
            "nx" => {
                self.its.remove(&op.a[0]);
                "[]".into()
            }
            _ => "[]".into(),
        })
    }
    fn close(mut self) {
        self.its.clear();
        self.m = None;
        shim::heal();
        shim::release();
        shim::quiesce();
    }
}

fn header(cfg: &Cfg, lv: i64) -> String {
    format!(",\"lv\":{},\"mc\":{},\"mi\":{},\"gf\":{},\"kmax\":{}", lv, cfg.mc, cfg.mi, cfg.gf, cfg.kmax)
}

fn fresh_dir(id: &str) -> PathBuf {
    let p = std::env::temp_dir().join(format!("lsmdb-{}", id));
    let _ = std::fs::remove_dir_all(&p);
    p
}

fn event<C: Codec, S: Strat<C>>(st: &mut Store<C, S>, op: &Op) -> std::result::Result<Option<String>, String> {
    let fired = shim::fired();
    let bad = |p: i32| Err(format!("{},\"p\":{}", base(&op.o, &op.a, "[]"), p));
    match guarded(|| st.step(op)) {
        Ok(Ok(b)) => Ok(b),
        // refused because a file call was made to fail: what is there now?
        Ok(Err(_)) if shim::fired() != fired && st.m.is_some() => {
            shim::progress();
            st.flushed = false;
            match guarded(|| shim::spared(|| st.after(op))) {
                Ok(Ok(r)) => Ok(Some(format!("{},\"e\":1", base(&op.o, &op.a, &r)))),
                Ok(Err(_)) => bad(2),
                Err(()) => bad(1),
            }
        }
        Ok(Err(_)) => bad(2),
        Err(()) => bad(1),
    }
}

/// One process, no kills.
pub fn run<C: Codec, S: Strat<C>>(out: &mut Out, im: &str, id: &str, script: &[Op], cfg: Cfg, lv: i64, jitter: u64) {
    let path = fresh_dir(id);
    out.begin(im, id, &header(&cfg, lv));
    shim::arm(0, jitter);
    let mut st: Store<C, S> = Store::create(&path, cfg).unwrap();
    for op in script {
        out.intent(&op.o, &op.a);
        match event(&mut st, op) {
            Ok(Some(b)) => out.ev(&b),
            Ok(None) => {}
            Err(b) => {
                out.ev(&b);
                break;
            }
        }
    }
    out.end();
    st.close();
    shim::disarm();
    let _ = std::fs::remove_dir_all(&path);
}

/// The process that gets killed: reports each finished operation in a file.
#[allow(clippy::too_many_arguments)]
pub fn child<C: Codec, S: Strat<C>>(
    path: &Path,
    log: &Path,
    script: &[Op],
    from: usize,
    fresh: bool,
    kill: u64,
    cfg: Cfg,
    jitter: u64,
) {
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(log).unwrap();
    let mut say = |s: &str| {
        let _ = log.write_all(s.as_bytes());
    };
    shim::arm(kill, jitter);
    let st: Result<Store<C, S>> = match guarded(|| if fresh { Store::create(path, cfg) } else { Store::open(path, cfg) }) {
        Ok(x) => x,
        Err(()) => {
            say("open panicked\n");
            return;
        }
    };
    let mut st = match st {
        Ok(s) => s,
        Err(e) => {
            say(&format!("open failed {:?}\n", e).replace('"', "'"));
            return;
        }
    };
    if !fresh {
        match guarded(|| st.read_all()) {
            Ok(Ok(r)) => say(&format!("opened {}\n", r)),
            _ => {
                say("open failed reading\n");
                return;
            }
        }
    } else {
        say("created\n");
    }
    for op in &script[from.min(script.len())..] {
        match event(&mut st, op) {
            Ok(Some(b)) => say(&format!("ev {}\n", b)),
            Ok(None) => say("skip\n"),
            Err(b) => {
                say(&format!("bad {}\n", b));
                return;
            }
        }
    }
    let n = shim::count();
    say(&format!("end {}\n", n));
    unsafe { libc_exit() }
}
unsafe fn libc_exit() {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    _exit(0)
}

/// Runs `script` in processes killed at the given file-changing calls (the last entry: 0 = not killed).
/// Returns the number of calls made by the last process if it reached the end.
#[allow(clippy::too_many_arguments)]
pub fn crash_run(out: &mut Out, im: &str, id: &str, script: &[Op], cfg: Cfg, lv: i64, kills: &[u64], extra: &[String], spath: &Path) -> u64 {
    let path = fresh_dir(id);
    out.begin(im, id, &header(&cfg, lv));
    let exe = std::env::current_exe().unwrap();
    let log = std::env::temp_dir().join(format!("log-{}", id));
    let mut from = 0usize;
    let mut fresh = true;
    let mut total = 0;
    'life: for kill in kills.iter().chain(std::iter::once(&0)) {
        let mut cmd = Command::new(&exe);
        cmd.arg("lsmchild")
            .arg(format!("im={}", im))
            .arg(format!("dir={}", path.display()))
            .arg(format!("script={}", spath.display()))
            .arg(format!("log={}", log.display()))
            .arg(format!("from={}", if fresh { from } else { from + 1 }))
            .arg(format!("fresh={}", fresh as i32))
            .arg(format!("kill={}", kill))
            .args(extra)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null());
        let _ = std::fs::remove_file(&log);
        let status = cmd.spawn().unwrap().wait().unwrap();
        let rd = match std::fs::File::open(&log) {
            Ok(f) => BufReader::new(f),
            Err(_) => continue,
        };
        let mut ended = false;
        for line in rd.lines() {
            let line = match line {
                Ok(l) => l,
                Err(_) => break,
            };
            if line == "created" {
                fresh = false;
            } else if line.starts_with("opened ") {
                // what the previous life was doing when it ended
                let po = script.get(from);
                let (o, a) = match po {
                    Some(op) => (op.o.clone(), op.a.clone()),
                    None => ("none".to_string(), vec![]),
                };
                out.ev(&format!("{},\"po\":\"{}\"", base("kill", &a, &line[7..]), o));
                // the interrupted operation is over
                if po.is_some() {
                    from += 1;
                }
            } else if line.starts_with("ev ") {
                out.ev(&line[3..]);
                from += 1;
            } else if line == "skip" {
                from += 1;
            } else if line.starts_with("bad ") {
                out.ev(&line[4..]);
                break 'life;
            } else if line.starts_with("open ") {
                out.ev(&format!("{},\"p\":2,\"po\":\"{}\"", base("kill", &[], "[]"), line));
                break 'life;
            } else if line.starts_with("end ") {
                total = line[4..].parse().unwrap_or(0);
                ended = true;
            }
        }
        use std::os::unix::process::ExitStatusExt;
        if ended {
            break;
        }
        if *kill == 0 || status.signal() != Some(9) {
            // the process ended by itself
            out.ev(&format!("{},\"p\":1,\"po\":\"died\"", base("kill", &[], "[]")));
            break;
        }
        if fresh {
            // killed while the store was being created: nothing is promised about a store not yet returned
            let _ = std::fs::remove_dir_all(&path);
        }
        // killed before it was reported open: the interrupted operation is reported by the next life
    }
    out.end();
    let _ = std::fs::remove_file(&log);
    let _ = std::fs::remove_dir_all(&path);
    total
}

pub fn cfg_args(c: &Cfg) -> Vec<String> {
    vec![
        format!("mem={}", c.mem),
        format!("mc={}", c.mc),
        format!("min={}", c.min),
        format!("low={}", (c.low * 100.0) as i64),
        format!("high={}", (c.high * 100.0) as i64),
        format!("maxs={}", c.maxs),
        format!("mi={}", c.mi),
        format!("gf={}", c.gf),
        format!("kmax={}", c.kmax),
    ]
}

pub fn gen_cfg(rng: &mut Rng, profile: &str, kmax: i64) -> Cfg {
    let space = profile == "space" || profile == "fault";
    if profile == "wide" {
        return Cfg {
            mem: rng.pick(&[0, 500, 4000, 100_000, 100_000, 100_000, 100_000]),
            mc: rng.pick(&[1, 2, 2, 2, 2, 2, 3]),
            min: rng.pick(&[0, 1, 1, 1, 1, 100]),
            low: rng.pick(&[0.5, 0.6, 0.6, 0.6, 0.6, 0.9]),
            high: rng.pick(&[1.1, 1.4, 1.4, 1.4, 1.4, 1.5]),
            maxs: rng.pick(&[1, 500, 3000, 4000]),
            mi: rng.pick(&[1, 2, 3]),
            gf: rng.pick(&[1, 2, 3]),
            kmax: rng.range(6, kmax),
        };
    }
    Cfg {
        mem: rng.pick(&[0, 20, 40, 60, 100, 100, 200, 400, 100_000]),
        mc: rng.pick(&[1, 1, 1, 2, 2, 3, 4]),
        min: rng.pick(&[0, 0, 100, 300, 1000, 100_000]),
        low: if space { 0.5 } else { rng.pick(&[0.1, 0.5, 0.5, 0.9]) },
        high: if space { 1.5 } else { rng.pick(&[1.0, 1.1, 1.5, 1.5, 3.0]) },
        maxs: rng.pick(&[0, 30, 60, 100, 200, 500, 100_000]),
        mi: rng.pick(&[1, 1, 1, 2, 3, 5]),
        gf: if space { rng.pick(&[2, 3, 4]) } else { rng.pick(&[1, 1, 2, 2, 3, 10]) },
        kmax: if kmax > 3 { rng.range(2, kmax) } else { kmax },
    }
}

pub fn gen(rng: &mut Rng, profile: &str, n: usize, kmax: i64) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut val = 0;
    let style = rng.below(4);
    let mut cur = 0;
    let mut open: Vec<i64> = vec![];
    let crash = profile == "crash" || profile == "crashfault";
    let fault = profile == "fault" || profile == "crashfault";
    let faultw = rng.pick(&[4, 10, 20]);
    // how often the compaction thread is stopped and let go
    let ctl = if profile == "wide" { rng.pick(&[0, 0, 0, 6]) } else if profile == "space" { rng.pick(&[0, 0, 2]) } else { rng.pick(&[0, 6, 12, 12]) };
    // every compaction finishes before the next call
    let paced = rng.chance(3, 4);
    let flushy = rng.pick(&[1, 3, 6]);
    let remw = if profile == "wide" { rng.pick(&[30, 50, 50, 50]) } else { rng.pick(&[10, 30, 50]) };
    while v.len() < n {
        val += 1;
        if fault && rng.below(100) < faultw {
            if rng.chance(1, 4) {
                v.push(Op::new("heal", &[]));
            } else {
                let kinds = rng.pick(&[127, 63, 1, 2, 4, 8, 8, 16, 32, 64, 3, 12]);
                let n = rng.pick(&[1, 1, 1, 2, 5, 30]);
                v.push(Op::new("fail", &[kinds, rng.pick(&[1, 1, 2, 3]), if rng.chance(1, 2) { 0 } else { rng.range(0, 12) }, n]));
            }
            continue;
        }
        if profile == "wide" && rng.chance(2, 5) {
            v.push(Op::new("flush", &[]));
            if paced {
                v.push(Op::new("wait", &[]));
                v.push(Op::new("sweep", &[]));
            }
        }
        let probe = rng.range(0, kmax + 1);
        let k = match style {
            0 => {
                cur = cur % kmax + 1;
                cur
            }
            1 => {
                if rng.chance(1, 4) {
                    cur = rng.range(1, kmax);
                }
                (cur + rng.range(0, 1)) % kmax + 1
            }
            _ => rng.range(1, kmax),
        };
        if rng.below(100) < ctl {
            match rng.below(6) {
                0 | 1 => v.push(Op::new("hold", &[])),
                2 => v.push(Op::new("rel", &[])),
                3 => v.push(Op::new("wait", &[])),
                _ => v.push(Op::new("bg", &[rng.range(1, 14)])),
            }
            continue;
        }
        let x = rng.below(100);
        let mutw = match profile {
            "view" => 55,
            "wide" => 90,
            _ => 70,
        };
        if x < mutw {
            if rng.below(100) < remw {
                v.push(Op::new("rem", &[if rng.chance(1, 8) { probe } else { k }]));
            } else {
                v.push(Op::new("ins", &[k, val]));
            }
            continue;
        }
        if rng.below(20) < flushy {
            v.push(Op::new("flush", &[]));
            continue;
        }
        if ((profile == "persist" || fault) && rng.chance(1, 3)) || (crash && rng.chance(1, 14)) || rng.chance(1, 60) {
            open.clear();
            v.push(Op::new("reopen", &[]));
            if rng.chance(1, 3) {
                v.push(Op::new("sweep", &[]));
            }
            continue;
        }
        if profile == "space" || (fault && !crash && rng.chance(1, 4)) {
            if rng.chance(1, 12) {
                v.push(Op::new("heal", &[]));
                if fault {
                    v.extend(open.drain(..).map(|s| Op::new("itc", &[s])));
                }
                for _ in 0..if fault { 20 } else { 12 } {
                    val += 1;
                    v.push(Op::new("ins", &[1, val]));
                    v.push(Op::new("flush", &[]));
                }
                v.push(Op::new("settle", &[]));
            } else if rng.chance(1, 30) {
                v.push(Op::new("clear", &[]));
            } else {
                v.push(Op::new(rng.pick(&["hint", "sweep", "iter", "flush", "tidy", "tidy"]), &[]));
            }
            continue;
        }
        if (profile == "view" || profile == "fault") && rng.chance(1, if fault { 5 } else { 2 }) {
            match rng.below(7) {
                0 | 1 => {
                    let s = rng.range(1, 3);
                    if !open.contains(&s) {
                        open.push(s);
                    }
                    v.push(Op::new("it", &[s]));
                }
                2 if !open.is_empty() => {
                    let i = rng.below(open.len() as u64) as usize;
                    let s = open.remove(i);
                    v.push(Op::new("itc", &[s]));
                }
                _ if !open.is_empty() => {
                    let s = rng.pick(&open);
                    v.push(Op::new("nx", &[s, if rng.chance(1, 4) { 1000 } else { rng.range(0, 3) }]));
                }
                _ => v.push(Op::new("iter", &[])),
            }
            continue;
        }
        match rng.below(if crash { 9 } else { 13 }) {
            0 => v.push(Op::new("get", &[probe])),
            1 => v.push(Op::new("has", &[probe])),
            2 => v.push(Op::new(rng.pick(&["min", "max"]), &[])),
            3 => v.push(Op::new(rng.pick(&["len", "empty", "hint"]), &[])),
            4 => v.push(Op::new("iter", &[])),
            5 if rng.chance(1, 3) => {
                open.clear();
                v.push(Op::new("clear", &[]));
                if rng.chance(1, 2) {
                    v.push(Op::new("hint", &[]));
                }
            }
            6 => v.push(Op::new("hint", &[])),
            _ => v.push(Op::new("sweep", &[])),
        }
    }
    v.push(Op::new("sweep", &[]));
    v.push(Op::new("heal", &[]));
    v.push(Op::new("wait", &[]));
    v.push(Op::new("sweep", &[]));
    v.push(Op::new("iter", &[]));
    v.push(Op::new("len", &[]));
    v.push(Op::new("reopen", &[]));
    v.push(Op::new("iter", &[]));
    v
}
