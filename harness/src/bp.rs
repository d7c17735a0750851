//! On-disk B+ trees: histories with reopening, abandoning and copying the file between calls.
use crate::list::drain;
use crate::util::*;
use extended_collections::bp_tree::BpMap;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::num::NonZeroU32;
use std::path::{Path, PathBuf};

/// How integers of a history become keys and values, and what sizes are declared for them.
pub trait Codec {
    type K: Clone + Ord + Serialize + DeserializeOwned + 'static;
    type V: Serialize + DeserializeOwned + 'static;
    const KS: u64;
    const VS: u64;
    fn k(x: i64) -> Self::K;
    fn kx(k: &Self::K) -> i64;
    fn v(x: i64) -> Self::V;
    fn vx(v: &Self::V) -> i64;
    /// too large for the declared sizes, if the types can be
    fn big_k() -> Option<Self::K> {
        None
    }
    fn big_v() -> Option<Self::V> {
        None
    }
}

pub struct Num;
impl Codec for Num {
    type K = u32;
    type V = u64;
    const KS: u64 = 4;
    const VS: u64 = 8;
    fn k(x: i64) -> u32 {
        x as u32
    }
    fn kx(k: &u32) -> i64 {
        i64::from(*k)
    }
    fn v(x: i64) -> u64 {
        x as u64
    }
    fn vx(v: &u64) -> i64 {
        *v as i64
    }
}
/// Strings that use the declared size exactly (keys) or up to it (values).
pub struct Text;
impl Codec for Text {
    type K = String;
    type V = String;
    const KS: u64 = 8 + 6;
    const VS: u64 = 8 + 16;
    fn k(x: i64) -> String {
        format!("{:06}", x)
    }
    fn kx(k: &String) -> i64 {
        k.parse().unwrap_or(-7)
    }
    fn v(x: i64) -> String {
        // lengths from short to exactly the maximum
        let w = [1usize, 16, 7, 12][x as usize % 4];
        format!("{:0w$}", x, w = w)
    }
    fn vx(v: &String) -> i64 {
        v.parse().unwrap_or(-7)
    }
    fn big_k() -> Option<String> {
        Some("1234567".into())
    }
    fn big_v() -> Option<String> {
        Some("12345678901234567".into())
    }
}
/// A key type whose Option has no tag in memory; an optional value.
pub struct Niche;
impl Codec for Niche {
    type K = NonZeroU32;
    type V = Option<u32>;
    const KS: u64 = 4;
    const VS: u64 = 5;
    fn k(x: i64) -> NonZeroU32 {
        NonZeroU32::new(x as u32 + 1).unwrap()
    }
    fn kx(k: &NonZeroU32) -> i64 {
        i64::from(k.get()) - 1
    }
    fn v(x: i64) -> Option<u32> {
        if x == 0 {
            None
        } else {
            Some(x as u32)
        }
    }
    fn vx(v: &Option<u32>) -> i64 {
        v.map_or(0, i64::from)
    }
}
/// Composite keys and byte slices of varying length.
pub struct Blob;
impl Codec for Blob {
    type K = (u8, u16);
    type V = Box<[u8]>;
    const KS: u64 = 3;
    const VS: u64 = 8 + 9;
    fn k(x: i64) -> (u8, u16) {
        ((x / 7) as u8, x as u16)
    }
    fn kx(k: &(u8, u16)) -> i64 {
        i64::from(k.1)
    }
    fn v(x: i64) -> Box<[u8]> {
        let mut b = x.to_le_bytes().to_vec();
        if x % 3 == 0 {
            b.push(0xEE);
        } else {
            while b.len() > 1 && *b.last().unwrap() == 0 {
                b.pop();
            }
        }
        b.into_boxed_slice()
    }
    fn vx(v: &Box<[u8]>) -> i64 {
        let mut b = [0u8; 8];
        for i in 0..v.len().min(8) {
            b[i] = v[i];
        }
        i64::from_le_bytes(b)
    }
    fn big_v() -> Option<Box<[u8]>> {
        Some(vec![1; 10].into_boxed_slice())
    }
}
/// Declared sizes larger than any encoding.
pub struct Loose;
impl Codec for Loose {
    type K = i16;
    type V = (u8, String);
    const KS: u64 = 5;
    const VS: u64 = 40;
    fn k(x: i64) -> i16 {
        x as i16 - 20
    }
    fn kx(k: &i16) -> i64 {
        i64::from(*k) + 20
    }
    fn v(x: i64) -> (u8, String) {
        ((x % 200) as u8, format!("{}", x))
    }
    fn vx(v: &(u8, String)) -> i64 {
        v.1.parse().unwrap_or(-7)
    }
    fn big_v() -> Option<(u8, String)> {
        Some((1, "x".repeat(32)))
    }
}

#[derive(Clone, Copy)]
pub struct Mode {
    pub kmax: i64,
    pub misuse: bool,
    /// leaf and internal capacities; 0 = let the library choose
    pub ld: i64,
    pub id: i64,
}

fn file_len(p: &Path) -> i64 {
    std::fs::metadata(p).map(|m| m.len() as i64).unwrap_or(-1)
}

type Map<C> = BpMap<<C as Codec>::K, <C as Codec>::V>;

fn create<C: Codec>(p: &Path, mode: Mode) -> Map<C> {
    if mode.ld == 0 {
        BpMap::new(p, C::KS, C::VS).unwrap()
    } else {
        BpMap::with_degrees(p, C::KS, C::VS, mode.ld as usize, mode.id as usize).unwrap()
    }
}

/// The size of one page: the smallest growth of a file while keys are appended.
fn page_size<C: Codec>(dir: &Path, mode: Mode) -> (i64, i64) {
    let p = dir.join("cal");
    let _ = std::fs::remove_file(&p);
    let mut m = create::<C>(&p, mode);
    let l0 = file_len(&p);
    let mut last = l0;
    let mut page = i64::max_value();
    let n = if mode.ld == 0 { 1200 } else { mode.ld * 8 + 8 };
    for i in 0..n.min(30_000) {
        m.insert(C::k(i), C::v(1)).unwrap();
        let l = file_len(&p);
        if l > last {
            page = page.min(l - last);
        }
        last = l;
    }
    drop(m);
    let _ = std::fs::remove_file(&p);
    (l0, page)
}

fn items_js<C: Codec>(xs: &[(C::K, C::V)]) -> String {
    jss(&xs.iter().map(|(k, v)| vec![C::kx(k), 0, C::vx(v)]).collect::<Vec<_>>())
}
fn pair_js<C: Codec>(x: &Option<(C::K, C::V)>) -> String {
    match x {
        Some((k, v)) => js(&[C::kx(k), 0, C::vx(v)]),
        None => "[]".into(),
    }
}

fn contents<C: Codec>(m: &mut Map<C>, kind: i64, n: usize) -> (Vec<(C::K, C::V)>, i64) {
    let mut r = Vec::new();
    let x = {
        if kind % 2 == 0 {
            drain(&mut m.iter_mut().unwrap(), n, |x| r.push(x.unwrap()))
        } else {
            drain(&mut m.into_iter(), n, |x| r.push(x.unwrap()))
        }
    };
    (r, x)
}

struct St<C: Codec> {
    m: Option<Map<C>>,
    path: PathBuf,
    dir: PathBuf,
}

pub fn run<C: Codec>(out: &mut Out, im: &str, id: &str, script: &[Op], mode: Mode) {
    let dir = std::env::temp_dir();
    let path = dir.join(format!("bp-{}", id));
    let _ = std::fs::remove_file(&path);
    let (l0, pg) = match guarded(|| page_size::<C>(&dir, mode)) {
        Ok(x) => x,
        Err(()) => (0, 0),
    };
    // capacities of default-sized maps are the library's own business
    out.begin(
        im,
        id,
        &format!(",\"set\":0,\"kmax\":{},\"ld\":{},\"idg\":{},\"l0\":{},\"pg\":{}", mode.kmax, mode.ld, mode.id, l0, pg),
    );
    let mut st: St<C> = St {
        m: Some(create::<C>(&path, mode)),
        path: path.clone(),
        dir,
    };
    for op in script {
        out.intent(&op.o, &op.a);
        match guarded(|| step::<C>(&mut st, op, mode)) {
            Ok(Some(b)) => out.ev(&format!("{},\"fl\":{}", b, file_len(&path))),
            Ok(None) => {}
            Err(()) => {
                out.ev(&format!("{},\"p\":1,\"fl\":{}", base(&op.o, &op.a, "[]"), file_len(&path)));
                if !mode.misuse || st.m.is_none() {
                    break;
                }
            }
        }
    }
    out.end();
    drop(st);
    let _ = std::fs::remove_file(&path);
}

fn step<C: Codec>(st: &mut St<C>, op: &Op, mode: Mode) -> Option<String> {
    let a = |i: usize| op.a[i];
    let mut extra = String::new();
    let m = st.m.as_mut().unwrap();
    let mut args = op.a.clone();
    let r = match op.o.as_str() {
        "ins" => {
            args = vec![a(0), a(1), 0, a(2)];
            pair_js::<C>(&m.insert(C::k(a(1)), C::v(a(2))).unwrap())
        }
        "rem" => pair_js::<C>(&m.remove(&C::k(a(1))).unwrap()),
        "has" => js(&[m.contains_key(&C::k(a(1))).unwrap() as i64]),
        "get" => match m.get(&C::k(a(1))).unwrap() {
            Some(v) => js(&[C::vx(&v)]),
            None => "[]".into(),
        },
        "len" => js(&[m.len() as i64]),
        "empty" => js(&[m.is_empty() as i64]),
        "clear" => {
            m.clear().unwrap();
            "[]".into()
        }
        "min" => m.min().unwrap().map_or("[]".into(), |k| js(&[C::kx(&k), 0])),
        "max" => m.max().unwrap().map_or("[]".into(), |k| js(&[C::kx(&k), 0])),
        "iter" => {
            let (items, x) = contents::<C>(m, a(1), a(2) as usize);
            extra = format!(",\"x\":{}", x);
            items_js::<C>(&items)
        }
        "sweep" => {
            let mut h = vec![];
            let mut g = vec![];
            for k in 0..=mode.kmax + 1 {
                h.push(m.contains_key(&C::k(k)).unwrap() as i64);
                g.push(m.get(&C::k(k)).unwrap().map_or(-1, |v| C::vx(&v)));
            }
            let (items, _) = contents::<C>(m, 0, usize::max_value());
            let mn = m.min().unwrap().map_or("[]".into(), |k| js(&[C::kx(&k), 0]));
            let mx = m.max().unwrap().map_or("[]".into(), |k| js(&[C::kx(&k), 0]));
            extra = format!(
                ",\"h\":{},\"g\":{},\"mn\":{},\"mx\":{},\"n\":{},\"e\":{}",
                js(&h),
                js(&g),
                mn,
                mx,
                cnt(m.len()),
                m.is_empty() as i64
            );
            items_js::<C>(&items)
        }
        // close and reopen
        "reopen" => {
            st.m = None;
            st.m = Some(BpMap::open(&st.path).unwrap());
            js(&[st.m.as_ref().unwrap().len() as i64])
        }
        // abandon the map without running its destructor, as a kill would, and reopen
        "kill" => {
            std::mem::forget(st.m.take());
            st.m = Some(BpMap::open(&st.path).unwrap());
            js(&[st.m.as_ref().unwrap().len() as i64])
        }
        // what a process opening the file now would see, while the map stays in use
        "copy" => {
            let p = st.dir.join("copy");
            std::fs::copy(&st.path, &p).unwrap();
            let mut c: Map<C> = BpMap::open(&p).unwrap();
            let (items, _) = contents::<C>(&mut c, 0, usize::max_value());
            extra = format!(",\"n\":{},\"e\":{}", cnt(c.len()), c.is_empty() as i64);
            drop(c);
            let _ = std::fs::remove_file(&p);
            items_js::<C>(&items)
        }
        "bigk" => {
            let k = C::big_k()?;
            let r = m.insert(k, C::v(1));
            js(&[r.is_ok() as i64])
        }
        "bigv" => {
            let v = C::big_v()?;
            let r = m.insert(C::k(a(1)), v);
            js(&[r.is_ok() as i64])
        }
        o => panic!("unknown operation {}", o),
    };
    Some(format!("{}{}", base(&op.o, &args, &r), extra))
}

pub fn gen(rng: &mut Rng, profile: &str, n: usize, kmax: i64) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut val = 100;
    let mut phase = true;
    let mut order: Vec<i64> = (1..=kmax).collect();
    let style = rng.below(5);
    if style == 0 {
        rng.shuffle(&mut order);
    }
    let mut cur = 0usize;
    // filling and emptying over and over: whatever is not reused adds up
    while profile == "cycle" && v.len() < n {
        let size = rng.range(2, kmax);
        let mut ks: Vec<i64> = (1..=size).collect();
        match rng.below(3) {
            0 => rng.shuffle(&mut ks),
            1 => ks.reverse(),
            _ => {}
        }
        for k in &ks {
            val += 1;
            v.push(Op::new("ins", &[1, *k, val]));
            if rng.chance(1, 30) {
                v.push(Op::new(rng.pick(&["reopen", "kill"]), &[1]));
            }
        }
        match rng.below(3) {
            0 => rng.shuffle(&mut ks),
            1 => ks.reverse(),
            _ => {}
        }
        let keep = if rng.chance(1, 2) { 0 } else { rng.range(0, size) as usize };
        for k in &ks[keep..] {
            v.push(Op::new("rem", &[1, *k]));
            if rng.chance(1, 30) {
                v.push(Op::new(rng.pick(&["reopen", "kill"]), &[1]));
            }
        }
        v.push(Op::new("len", &[1]));
    }
    while v.len() < n {
        if rng.chance(1, (kmax as u64).max(12)) {
            phase = !phase;
            if rng.chance(1, 2) {
                cur = 0;
            }
        }
        val += 1;
        let probe = rng.range(0, kmax + 1);
        // walks through the keys in order make long runs of splits or merges at one end
        let k = if style <= 2 {
            cur = (cur + 1) % order.len();
            if style == 2 {
                order[order.len() - 1 - cur]
            } else {
                order[cur]
            }
        } else {
            rng.range(1, kmax)
        };
        let x = rng.below(100);
        let (mutw, persw) = match profile {
            "persist" => (55, 25),
            "space" => (80, 8),
            _ => (68, 3),
        };
        if x < mutw {
            if rng.below(100) < if phase { 85 } else { 12 } {
                v.push(Op::new("ins", &[1, k, val]));
            } else {
                v.push(Op::new("rem", &[1, if rng.chance(1, 10) { probe } else { k }]));
            }
        } else if x < mutw + persw {
            v.push(Op::new(rng.pick(&["reopen", "kill", "copy", "copy"]), &[1]));
        } else {
            match rng.below(14) {
                0 => v.push(Op::new("get", &[1, probe])),
                1 => v.push(Op::new("has", &[1, probe])),
                2 => v.push(Op::new(rng.pick(&["min", "max"]), &[1])),
                3 => v.push(Op::new(rng.pick(&["len", "empty"]), &[1])),
                4 | 5 => v.push(Op::new(
                    "iter",
                    &[1, rng.range(0, 1), if rng.chance(1, 2) { 1_000_000 } else { rng.range(0, kmax) }, 0],
                )),
                6 if rng.chance(1, 5) => v.push(Op::new("clear", &[1])),
                7 | 8 if profile == "misuse" => {
                    v.push(Op::new(rng.pick(&["bigk", "bigv"]), &[1, k]));
                    v.push(Op::new("sweep", &[1]));
                }
                _ => {
                    if kmax < 60 || rng.chance(1, 12) {
                        v.push(Op::new("sweep", &[1]))
                    }
                }
            }
        }
    }
    v.push(Op::new("sweep", &[1]));
    v.push(Op::new("copy", &[1]));
    v.push(Op::new("reopen", &[1]));
    v.push(Op::new("sweep", &[1]));
    v
}
