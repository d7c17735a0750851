//! Radix maps and sets over byte strings.
use crate::list::drain;
use crate::util::*;
use extended_collections::radix::{RadixMap, RadixSet};

pub type Key = Vec<u8>;
/// key, value, value id
pub type Item = (Key, i64, i64);

pub trait Rad: Sized {
    const SET: bool;
    fn make(default: bool) -> Self;
    fn ins(&mut self, k: &[u8], v: V) -> Option<(Key, Option<V>)>;
    fn rem(&mut self, k: &[u8]) -> Option<(Key, Option<V>)>;
    fn has(&self, k: &[u8]) -> bool;
    fn at(&self, k: &[u8]) -> Option<i64>;
    fn set(&mut self, k: &[u8], v: i64) -> Option<i64>;
    fn idx(&self, k: &[u8]) -> i64;
    fn idxset(&mut self, k: &[u8], v: i64) -> i64;
    fn count(&self) -> usize;
    fn empty(&self) -> bool;
    fn wipe(&mut self);
    fn lp(&self, k: &[u8]) -> Vec<Key>;
    fn lo(&self) -> Option<Key>;
    fn hi(&self) -> Option<Key>;
    fn it(&self, kind: i64, n: usize) -> (Vec<Item>, i64);
    fn it_mut(&mut self, kind: i64, n: usize, delta: i64) -> (Vec<Item>, i64);
    fn into_n(self, n: usize, out: &mut Vec<(Key, Option<V>)>) -> i64;
}

impl Rad for RadixMap<V> {
    const SET: bool = false;
    fn make(default: bool) -> Self {
        if default {
            Default::default()
        } else {
            RadixMap::new()
        }
    }
    fn ins(&mut self, k: &[u8], v: V) -> Option<(Key, Option<V>)> {
        self.insert(k, v).map(|(k, v)| (k, Some(v)))
    }
    fn rem(&mut self, k: &[u8]) -> Option<(Key, Option<V>)> {
        self.remove(k).map(|(k, v)| (k, Some(v)))
    }
    fn has(&self, k: &[u8]) -> bool {
        self.contains_key(k)
    }
    fn at(&self, k: &[u8]) -> Option<i64> {
        self.get(k).map(|v| v.v)
    }
    fn set(&mut self, k: &[u8], v: i64) -> Option<i64> {
        self.get_mut(k).map(|x| std::mem::replace(&mut x.v, v))
    }
    fn idx(&self, k: &[u8]) -> i64 {
        self[k].v
    }
    fn idxset(&mut self, k: &[u8], v: i64) -> i64 {
        std::mem::replace(&mut self[k].v, v)
    }
    fn count(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn lp(&self, k: &[u8]) -> Vec<Key> {
        self.get_longest_prefix(k)
    }
    fn lo(&self) -> Option<Key> {
        self.min()
    }
    fn hi(&self) -> Option<Key> {
        self.max()
    }
    fn it(&self, kind: i64, n: usize) -> (Vec<Item>, i64) {
        let mut r = Vec::new();
        let x = {
            let f = |(k, v): (Key, &V)| r.push((k, v.v, i64::from(v.id)));
            if kind == 0 {
                drain(&mut self.iter(), n, f)
            } else {
                drain(&mut self.into_iter(), n, f)
            }
        };
        (r, x)
    }
    fn it_mut(&mut self, kind: i64, n: usize, delta: i64) -> (Vec<Item>, i64) {
        let mut r = Vec::new();
        let x = {
            let f = |(k, v): (Key, &mut V)| {
                r.push((k, v.v, i64::from(v.id)));
                v.v += delta;
            };
            if kind == 2 {
                drain(&mut self.iter_mut(), n, f)
            } else {
                drain(&mut self.into_iter(), n, f)
            }
        };
        (r, x)
    }
    fn into_n(self, n: usize, out: &mut Vec<(Key, Option<V>)>) -> i64 {
        let mut it = self.into_iter();
        drain(&mut it, n, |(k, v)| out.push((k, Some(v))))
    }
}
impl Rad for RadixSet {
    const SET: bool = true;
    fn make(default: bool) -> Self {
        if default {
            Default::default()
        } else {
            RadixSet::new()
        }
    }
    fn ins(&mut self, k: &[u8], _v: V) -> Option<(Key, Option<V>)> {
        self.insert(k).map(|k| (k, None))
    }
    fn rem(&mut self, k: &[u8]) -> Option<(Key, Option<V>)> {
        self.remove(k).map(|k| (k, None))
    }
    fn has(&self, k: &[u8]) -> bool {
        self.contains(k)
    }
    fn at(&self, _k: &[u8]) -> Option<i64> {
        unreachable!()
    }
    fn set(&mut self, _k: &[u8], _v: i64) -> Option<i64> {
        unreachable!()
    }
    fn idx(&self, _k: &[u8]) -> i64 {
        unreachable!()
    }
    fn idxset(&mut self, _k: &[u8], _v: i64) -> i64 {
        unreachable!()
    }
    fn count(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn wipe(&mut self) {
        self.clear()
    }
    fn lp(&self, k: &[u8]) -> Vec<Key> {
        self.get_longest_prefix(k)
    }
    fn lo(&self) -> Option<Key> {
        self.min()
    }
    fn hi(&self) -> Option<Key> {
        self.max()
    }
    fn it(&self, kind: i64, n: usize) -> (Vec<Item>, i64) {
        let mut r = Vec::new();
        let x = {
            let f = |k: Key| r.push((k, 0, 0));
            if kind == 0 {
                drain(&mut self.iter(), n, f)
            } else {
                drain(&mut self.into_iter(), n, f)
            }
        };
        (r, x)
    }
    fn it_mut(&mut self, _kind: i64, n: usize, _delta: i64) -> (Vec<Item>, i64) {
        self.it(0, n)
    }
    fn into_n(self, n: usize, out: &mut Vec<(Key, Option<V>)>) -> i64 {
        let mut it = self.into_iter();
        drain(&mut it, n, |k| out.push((k, None)))
    }
}

#[derive(Clone, Copy)]
pub struct Mode {
    pub own: bool,
    pub misuse: bool,
}

/// A key argument in a script: its bytes after the leading integer arguments.
fn kj(k: &[u8]) -> String {
    js(&k.iter().map(|x| i64::from(*x)).collect::<Vec<_>>())
}
fn kjs(ks: &[Key]) -> String {
    let mut s = String::from("[");
    for (i, k) in ks.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&kj(k));
    }
    s.push(']');
    s
}
fn opt1(x: Option<i64>) -> String {
    match x {
        Some(a) => js(&[a]),
        None => "[]".to_string(),
    }
}
fn optk(x: Option<Key>) -> String {
    match x {
        Some(k) => format!("[{}]", kj(&k)),
        None => "[]".to_string(),
    }
}
fn pair(p: &Option<(Key, Option<V>)>) -> String {
    match p {
        Some((k, v)) => format!("[{},{}]", kj(k), v.as_ref().map_or(0, |v| v.v)),
        None => "[]".to_string(),
    }
}

#[derive(Clone)]
pub struct ROp {
    pub o: String,
    pub a: Vec<i64>,
    pub k: Key,
}
fn rop(o: &str, a: &[i64], k: &[u8]) -> ROp {
    ROp {
        o: o.to_string(),
        a: a.to_vec(),
        k: k.to_vec(),
    }
}
/// Script form: operation, number of integer arguments, integers, key bytes.
pub fn from_op(op: &Op) -> ROp {
    let n = op.a[0] as usize;
    ROp {
        o: op.o.clone(),
        a: op.a[1..1 + n].to_vec(),
        k: op.a[1 + n..].iter().map(|x| *x as u8).collect(),
    }
}

pub fn run<M: Rad>(out: &mut Out, im: &str, id: &str, script: &[ROp], probes: &[Key], mode: Mode) {
    reset_ids();
    out.begin(im, id, &format!(",\"set\":{},\"pk\":{}", M::SET as i32, kjs(probes)));
    let mut m: Option<M> = Some(M::make(id.len() % 2 == 0));
    let mut stopped = false;
    for op in script {
        out.intent(&format!("{} {:?}", op.o, op.k), &op.a);
        match guarded(|| step::<M>(&mut m, op, probes, mode)) {
            Ok(Some(b)) => out.ev(&b),
            Ok(None) => {}
            Err(()) => {
                let _ = take_drops();
                out.ev(&format!("{},\"k\":{},\"p\":1", base(&op.o, &op.a, "[]"), kj(&op.k)));
                if !mode.misuse || m.is_none() {
                    stopped = true;
                    break;
                }
            }
        }
    }
    if !stopped && mode.own {
        if let Some(b) = step::<M>(&mut m, &rop("drop", &[1], &[]), probes, mode) {
            out.ev(&b);
        }
    }
    if stopped {
        std::mem::forget(m);
    }
    out.end();
}

fn step<M: Rad>(mm: &mut Option<M>, op: &ROp, probes: &[Key], mode: Mode) -> Option<String> {
    let mut given = vec![];
    let mut ret = vec![];
    let mut extra = String::new();
    let m = mm.as_mut().unwrap();
    let k = &op.k;
    let a = |i: usize| op.a[i];
    let r: String = match op.o.as_str() {
        "ins" => {
            let v = if M::SET { V { v: 0, id: 0 } } else { V::new(a(1)) };
            if !M::SET {
                given.push(i64::from(v.id));
            }
            let p = track(|| m.ins(k, v));
            if let Some((_, Some(v))) = &p {
                ret.push(i64::from(v.id));
            }
            pair(&p)
        }
        "rem" => {
            let p = track(|| m.rem(k));
            if let Some((_, Some(v))) = &p {
                ret.push(i64::from(v.id));
            }
            pair(&p)
        }
        "has" => js(&[m.has(k) as i64]),
        "get" => {
            if M::SET {
                return None;
            }
            opt1(m.at(k))
        }
        "set" => {
            if M::SET {
                return None;
            }
            opt1(m.set(k, a(1)))
        }
        "idx" => {
            if M::SET || (!mode.misuse && !m.has(k)) {
                return None;
            }
            js(&[m.idx(k)])
        }
        "idxset" => {
            if M::SET || (!mode.misuse && !m.has(k)) {
                return None;
            }
            js(&[m.idxset(k, a(1))])
        }
        "len" => js(&[m.count() as i64]),
        "empty" => js(&[m.empty() as i64]),
        "clear" => {
            track(|| m.wipe());
            "[]".into()
        }
        "drop" => {
            let m = mm.take().unwrap();
            track(|| drop(m));
            *mm = Some(M::make(false));
            "[]".into()
        }
        "lp" => kjs(&m.lp(k)),
        "min" => optk(m.lo()),
        "max" => optk(m.hi()),
        "iter" => {
            let kind = a(1);
            let n = a(2) as usize;
            let (items, x) = if kind <= 1 {
                m.it(kind, n)
            } else if kind <= 3 {
                if M::SET {
                    return None;
                }
                m.it_mut(kind, n, a(3))
            } else {
                let m = mm.take().unwrap();
                *mm = Some(M::make(false));
                let mut ps = Vec::new();
                let x = track(|| m.into_n(n, &mut ps));
                for p in &ps {
                    if let Some(v) = &p.1 {
                        ret.push(i64::from(v.id));
                    }
                }
                (
                    ps.iter().map(|p| (p.0.clone(), p.1.as_ref().map_or(0, |v| v.v), 0)).collect(),
                    x,
                )
            };
            extra = format!(
                ",\"x\":{},\"rv\":{}",
                x,
                js(&items.iter().map(|x| x.1).collect::<Vec<_>>())
            );
            kjs(&items.into_iter().map(|x| x.0).collect::<Vec<_>>())
        }
        "sweep" => {
            let h: Vec<i64> = probes.iter().map(|k| m.has(k) as i64).collect();
            let g: Vec<i64> = if M::SET {
                vec![]
            } else {
                probes.iter().map(|k| m.at(k).unwrap_or(-1)).collect()
            };
            let (items, _) = m.it(0, usize::max_value());
            extra = format!(
                ",\"h\":{},\"g\":{},\"mn\":{},\"mx\":{},\"n\":{},\"e\":{},\"rv\":{}",
                js(&h),
                js(&g),
                optk(m.lo()),
                optk(m.hi()),
                cnt(m.count()),
                m.empty() as i64,
                js(&items.iter().map(|x| x.1).collect::<Vec<_>>())
            );
            kjs(&items.into_iter().map(|x| x.0).collect::<Vec<_>>())
        }
        o => panic!("unknown operation {}", o),
    };
    let mut body = base(&op.o, &op.a, &r);
    body.push_str(&format!(",\"k\":{}", kj(k)));
    body.push_str(&extra);
    if mode.own {
        let d: Vec<i64> = take_drops().into_iter().map(i64::from).collect();
        let (items, _) = mm.as_ref().unwrap().it(0, usize::max_value());
        let ids: Vec<i64> = if M::SET { vec![] } else { items.iter().map(|x| x.2).collect() };
        body.push_str(&format!(
            ",\"gi\":{},\"rt\":{},\"dr\":{},\"vis\":[{{\"s\":1,\"i\":{}}}]",
            js(&given),
            js(&ret),
            js(&d),
            js(&ids)
        ));
    } else {
        let _ = take_drops();
    }
    Some(body)
}

/// Key universes: what matters is how keys share prefixes and which bytes branch.
pub fn universe(rng: &mut Rng, n: usize) -> Vec<Key> {
    let mut u: Vec<Key> = vec![];
    let style = rng.below(6);
    let alpha: Vec<u8> = match rng.below(5) {
        0 => vec![0, 255],
        1 => vec![97, 98],
        2 => vec![0, 1, 127, 128, 254, 255],
        3 => (0..=255u8).collect(),
        _ => vec![97],
    };
    let word = |rng: &mut Rng, max: i64| -> Key {
        let l = rng.range(0, max);
        (0..l).map(|_| alpha[rng.below(alpha.len() as u64) as usize]).collect()
    };
    let mut tries = 0;
    while u.len() < n && tries < 400 {
        tries += 1;
        let k: Key = match style {
            0 => word(rng, 3),
            1 => word(rng, 9),
            // extend or cut an existing key
            2 | 3 => {
                if u.is_empty() || rng.chance(1, 5) {
                    word(rng, 4)
                } else {
                    let mut k = u[rng.below(u.len() as u64) as usize].clone();
                    if rng.chance(1, 3) {
                        k.truncate(rng.below(k.len() as u64 + 1) as usize);
                    }
                    k.extend(word(rng, 3));
                    k
                }
            }
            // long shared stem
            4 => {
                let mut k = vec![7u8; 12];
                k.truncate(rng.range(9, 12) as usize);
                k.extend(word(rng, 3));
                k
            }
            // wide fan-out under one stem
            _ => {
                let mut k = if rng.chance(1, 4) { vec![] } else { vec![5u8] };
                k.push(rng.below(256) as u8);
                k
            }
        };
        let k: Key = k.into_iter().take(24).collect();
        if !u.contains(&k) {
            u.push(k);
        }
    }
    if rng.chance(1, 2) && !u.iter().any(|k| k.is_empty()) {
        u.push(vec![]);
    }
    u
}

/// Deep, wide and long-edged tries: grown in some order, looked at in every way, then taken apart.
fn tall(rng: &mut Rng, keys: usize) -> (Vec<ROp>, Vec<Key>) {
    let stem: Key = (0..rng.range(0, 2)).map(|_| rng.below(256) as u8).collect();
    let style = rng.below(5);
    let step = rng.range(1, 3) as usize;
    let mut u: Vec<Key> = (0..keys)
        .map(|i| {
            let mut k = stem.clone();
            match style {
                // each key extends the one before
                0 => k.extend((0..i * step).map(|j| (j * 37 % 251) as u8)),
                1 => k.extend(std::iter::repeat(97).take(i)),
                // all bytes at one node
                2 => {
                    k.push((i % 256) as u8);
                    k.extend(std::iter::repeat(255).take(i / 256));
                }
                // a comb: a chain with a leaf at every node
                3 => {
                    k.extend(std::iter::repeat(97).take(i / 2));
                    if i % 2 == 1 {
                        k.push(rng.pick(&[0, 96, 98, 255]));
                    }
                }
                // few keys with very long edges
                _ => {
                    k.extend(std::iter::repeat(7).take(rng.pick(&[200, 255, 256, 257, 300])));
                    k.truncate(rng.below(k.len() as u64) as usize);
                    k.push(rng.below(3) as u8);
                }
            }
            k
        })
        .collect();
    if style == 4 {
        u.truncate(12);
    }
    u.sort();
    u.dedup();
    let order = |rng: &mut Rng, u: &[Key]| -> Vec<Key> {
        let mut o = u.to_vec();
        match rng.below(3) {
            0 => {}
            1 => o.reverse(),
            _ => {
                for i in (1..o.len()).rev() {
                    o.swap(i, rng.below(i as u64 + 1) as usize);
                }
            }
        }
        o
    };
    let look = |rng: &mut Rng, v: &mut Vec<ROp>| {
        for kind in 0..4 {
            let c = if rng.chance(2, 3) { 100_000 } else { rng.range(0, u.len() as i64) };
            v.push(rop("iter", &[1, kind, c, 100_000 * rng.range(1, 5)], &[]));
        }
        for _ in 0..6 {
            let mut p = rng.pick_ref(&u).clone();
            if rng.chance(1, 2) {
                p.truncate(rng.below(p.len() as u64 + 1) as usize);
            }
            if rng.chance(1, 4) {
                p.push(rng.below(256) as u8);
            }
            v.push(rop(rng.pick(&["lp", "lp", "get", "has"]), &[1], &p));
        }
        v.push(rop("min", &[1], &[]));
        v.push(rop("max", &[1], &[]));
    };
    let mut v = vec![];
    let mut val = 100;
    for _ in 0..2 {
        for k in order(rng, &u) {
            val += 1;
            v.push(rop("ins", &[1, val], &k));
        }
        look(rng, &mut v);
        let half = u.len() / 2;
        let o = order(rng, &u);
        for k in &o[..half] {
            v.push(rop("rem", &[1], k));
        }
        look(rng, &mut v);
        if rng.chance(1, 2) {
            for k in &o[half..] {
                v.push(rop("rem", &[1], k));
            }
            look(rng, &mut v);
        } else {
            v.push(rop("iter", &[1, 4, rng.range(0, u.len() as i64), 0], &[]));
        }
    }
    (v, vec![])
}

/// Returns the script and the probe keys.
pub fn gen(rng: &mut Rng, profile: &str, n: usize, keys: usize) -> (Vec<ROp>, Vec<Key>) {
    if profile == "tall" {
        return tall(rng, keys);
    }
    let u = universe(rng, keys);
    let mut probes = u.clone();
    for _ in 0..4 {
        let mut k = rng.below(u.len() as u64) as usize;
        k %= u.len();
        let mut p = u[k].clone();
        match rng.below(3) {
            0 => p.push(rng.below(256) as u8),
            1 => {
                p.pop();
            }
            _ => {
                let l = p.len();
                if l > 0 {
                    p[l - 1] = p[l - 1].wrapping_add(1);
                }
            }
        }
        if !probes.contains(&p) {
            probes.push(p);
        }
    }
    let mut v: Vec<ROp> = vec![];
    let mut val = 100;
    let mut phase = true;
    while v.len() < n {
        if rng.chance(1, 20) {
            phase = !phase;
        }
        val += 1;
        let k = u[rng.below(u.len() as u64) as usize].clone();
        let p = probes[rng.below(probes.len() as u64) as usize].clone();
        let x = rng.below(100);
        let (mutw, lpw) = match profile {
            "lp" => (45, 45),
            "iter" => (50, 2),
            "misuse" => (55, 0),
            _ => (60, 6),
        };
        if x < mutw {
            if rng.below(100) < if phase { 70 } else { 25 } {
                v.push(rop("ins", &[1, val], &k));
            } else {
                v.push(rop("rem", &[1], if rng.chance(1, 8) { &p } else { &k }));
            }
        } else if x < mutw + lpw {
            v.push(rop("lp", &[1], &p));
        } else {
            match rng.below(16) {
                0 => v.push(rop("set", &[1, val], &p)),
                1 => v.push(rop("get", &[1], &p)),
                2 => v.push(rop("has", &[1], &p)),
                3 => v.push(rop("idx", &[1], &p)),
                4 => v.push(rop("idxset", &[1, val], &p)),
                5 => v.push(rop(rng.pick(&["len", "empty", "min", "max"]), &[1], &[])),
                6 if rng.chance(1, 4) => v.push(rop("clear", &[1], &[])),
                7 if rng.chance(1, 4) => v.push(rop("iter", &[1, 4, rng.range(0, keys as i64), 0], &[])),
                8 if profile == "own" && rng.chance(1, 4) => v.push(rop("drop", &[1], &[])),
                9 | 10 | 11 => {
                    let c = if rng.chance(2, 3) { 1000 } else { rng.range(0, keys as i64) };
                    v.push(rop("iter", &[1, rng.range(0, 3), c, 1000 * rng.range(1, 5)], &[]))
                }
                _ => v.push(rop("sweep", &[1], &[])),
            }
        }
    }
    v.push(rop("sweep", &[1], &[]));
    v.push(rop("iter", &[1, 4, 1000, 0], &[]));
    v.push(rop("ins", &[1, 7], &u[0]));
    v.push(rop("sweep", &[1], &[]));
    (v, probes)
}
