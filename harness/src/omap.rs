//! Ordered maps and sets: one interface over the five implementations, and the history executor.
use crate::util::*;
use extended_collections::{
    avl_tree::{AvlMap, AvlSet},
    red_black_tree::{RedBlackMap, RedBlackSet},
    skiplist::{SkipMap, SkipSet},
    splay_tree::{SplayMap, SplaySet},
    treap::{TreapMap, TreapSet},
};

/// key, key id, value, value id
pub type Item = (i64, i64, i64, i64);
pub type Pair = (K, Option<V>);

pub trait OMap: Sized {
    const SET: bool;
    const ALG: bool;
    const SPLIT: bool;
    fn make(default: bool) -> Self;
    fn ins(&mut self, k: K, v: V) -> Option<Pair>;
    fn rem(&mut self, k: i64, b: bool) -> Option<Pair>;
    fn has(&self, k: i64, b: bool) -> bool;
    fn get(&self, k: i64, b: bool) -> Option<i64>;
    fn set(&mut self, k: i64, v: i64, b: bool) -> Option<i64>;
    fn idx(&self, k: i64) -> i64;
    fn idxset(&mut self, k: i64, v: i64) -> i64;
    fn count(&self) -> usize;
    fn empty(&self) -> bool;
    fn wipe(&mut self);
    fn flo(&self, k: i64, b: bool) -> Option<(i64, i64)>;
    fn cei(&self, k: i64, b: bool) -> Option<(i64, i64)>;
    fn lo(&self) -> Option<(i64, i64)>;
    fn hi(&self) -> Option<(i64, i64)>;
    /// kind 0: iter(), 1: (&m).into_iter()
    fn it(&self, kind: i64, n: usize) -> (Vec<Item>, i64);
    /// kind 2: iter_mut(), 3: (&mut m).into_iter(); adds delta to every value yielded
    fn it_mut(&mut self, kind: i64, n: usize, delta: i64) -> (Vec<Item>, i64);
    /// kind 4: into_iter()
    fn into_n(self, n: usize, out: &mut Vec<Pair>) -> i64;
    fn uni(a: Self, b: Self, op: bool) -> Self;
    fn int(a: Self, b: Self) -> Self;
    fn dif(a: Self, b: Self, op: bool) -> Self;
    fn sym(a: Self, b: Self) -> Self;
    fn split(&mut self, k: i64, incl: bool) -> Self;
}

/// Takes up to n items; 2 = stopped early, 1 = exhausted and stays so, 0 = yields again after the end.
fn drain<I: Iterator, F: FnMut(I::Item)>(it: &mut I, n: usize, mut f: F) -> i64 {
    for _ in 0..n {
        match it.next() {
            Some(x) => f(x),
            None => {
                let mut ok = 1;
                for _ in 0..2 {
                    if it.next().is_some() {
                        ok = 0;
                    }
                }
                return ok;
            }
        }
    }
    2
}
fn kp(k: &K) -> (i64, i64) {
    (i64::from(k.k), i64::from(k.id))
}

macro_rules! map_common {
    () => {
        const SET: bool = false;
        fn make(default: bool) -> Self {
            if default {
                Default::default()
            } else {
                Self::new()
            }
        }
        fn ins(&mut self, k: K, v: V) -> Option<Pair> {
            self.insert(k, v).map(|(k, v)| (k, Some(v)))
        }
        fn rem(&mut self, k: i64, b: bool) -> Option<Pair> {
            if b {
                self.remove(&(k as i32))
            } else {
                self.remove(&K::probe(k))
            }
            .map(|(k, v)| (k, Some(v)))
        }
        fn has(&self, k: i64, b: bool) -> bool {
            if b {
                self.contains_key(&(k as i32))
            } else {
                self.contains_key(&K::probe(k))
            }
        }
        fn get(&self, k: i64, b: bool) -> Option<i64> {
            if b {
                self.get(&(k as i32))
            } else {
                self.get(&K::probe(k))
            }
            .map(|v| v.v)
        }
        fn set(&mut self, k: i64, v: i64, b: bool) -> Option<i64> {
            if b {
                self.get_mut(&(k as i32))
            } else {
                self.get_mut(&K::probe(k))
            }
            .map(|x| std::mem::replace(&mut x.v, v))
        }
        fn idx(&self, k: i64) -> i64 {
            self[&K::probe(k)].v
        }
        fn idxset(&mut self, k: i64, v: i64) -> i64 {
            std::mem::replace(&mut self[&(k as i32)].v, v)
        }
        fn it(&self, kind: i64, n: usize) -> (Vec<Item>, i64) {
            let mut r = Vec::new();
            let x = {
                let f = |(k, v): (&K, &V)| r.push((i64::from(k.k), i64::from(k.id), v.v, i64::from(v.id)));
                if kind == 0 {
                    drain(&mut self.iter(), n, f)
                } else {
                    drain(&mut self.into_iter(), n, f)
                }
            };
            (r, x)
        }
        fn it_mut(&mut self, kind: i64, n: usize, delta: i64) -> (Vec<Item>, i64) {
            let mut r = Vec::new();
            let x = {
                let f = |(k, v): (&K, &mut V)| {
                    r.push((i64::from(k.k), i64::from(k.id), v.v, i64::from(v.id)));
                    v.v += delta;
                };
                if kind == 2 {
                    drain(&mut self.iter_mut(), n, f)
                } else {
                    drain(&mut self.into_iter(), n, f)
                }
            };
            (r, x)
        }
        fn into_n(self, n: usize, out: &mut Vec<Pair>) -> i64 {
            let mut it = self.into_iter();
            drain(&mut it, n, |(k, v)| out.push((k, Some(v))))
        }
        common!();
    };
}
macro_rules! set_common {
    ($b:ident) => {
        const SET: bool = true;
        fn make(default: bool) -> Self {
            if default {
                Default::default()
            } else {
                Self::new()
            }
        }
        fn ins(&mut self, k: K, _v: V) -> Option<Pair> {
            self.insert(k).map(|k| (k, None))
        }
        fn rem(&mut self, k: i64, b: bool) -> Option<Pair> {
            set_remove!($b, self, k, b).map(|k| (k, None))
        }
        fn has(&self, k: i64, b: bool) -> bool {
            if b {
                self.contains(&(k as i32))
            } else {
                self.contains(&K::probe(k))
            }
        }
        fn get(&self, _k: i64, _b: bool) -> Option<i64> {
            unreachable!()
        }
        fn set(&mut self, _k: i64, _v: i64, _b: bool) -> Option<i64> {
            unreachable!()
        }
        fn idx(&self, _k: i64) -> i64 {
            unreachable!()
        }
        fn idxset(&mut self, _k: i64, _v: i64) -> i64 {
            unreachable!()
        }
        fn it(&self, kind: i64, n: usize) -> (Vec<Item>, i64) {
            let mut r = Vec::new();
            let x = {
                let f = |k: &K| r.push((i64::from(k.k), i64::from(k.id), 0, 0));
                if kind == 0 {
                    drain(&mut self.iter(), n, f)
                } else {
                    drain(&mut self.into_iter(), n, f)
                }
            };
            (r, x)
        }
        fn it_mut(&mut self, _kind: i64, n: usize, _delta: i64) -> (Vec<Item>, i64) {
            self.it(0, n)
        }
        fn into_n(self, n: usize, out: &mut Vec<Pair>) -> i64 {
            let mut it = self.into_iter();
            drain(&mut it, n, |k| out.push((k, None)))
        }
        common!();
    };
}
macro_rules! set_remove {
    (borrow, $s:ident, $k:ident, $b:ident) => {
        if $b {
            $s.remove(&($k as i32))
        } else {
            $s.remove(&K::probe($k))
        }
    };
    (key, $s:ident, $k:ident, $b:ident) => {{
        let _ = $b;
        $s.remove(&K::probe($k))
    }};
}
macro_rules! common {
    () => {
        fn count(&self) -> usize {
            self.len()
        }
        fn empty(&self) -> bool {
            self.is_empty()
        }
        fn wipe(&mut self) {
            self.clear()
        }
        fn flo(&self, k: i64, b: bool) -> Option<(i64, i64)> {
            if b {
                self.floor(&(k as i32))
            } else {
                self.floor(&K::probe(k))
            }
            .map(kp)
        }
        fn cei(&self, k: i64, b: bool) -> Option<(i64, i64)> {
            if b {
                self.ceil(&(k as i32))
            } else {
                self.ceil(&K::probe(k))
            }
            .map(kp)
        }
        fn lo(&self) -> Option<(i64, i64)> {
            self.min().map(kp)
        }
        fn hi(&self) -> Option<(i64, i64)> {
            self.max().map(kp)
        }
    };
}
macro_rules! no_alg {
    () => {
        const ALG: bool = false;
        fn uni(_: Self, _: Self, _: bool) -> Self {
            unreachable!()
        }
        fn int(_: Self, _: Self) -> Self {
            unreachable!()
        }
        fn dif(_: Self, _: Self, _: bool) -> Self {
            unreachable!()
        }
        fn sym(_: Self, _: Self) -> Self {
            unreachable!()
        }
    };
}
macro_rules! alg {
    () => {
        const ALG: bool = true;
        fn uni(a: Self, b: Self, op: bool) -> Self {
            if op {
                a + b
            } else {
                Self::union(a, b)
            }
        }
        fn int(a: Self, b: Self) -> Self {
            Self::intersection(a, b)
        }
        fn dif(a: Self, b: Self, op: bool) -> Self {
            if op {
                a - b
            } else {
                Self::difference(a, b)
            }
        }
        fn sym(a: Self, b: Self) -> Self {
            Self::symmetric_difference(a, b)
        }
    };
}
macro_rules! no_split {
    () => {
        const SPLIT: bool = false;
        fn split(&mut self, _: i64, _: bool) -> Self {
            unreachable!()
        }
    };
}
impl OMap for AvlMap<K, V> {
    map_common!();
    no_alg!();
    no_split!();
}
impl OMap for RedBlackMap<K, V> {
    map_common!();
    no_alg!();
    no_split!();
}
impl OMap for SplayMap<K, V> {
    map_common!();
    no_alg!();
    no_split!();
}
impl OMap for TreapMap<K, V> {
    map_common!();
    alg!();
    const SPLIT: bool = true;
    fn split(&mut self, k: i64, incl: bool) -> Self {
        self.split_off(&K::probe(k), incl)
    }
}
impl OMap for SkipMap<K, V> {
    map_common!();
    alg!();
    no_split!();
}
impl OMap for AvlSet<K> {
    set_common!(key);
    no_alg!();
    no_split!();
}
impl OMap for RedBlackSet<K> {
    set_common!(key);
    no_alg!();
    no_split!();
}
impl OMap for SplaySet<K> {
    set_common!(key);
    no_alg!();
    no_split!();
}
impl OMap for TreapSet<K> {
    set_common!(key);
    alg!();
    const SPLIT: bool = true;
    fn split(&mut self, k: i64, incl: bool) -> Self {
        self.split_off(&K::probe(k), incl)
    }
}
impl OMap for SkipSet<K> {
    set_common!(borrow);
    alg!();
    no_split!();
}

/// What the recorder writes beside results.
#[derive(Clone, Copy)]
pub struct Mode {
    pub chosen: i64,
    /// ownership: ids given, returned, destroyed and visible
    pub own: bool,
    /// the elements' own code fails now and then
    pub boom: bool,
    /// keys are 1..=kmax; sweeps probe 0..=kmax+1
    pub kmax: i64,
    /// keep going after a refused request (misuse histories)
    pub misuse: bool,
}

fn opt2(x: Option<(i64, i64)>) -> String {
    match x {
        Some((a, b)) => js(&[a, b]),
        None => "[]".to_string(),
    }
}
fn opt1(x: Option<i64>) -> String {
    match x {
        Some(a) => js(&[a]),
        None => "[]".to_string(),
    }
}
fn pair_js(p: &Option<Pair>) -> String {
    match p {
        Some((k, v)) => js(&[i64::from(k.k), i64::from(k.id), v.as_ref().map_or(0, |v| v.v)]),
        None => "[]".to_string(),
    }
}
fn pair_ids(p: &Pair, out: &mut Vec<i64>) {
    out.push(i64::from(p.0.id));
    if let Some(v) = &p.1 {
        out.push(i64::from(v.id));
    }
}
fn items3(xs: &[Item]) -> String {
    jss(&xs.iter().map(|x| vec![x.0, x.1, x.2]).collect::<Vec<_>>())
}

pub const SLOTS: usize = 3;

/// Executes one script against fresh collections and records it. Returns false if it had to stop.
pub fn run<M: OMap>(out: &mut Out, im: &str, id: &str, script: &[Op], mode: Mode) {
    reset_ids();
    out.begin(im, id, &format!(",\"set\":{},\"kmax\":{}", M::SET as i32, mode.kmax));
    let mut slots: Vec<Option<M>> = (0..SLOTS).map(|i| Some(M::make(i % 2 == 1))).collect();
    let mut stopped = false;
    let mut steer = Steer::new(mode.chosen, id);
    for op in script {
        if op.o == "rnd" {
            decide(&[op.a[0] as u32]);
            continue;
        }
        if op.o == "boom" {
            arm(op.a[0], op.a[1]);
            continue;
        }
        if let Some(s) = &mut steer {
            s.next();
        }
        out.intent(&op.o, &op.a);
        let res = guarded(|| step::<M>(&mut slots, op, mode));
        let failed = disarm();
        match res {
            Ok(Some(body)) => out.ev(&body),
            Ok(None) => {}
            Err(()) if mode.boom => {
                let d: Vec<i64> = take_drops().into_iter().map(i64::from).collect();
                for s in &mut slots {
                    if s.is_none() {
                        *s = Some(M::make(false));
                    }
                }
                out.intent("look", &[]);
                let mut body = format!("{},\"p\":1,\"b\":{}", base(&op.o, &op.a, "[]"), failed as i64);
                let all: Vec<usize> = (0..SLOTS).collect();
                match guarded(|| held(&slots, &all, mode)) {
                    Ok(vis) => body.push_str(&format!(
                        ",\"gi\":[],\"rt\":[],\"dr\":{},\"vis\":{},\"top\":{}",
                        js(&d),
                        vis,
                        last_id()
                    )),
                    // what safe code left behind need not be readable
                    Err(()) => {
                        stopped = true;
                        break;
                    }
                }
                out.ev(&body);
            }
            Err(()) => {
                let _ = take_drops();
                out.ev(&format!("{},\"p\":1", base(&op.o, &op.a, "[]")));
                if !mode.misuse || slots.iter().any(|s| s.is_none()) {
                    stopped = true;
                    break;
                }
            }
        }
    }
    // dropping what is left is part of the history
    if !stopped && mode.own {
        for s in 0..SLOTS {
            out.intent("drop", &[s as i64 + 1]);
            let body = step::<M>(&mut slots, &Op::new("drop", &[s as i64 + 1]), mode);
            if let Some(b) = body {
                out.ev(&b);
            }
        }
    }
    decide(&[]);
    if stopped {
        // state after a panic is not trusted
        std::mem::forget(slots);
    }
    out.end();
}

/// The elements each of these collections holds, as iteration shows them.
fn held<M: OMap>(slots: &[Option<M>], which: &[usize], mode: Mode) -> String {
    let mut vis = String::from("[");
    for (i, &t) in which.iter().enumerate() {
        if i > 0 {
            vis.push(',');
        }
        // a chain that was left in disorder may be endless
        let (items, _) = slots[t].as_ref().unwrap().it(0, if mode.boom { 3000 } else { usize::max_value() });
        let mut ids = Vec::new();
        for x in items {
            ids.push(x.1);
            if !M::SET {
                ids.push(x.3);
            }
        }
        vis.push_str(&format!("{{\"s\":{},\"i\":{}}}", t + 1, js(&ids)));
    }
    vis.push(']');
    vis
}

fn step<M: OMap>(slots: &mut Vec<Option<M>>, op: &Op, mode: Mode) -> Option<String> {
    let a = |i: usize| op.a[i];
    let s = (op.a[0] - 1) as usize;
    let b = op.a.iter().sum::<i64>() % 2 == 0; // borrowed lookups for half the probes
    let mut given: Vec<i64> = vec![];
    let mut ret: Vec<i64> = vec![];
    let mut touched = vec![s];
    let mut args = op.a.clone();
    let kmax = mode.kmax;
    macro_rules! sl {
        () => {
            slots[s].as_mut().unwrap()
        };
    }
    let r: String = match op.o.as_str() {
        // ins s k v
        "ins" => {
            let k = K::new(a(1));
            let v = if M::SET { V { v: 0, id: 0 } } else { V::new(a(2)) };
            given.push(i64::from(k.id));
            if !M::SET {
                given.push(i64::from(v.id));
            }
            args = vec![a(0), a(1), i64::from(k.id), if M::SET { 0 } else { a(2) }];
            let m = sl!();
            let p = track(|| m.ins(k, v));
            if let Some(p) = &p {
                pair_ids(p, &mut ret);
            }
            pair_js(&p)
        }
        "rem" => {
            let m = sl!();
            let p = track(|| m.rem(a(1), b));
            if let Some(p) = &p {
                pair_ids(p, &mut ret);
            }
            pair_js(&p)
        }
        "has" => js(&[sl!().has(a(1), b) as i64]),
        "get" => {
            if M::SET {
                return None;
            }
            opt1(sl!().get(a(1), b))
        }
        "set" => {
            if M::SET {
                return None;
            }
            opt1(sl!().set(a(1), a(2), b))
        }
        "idx" => {
            if M::SET || (!mode.misuse && !sl!().has(a(1), false)) {
                return None;
            }
            js(&[sl!().idx(a(1))])
        }
        "idxset" => {
            if M::SET || (!mode.misuse && !sl!().has(a(1), false)) {
                return None;
            }
            js(&[sl!().idxset(a(1), a(2))])
        }
        "len" => js(&[sl!().count() as i64]),
        "empty" => js(&[sl!().empty() as i64]),
        "clear" => {
            let m = sl!();
            track(|| m.wipe());
            "[]".into()
        }
        "drop" => {
            let m = slots[s].take().unwrap();
            track(|| drop(m));
            slots[s] = Some(M::make(false));
            "[]".into()
        }
        "flo" => opt2(sl!().flo(a(1), b)),
        "cei" => opt2(sl!().cei(a(1), b)),
        "min" => opt2(sl!().lo()),
        "max" => opt2(sl!().hi()),
        // iter s kind n delta
        "iter" => {
            let kind = a(1);
            let n = a(2) as usize;
            let (items, x) = if kind <= 1 {
                sl!().it(kind, n)
            } else if kind <= 3 {
                if M::SET {
                    return None;
                }
                sl!().it_mut(kind, n, a(3))
            } else {
                let m = slots[s].take().unwrap();
                slots[s] = Some(M::make(false));
                let mut ps = Vec::new();
                let x = track(|| m.into_n(n, &mut ps));
                for p in &ps {
                    pair_ids(p, &mut ret);
                }
                let items: Vec<Item> = ps
                    .iter()
                    .map(|p| (i64::from(p.0.k), i64::from(p.0.id), p.1.as_ref().map_or(0, |v| v.v), 0))
                    .collect();
                (items, x)
            };
            return Some(finish::<M>(
                slots,
                &op.o,
                &args,
                &items3(&items),
                &format!(",\"x\":{}", x),
                &touched,
                &given,
                &ret,
                mode,
            ));
        }
        // d a b
        "uni" | "add" | "int" | "dif" | "sub" | "sym" => {
            if !M::ALG || a(1) == a(2) {
                return None;
            }
            let (x, y) = ((a(1) - 1) as usize, (a(2) - 1) as usize);
            touched = vec![s];
            for i in &[x, y] {
                if !touched.contains(i) {
                    touched.push(*i);
                }
            }
            let l = slots[x].take().unwrap();
            let r = slots[y].take().unwrap();
            if s != x && s != y {
                let old = slots[s].take();
                track(|| drop(old));
            }
            let res = track(|| match op.o.as_str() {
                "uni" => M::uni(l, r, false),
                "add" => M::uni(l, r, true),
                "int" => M::int(l, r),
                "dif" => M::dif(l, r, false),
                "sub" => M::dif(l, r, true),
                _ => M::sym(l, r),
            });
            slots[x] = Some(M::make(false));
            slots[y] = Some(M::make(false));
            slots[s] = Some(res);
            "[]".into()
        }
        // split s d k incl
        "split" => {
            let d = (a(1) - 1) as usize;
            if !M::SPLIT || d == s {
                return None;
            }
            touched.push(d);
            let old = slots[d].take();
            track(|| drop(old));
            let m = slots[s].as_mut().unwrap();
            let res = track(|| m.split(a(2), a(3) == 1));
            slots[d] = Some(res);
            "[]".into()
        }
        // everything readable at once
        "sweep" => {
            let m = slots[s].as_ref().unwrap();
            let mut h = vec![];
            let mut g = vec![];
            let mut f = vec![];
            let mut c = vec![];
            for k in 0..=kmax + 1 {
                h.push(m.has(k, (k % 2 == 0) == b) as i64);
                if !M::SET {
                    g.push(m.get(k, (k % 2 == 1) == b).unwrap_or(-1));
                }
                f.push(m.flo(k, (k % 2 == 0) == b).map_or(-1, |x| x.1));
                c.push(m.cei(k, (k % 2 == 1) == b).map_or(-1, |x| x.1));
            }
            let (items, _) = m.it(0, usize::max_value());
            let extra = format!(
                ",\"h\":{},\"g\":{},\"f\":{},\"c\":{},\"mn\":{},\"mx\":{},\"n\":{},\"e\":{}",
                js(&h),
                js(&g),
                js(&f),
                js(&c),
                opt2(m.lo()),
                opt2(m.hi()),
                cnt(m.count()),
                m.empty() as i64
            );
            return Some(finish::<M>(
                slots,
                &op.o,
                &args,
                &items3(&items),
                &extra,
                &touched,
                &given,
                &ret,
                mode,
            ));
        }
        o => panic!("unknown operation {}", o),
    };
    Some(finish::<M>(slots, &op.o, &args, &r, "", &touched, &given, &ret, mode))
}

fn finish<M: OMap>(
    slots: &[Option<M>],
    o: &str,
    args: &[i64],
    r: &str,
    extra: &str,
    touched: &[usize],
    given: &[i64],
    ret: &[i64],
    mode: Mode,
) -> String {
    let mut body = base(o, args, r);
    body.push_str(extra);
    if mode.own {
        let d: Vec<i64> = take_drops().into_iter().map(i64::from).collect();
        let vis = held(slots, touched, mode);
        if mode.boom {
            body.push_str(&format!(",\"top\":{}", last_id()));
        }
        body.push_str(&format!(
            ",\"gi\":{},\"rt\":{},\"dr\":{},\"vis\":{}",
            js(given),
            js(ret),
            js(&d),
            vis
        ));
    } else {
        let _ = take_drops();
    }
    body
}

/// Keys 1..=n in an order that gives trees an extreme shape.
fn shape(rng: &mut Rng, n: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (1..=n).collect();
    match rng.below(7) {
        0 => {}
        1 => v.reverse(),
        // from both ends inwards
        2 => v = (0..n).map(|i| if i % 2 == 0 { i / 2 + 1 } else { n - i / 2 }).collect(),
        // from the middle outwards
        3 => {
            v = (0..n).map(|i| if i % 2 == 0 { i / 2 + 1 } else { n - i / 2 }).collect();
            v.reverse();
        }
        // ascending blocks, the highest block first
        4 => {
            let b = rng.range(2, 40);
            v.sort_by_key(|k| (-(k / b), k % b));
        }
        // every b-th key first
        5 => {
            let b = rng.range(2, 40);
            v.sort_by_key(|k| (k % b, k / b));
        }
        _ => {
            for i in (1..v.len()).rev() {
                v.swap(i, rng.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

/// Large collections of extreme shape, looked at in every way, then taken apart.
fn tall(rng: &mut Rng, profile: &str, kmax: i64, slots: i64) -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let alg = profile == "tallalg";
    let mut val = 100;
    let look = |rng: &mut Rng, v: &mut Vec<Op>, s: i64| {
        for kind in 0..4 {
            let n = if rng.chance(3, 4) { 100_000 } else { rng.range(0, kmax) };
            v.push(Op::new("iter", &[s, kind, n, rng.range(1, 5) * 100_000]));
        }
        for _ in 0..12 {
            let probe = rng.range(0, kmax + 1);
            v.push(Op::new(rng.pick(&["has", "get", "flo", "cei"]), &[s, probe]));
        }
        v.push(Op::new(rng.pick(&["min", "max", "len"]), &[s]));
    };
    for _ in 0..2 {
        for s in 1..=slots {
            let part = if alg { rng.range(1, 3) } else { 1 };
            for k in shape(rng, kmax) {
                if k % part == 0 || rng.chance(1, 9) {
                    val += 1;
                    v.push(Op::new("ins", &[s, k, val]));
                }
            }
            look(rng, &mut v, s);
        }
        if alg {
            for _ in 0..3 {
                let p = rng.range(1, slots);
                let q = p % slots + 1;
                let d = rng.range(1, slots);
                let s = rng.range(1, slots);
                if rng.chance(1, 2) {
                    v.push(Op::new(rng.pick(&["uni", "add", "int", "dif", "sub", "sym", "uni", "sym"]), &[d, p, q]));
                    look(rng, &mut v, d);
                } else {
                    v.push(Op::new("split", &[s, s % slots + 1, rng.range(0, kmax + 1), rng.range(0, 1)]));
                    look(rng, &mut v, s);
                    look(rng, &mut v, s % slots + 1);
                }
            }
        }
        for s in 1..=slots {
            let keep = rng.range(0, 3) * kmax / 4;
            for (i, k) in shape(rng, kmax).into_iter().enumerate() {
                if i as i64 >= keep {
                    v.push(Op::new("rem", &[s, k]));
                }
            }
            look(rng, &mut v, s);
            if rng.chance(1, 2) {
                v.push(Op::new("iter", &[s, 4, if rng.chance(1, 2) { 100_000 } else { rng.range(0, kmax) }, 0]));
            }
        }
    }
    v
}

/// Random histories. `profile` chooses the mix of operations.
pub fn gen(rng: &mut Rng, profile: &str, n: usize, kmax: i64, slots: i64) -> Vec<Op> {
    if profile.starts_with("tall") {
        return tall(rng, profile, kmax, slots);
    }
    let mut v: Vec<Op> = Vec::new();
    let mut val = 100;
    let sl = |rng: &mut Rng| rng.range(1, slots);
    let mut phase_insert = true;
    while v.len() < n {
        if rng.chance(1, 24) {
            phase_insert = !phase_insert;
        }
        let s = sl(rng);
        let k = rng.range(1, kmax);
        let probe = rng.range(0, kmax + 1);
        val += 1;
        let grow = if phase_insert { 62 } else { 30 };
        let x = rng.below(100);
        let mutate = |rng: &mut Rng| {
            if rng.below(100) < grow {
                Op::new("ins", &[s, k, val])
            } else {
                Op::new("rem", &[s, if rng.chance(1, 8) { probe } else { k }])
            }
        };
        let iter = |rng: &mut Rng, into: bool| {
            let kind = rng.range(0, if into { 4 } else { 3 });
            let n = if rng.chance(2, 3) { 1000 } else { rng.range(0, kmax) };
            Op::new("iter", &[s, kind, n, rng.range(1, 5) * 1000])
        };
        match profile {
            "map" => {
                if x < 60 {
                    v.push(mutate(rng));
                } else if x < 66 {
                    v.push(Op::new("set", &[s, probe, val]));
                } else if x < 69 {
                    v.push(Op::new("idx", &[s, k]));
                } else if x < 71 {
                    v.push(Op::new("idxset", &[s, k, val]));
                } else if x < 74 {
                    v.push(Op::new("get", &[s, probe]));
                } else if x < 77 {
                    v.push(Op::new("has", &[s, probe]));
                } else if x < 80 {
                    v.push(Op::new("flo", &[s, probe]));
                } else if x < 83 {
                    v.push(Op::new("cei", &[s, probe]));
                } else if x < 85 {
                    v.push(Op::new(rng.pick(&["len", "empty", "min", "max"]), &[s]));
                } else if x < 86 && rng.chance(1, 6) {
                    v.push(Op::new("clear", &[s]));
                } else {
                    v.push(Op::new("sweep", &[s]));
                }
            }
            "iter" => {
                if x < 55 {
                    v.push(mutate(rng));
                } else if x < 58 {
                    v.push(Op::new("set", &[s, probe, val]));
                } else if x < 90 {
                    let op = iter(rng, false);
                    v.push(op);
                } else if x < 91 {
                    v.push(Op::new("iter", &[s, 4, rng.range(0, kmax + 2), 0]));
                } else if x < 93 && rng.chance(1, 8) {
                    v.push(Op::new("clear", &[s]));
                } else {
                    v.push(Op::new("sweep", &[s]));
                }
            }
            "alg" | "own" => {
                if x < 62 {
                    v.push(mutate(rng));
                } else if x < 80 {
                    let p = rng.range(1, slots);
                    let q = p % slots + 1;
                    let (p, q) = if rng.chance(1, 2) { (p, q) } else { (q, p) };
                    v.push(Op::new(
                        rng.pick(&["uni", "add", "int", "dif", "sub", "sym", "uni", "sym"]),
                        &[sl(rng), p, q],
                    ));
                } else if x < 86 {
                    let d = s % slots + 1;
                    v.push(Op::new("split", &[s, d, probe, rng.range(0, 1)]));
                } else if profile == "own" {
                    if x < 90 {
                        let op = iter(rng, true);
                        v.push(op);
                    } else if x < 92 {
                        v.push(Op::new("iter", &[s, 4, rng.range(0, kmax), 0]));
                    } else if x < 93 {
                        v.push(Op::new("clear", &[s]));
                    } else if x < 94 {
                        v.push(Op::new("drop", &[s]));
                    } else if x < 97 {
                        v.push(Op::new("set", &[s, probe, val]));
                    } else {
                        v.push(Op::new("get", &[s, probe]));
                    }
                } else if x < 89 {
                    let op = iter(rng, false);
                    v.push(op);
                } else if x < 90 {
                    v.push(Op::new("set", &[s, probe, val]));
                } else {
                    v.push(Op::new("sweep", &[s]));
                }
            }
            "misuse" => {
                if x < 50 {
                    v.push(mutate(rng));
                } else if x < 75 {
                    v.push(Op::new("idx", &[s, probe]));
                } else if x < 90 {
                    v.push(Op::new("idxset", &[s, probe, val]));
                } else {
                    v.push(Op::new("sweep", &[s]));
                }
            }
            p => panic!("unknown profile {}", p),
        }
    }
    for s in 1..=slots {
        v.push(Op::new("sweep", &[s]));
        v.push(Op::new("iter", &[s, 4, 1000, 0]));
        v.push(Op::new("ins", &[s, 1, 7]));
        v.push(Op::new("sweep", &[s]));
    }
    v
}

#[macro_export]
macro_rules! dispatch_omap {
    ($im:expr, $f:ident, $($arg:expr),*) => {
        match $im {
            "avlmap" => $f::<extended_collections::avl_tree::AvlMap<$crate::util::K, $crate::util::V>>($($arg),*),
            "rbmap" => $f::<extended_collections::red_black_tree::RedBlackMap<$crate::util::K, $crate::util::V>>($($arg),*),
            "splaymap" => $f::<extended_collections::splay_tree::SplayMap<$crate::util::K, $crate::util::V>>($($arg),*),
            "treapmap" => $f::<extended_collections::treap::TreapMap<$crate::util::K, $crate::util::V>>($($arg),*),
            "skipmap" => $f::<extended_collections::skiplist::SkipMap<$crate::util::K, $crate::util::V>>($($arg),*),
            "avlset" => $f::<extended_collections::avl_tree::AvlSet<$crate::util::K>>($($arg),*),
            "rbset" => $f::<extended_collections::red_black_tree::RedBlackSet<$crate::util::K>>($($arg),*),
            "splayset" => $f::<extended_collections::splay_tree::SplaySet<$crate::util::K>>($($arg),*),
            "treapset" => $f::<extended_collections::treap::TreapSet<$crate::util::K>>($($arg),*),
            "skipset" => $f::<extended_collections::skiplist::SkipSet<$crate::util::K>>($($arg),*),
            x => panic!("unknown implementation {}", x),
        }
    };
}
