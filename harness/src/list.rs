//! Positional lists: one interface over the two implementations, and the history executor.
use crate::util::*;
use extended_collections::{skiplist::SkipList, treap::TreapList};

pub trait Lst: Sized {
    fn make(default: bool) -> Self;
    fn ins(&mut self, i: usize, v: V);
    fn rem(&mut self, i: usize) -> V;
    fn pushf(&mut self, v: V);
    fn pushb(&mut self, v: V);
    fn popf(&mut self) -> V;
    fn popb(&mut self) -> V;
    fn at(&self, i: usize) -> Option<i64>;
    fn set(&mut self, i: usize, v: i64) -> Option<i64>;
    fn idx(&self, i: usize) -> i64;
    fn idxset(&mut self, i: usize, v: i64) -> i64;
    fn count(&self) -> usize;
    fn empty(&self) -> bool;
    fn wipe(&mut self);
    fn it(&self, kind: i64, n: usize) -> (Vec<(i64, i64)>, i64);
    fn it_mut(&mut self, kind: i64, n: usize, delta: i64) -> (Vec<(i64, i64)>, i64);
    fn into_n(self, n: usize, out: &mut Vec<V>) -> i64;
    fn cat(a: Self, b: Self) -> Self;
}

pub fn drain<I: Iterator, F: FnMut(I::Item)>(it: &mut I, n: usize, mut f: F) -> i64 {
    for _ in 0..n {
        match it.next() {
            Some(x) => f(x),
            None => {
                let mut ok = 1;
                for _ in 0..2 {
                    if it.next().is_some() {
                        ok = 0;
                    }
                }
                return ok;
            }
        }
    }
    2
}

macro_rules! lst {
    ($t:ty) => {
        impl Lst for $t {
            fn make(default: bool) -> Self {
                if default {
                    Default::default()
                } else {
                    Self::new()
                }
            }
            fn ins(&mut self, i: usize, v: V) {
                self.insert(i, v)
            }
            fn rem(&mut self, i: usize) -> V {
                self.remove(i)
            }
            fn pushf(&mut self, v: V) {
                self.push_front(v)
            }
            fn pushb(&mut self, v: V) {
                self.push_back(v)
            }
            fn popf(&mut self) -> V {
                self.pop_front()
            }
            fn popb(&mut self) -> V {
                self.pop_back()
            }
            fn at(&self, i: usize) -> Option<i64> {
                self.get(i).map(|v| v.v)
            }
            fn set(&mut self, i: usize, v: i64) -> Option<i64> {
                self.get_mut(i).map(|x| std::mem::replace(&mut x.v, v))
            }
            fn idx(&self, i: usize) -> i64 {
                self[i].v
            }
            fn idxset(&mut self, i: usize, v: i64) -> i64 {
                std::mem::replace(&mut self[i].v, v)
            }
            fn count(&self) -> usize {
                self.len()
            }
            fn empty(&self) -> bool {
                self.is_empty()
            }
            fn wipe(&mut self) {
                self.clear()
            }
            fn it(&self, kind: i64, n: usize) -> (Vec<(i64, i64)>, i64) {
                let mut r = Vec::new();
                let x = {
                    let f = |v: &V| r.push((v.v, i64::from(v.id)));
                    if kind == 0 {
                        drain(&mut self.iter(), n, f)
                    } else {
                        drain(&mut self.into_iter(), n, f)
                    }
                };
                (r, x)
            }
            fn it_mut(&mut self, kind: i64, n: usize, delta: i64) -> (Vec<(i64, i64)>, i64) {
                let mut r = Vec::new();
                let x = {
                    let f = |v: &mut V| {
                        r.push((v.v, i64::from(v.id)));
                        v.v += delta;
                    };
                    if kind == 2 {
                        drain(&mut self.iter_mut(), n, f)
                    } else {
                        drain(&mut self.into_iter(), n, f)
                    }
                };
                (r, x)
            }
            fn into_n(self, n: usize, out: &mut Vec<V>) -> i64 {
                let mut it = self.into_iter();
                drain(&mut it, n, |v| out.push(v))
            }
            fn cat(a: Self, b: Self) -> Self {
                a + b
            }
        }
    };
}
lst!(TreapList<V>);
lst!(SkipList<V>);

#[derive(Clone, Copy)]
pub struct Mode {
    pub chosen: i64,
    pub own: bool,
    /// the elements' own code fails now and then
    pub boom: bool,
    pub misuse: bool,
}
const SLOTS: usize = 3;

fn opt1(x: Option<i64>) -> String {
    match x {
        Some(a) => js(&[a]),
        None => "[]".to_string(),
    }
}

pub fn run<M: Lst>(out: &mut Out, im: &str, id: &str, script: &[Op], mode: Mode) {
    reset_ids();
    out.begin(im, id, "");
    let mut slots: Vec<Option<M>> = (0..SLOTS).map(|i| Some(M::make(i % 2 == 1))).collect();
    let mut stopped = false;
    let mut steer = Steer::new(mode.chosen, id);
    for op in script {
        if op.o == "rnd" {
            decide(&[op.a[0] as u32]);
            continue;
        }
        if op.o == "boom" {
            arm(op.a[0], op.a[1]);
            continue;
        }
        if let Some(s) = &mut steer {
            s.next();
        }
        out.intent(&op.o, &op.a);
        let res = guarded(|| step::<M>(&mut slots, op, mode));
        let failed = disarm();
        match res {
            Ok(Some(body)) => out.ev(&body),
            Ok(None) => {}
            Err(()) if mode.boom => {
                let d: Vec<i64> = take_drops().into_iter().map(i64::from).collect();
                for s in &mut slots {
                    if s.is_none() {
                        *s = Some(M::make(false));
                    }
                }
                out.intent("look", &[]);
                let mut body = format!("{},\"p\":1,\"b\":{}", base(&op.o, &op.a, "[]"), failed as i64);
                let all: Vec<usize> = (0..SLOTS).collect();
                match guarded(|| held(&slots, &all, mode)) {
                    Ok(vis) => body.push_str(&format!(
                        ",\"gi\":[],\"rt\":[],\"dr\":{},\"vis\":{},\"top\":{}",
                        js(&d),
                        vis,
                        last_id()
                    )),
                    // what safe code left behind need not be readable
                    Err(()) => {
                        stopped = true;
                        break;
                    }
                }
                out.ev(&body);
            }
            Err(()) => {
                let _ = take_drops();
                out.ev(&format!("{},\"p\":1", base(&op.o, &op.a, "[]")));
                if !mode.misuse || slots.iter().any(|s| s.is_none()) {
                    stopped = true;
                    break;
                }
            }
        }
    }
    if !stopped && mode.own {
        for s in 0..SLOTS {
            out.intent("drop", &[s as i64 + 1]);
            if let Some(b) = step::<M>(&mut slots, &Op::new("drop", &[s as i64 + 1]), mode) {
                out.ev(&b);
            }
        }
    }
    decide(&[]);
    if stopped {
        std::mem::forget(slots);
    }
    out.end();
}

/// The elements each of these collections holds, as iteration shows them.
fn held<M: Lst>(slots: &[Option<M>], which: &[usize], mode: Mode) -> String {
    let mut vis = String::from("[");
    for (i, &t) in which.iter().enumerate() {
        if i > 0 {
            vis.push(',');
        }
        // a chain that was left in disorder may be endless
        let (items, _) = slots[t].as_ref().unwrap().it(0, if mode.boom { 3000 } else { usize::max_value() });
        let ids: Vec<i64> = items.iter().map(|x| x.1).collect();
        vis.push_str(&format!("{{\"s\":{},\"i\":{}}}", t + 1, js(&ids)));
    }
    vis.push(']');
    vis
}

fn step<M: Lst>(slots: &mut Vec<Option<M>>, op: &Op, mode: Mode) -> Option<String> {
    let a = |i: usize| op.a[i];
    let s = (op.a[0] - 1) as usize;
    let mut given: Vec<i64> = vec![];
    let mut ret: Vec<i64> = vec![];
    let mut touched = vec![s];
    let mut args = op.a.clone();
    let n = slots[s].as_ref().unwrap().count();
    // positions in scripts wrap around so that generated histories stay in bounds unless misuse is wanted
    let put = |i: i64| -> usize {
        if mode.misuse {
            i as usize
        } else {
            i as usize % (n + 1)
        }
    };
    let pos = |i: i64| -> Option<usize> {
        if mode.misuse {
            Some(i as usize)
        } else if n == 0 {
            None
        } else {
            Some(i as usize % n)
        }
    };
    macro_rules! sl {
        () => {
            slots[s].as_mut().unwrap()
        };
    }
    let mut extra = String::new();
    let r: String = match op.o.as_str() {
        "ins" | "pushf" | "pushb" => {
            let v = V::new(*op.a.last().unwrap());
            given.push(i64::from(v.id));
            let m = sl!();
            match op.o.as_str() {
                "ins" => {
                    args[1] = put(a(1)) as i64;
                    let i = put(a(1));
                    // on refusal the value never entered the list
                    track(|| m.ins(i, v))
                }
                "pushf" => track(|| m.pushf(v)),
                _ => track(|| m.pushb(v)),
            }
            "[]".into()
        }
        "rem" => {
            let i = pos(a(1))?;
            args[1] = i as i64;
            let m = sl!();
            let v = track(|| m.rem(i));
            ret.push(i64::from(v.id));
            js(&[v.v])
        }
        "popf" | "popb" => {
            pos(0)?;
            let m = sl!();
            let v = if op.o == "popf" { track(|| m.popf()) } else { track(|| m.popb()) };
            ret.push(i64::from(v.id));
            js(&[v.v])
        }
        "get" => opt1(sl!().at(a(1) as usize)),
        "set" => opt1(sl!().set(a(1) as usize, a(2))),
        "idx" => {
            let i = pos(a(1))?;
            args[1] = i as i64;
            js(&[sl!().idx(i)])
        }
        "idxset" => {
            let i = pos(a(1))?;
            args[1] = i as i64;
            js(&[sl!().idxset(i, a(2))])
        }
        "len" => js(&[sl!().count() as i64]),
        "empty" => js(&[sl!().empty() as i64]),
        "clear" => {
            let m = sl!();
            track(|| m.wipe());
            "[]".into()
        }
        "drop" => {
            let m = slots[s].take().unwrap();
            track(|| drop(m));
            slots[s] = Some(M::make(false));
            "[]".into()
        }
        "iter" => {
            let kind = a(1);
            let n = a(2) as usize;
            let (items, x) = if kind <= 1 {
                sl!().it(kind, n)
            } else if kind <= 3 {
                sl!().it_mut(kind, n, a(3))
            } else {
                let m = slots[s].take().unwrap();
                slots[s] = Some(M::make(false));
                let mut vs = Vec::new();
                let x = track(|| m.into_n(n, &mut vs));
                for v in &vs {
                    ret.push(i64::from(v.id));
                }
                (vs.iter().map(|v| (v.v, 0)).collect(), x)
            };
            extra = format!(",\"x\":{}", x);
            js(&items.iter().map(|x| x.0).collect::<Vec<_>>())
        }
        // d a b
        "cat" => {
            if a(1) == a(2) {
                return None;
            }
            let (x, y) = ((a(1) - 1) as usize, (a(2) - 1) as usize);
            for i in &[x, y] {
                if !touched.contains(i) {
                    touched.push(*i);
                }
            }
            let l = slots[x].take().unwrap();
            let r = slots[y].take().unwrap();
            if s != x && s != y {
                let old = slots[s].take();
                track(|| drop(old));
            }
            let res = track(|| M::cat(l, r));
            slots[x] = Some(M::make(false));
            slots[y] = Some(M::make(false));
            slots[s] = Some(res);
            "[]".into()
        }
        "sweep" => {
            let m = sl!();
            let mut g = vec![];
            for i in 0..n + 2 {
                g.push(m.at(i).unwrap_or(-1));
            }
            let (items, _) = m.it(0, usize::max_value());
            extra = format!(
                ",\"g\":{},\"n\":{},\"e\":{},\"big\":{}",
                js(&g),
                cnt(m.count()),
                m.empty() as i64,
                opt1(m.at(usize::max_value())).len() as i64 - 2
            );
            js(&items.iter().map(|x| x.0).collect::<Vec<_>>())
        }
        o => panic!("unknown operation {}", o),
    };
    let mut body = base(&op.o, &args, &r);
    body.push_str(&extra);
    if mode.own {
        let d: Vec<i64> = take_drops().into_iter().map(i64::from).collect();
        let vis = held(slots, &touched, mode);
        if mode.boom {
            body.push_str(&format!(",\"top\":{}", last_id()));
        }
        body.push_str(&format!(
            ",\"gi\":{},\"rt\":{},\"dr\":{},\"vis\":{}",
            js(&given),
            js(&ret),
            js(&d),
            vis
        ));
    } else {
        let _ = take_drops();
    }
    Some(body)
}

pub fn gen(rng: &mut Rng, profile: &str, n: usize, size: i64, slots: i64) -> Vec<Op> {
    let mut v: Vec<Op> = Vec::new();
    let mut val = 100;
    // approximate lengths, only to steer positions and growth
    let mut len = vec![0i64; slots as usize + 1];
    let misuse = profile == "misuse";
    if profile == "tall" {
        // grown in one direction each, so that trees without luck become chains
        for s in 1..=slots {
            let way = rng.below(5);
            for i in 0..rng.range(2, size) {
                val += 1;
                v.push(match (way, i % 2) {
                    (0, _) | (4, 0) => Op::new("pushf", &[s, val]),
                    (1, _) | (4, _) => Op::new("pushb", &[s, val]),
                    (2, _) => Op::new("ins", &[s, i / 2, val]),
                    _ => Op::new("ins", &[s, rng.range(0, i), val]),
                });
                len[s as usize] += 1;
            }
            v.push(Op::new("sweep", &[s]));
        }
    }
    let n = n + v.len();
    while v.len() < n {
        let s = rng.range(1, slots);
        let l = len[s as usize];
        val += 1;
        let x = rng.below(100);
        let grow = if l < size { 58 } else { 20 };
        let any = |rng: &mut Rng| {
            if misuse {
                rng.range(0, l + 2)
            } else {
                match rng.below(6) {
                    0 => 0,
                    1 => l.max(1) - 1,
                    2 => l,
                    _ => rng.range(0, l.max(1)),
                }
            }
        };
        if x < 55 {
            if rng.below(100) < grow {
                let refused;
                match rng.below(4) {
                    0 => {
                        v.push(Op::new("pushf", &[s, val]));
                        refused = false;
                    }
                    1 => {
                        v.push(Op::new("pushb", &[s, val]));
                        refused = false;
                    }
                    _ => {
                        let i = any(rng);
                        v.push(Op::new("ins", &[s, i, val]));
                        refused = misuse && i > l;
                    }
                }
                if !refused {
                    len[s as usize] += 1;
                }
            } else {
                let i = any(rng);
                let op = match rng.below(4) {
                    0 => Op::new("popf", &[s]),
                    1 => Op::new("popb", &[s]),
                    _ => Op::new("rem", &[s, i]),
                };
                let refused = if op.o == "rem" { misuse && i >= l } else { l == 0 };
                if !refused && l > 0 {
                    len[s as usize] -= 1;
                }
                v.push(op);
            }
        } else if x < 60 {
            v.push(Op::new("set", &[s, any(rng), val]));
        } else if x < 63 {
            v.push(Op::new("idx", &[s, any(rng)]));
        } else if x < 66 {
            v.push(Op::new("idxset", &[s, any(rng), val]));
        } else if x < 69 {
            v.push(Op::new("get", &[s, any(rng) + 1]));
        } else if x < 71 {
            v.push(Op::new(rng.pick(&["len", "empty"]), &[s]));
        } else if x < 72 && rng.chance(1, 3) {
            v.push(Op::new(if profile == "own" && rng.chance(1, 2) { "drop" } else { "clear" }, &[s]));
            len[s as usize] = 0;
        } else if x < 82 {
            let kind = rng.range(0, 3);
            let k = if rng.chance(2, 3) { 100_000 } else { rng.range(0, l + 1) };
            v.push(Op::new("iter", &[s, kind, k, rng.range(1, 5) * 100_000]));
        } else if x < 84 && rng.chance(1, 2) {
            v.push(Op::new("iter", &[s, 4, rng.range(0, l + 2), 0]));
            len[s as usize] = 0;
        } else if x < 90 && slots > 1 {
            let p = rng.range(1, slots);
            let q = p % slots + 1;
            let (p, q) = if rng.chance(1, 2) { (p, q) } else { (q, p) };
            let d = rng.range(1, slots);
            v.push(Op::new("cat", &[d, p, q]));
            let t = len[p as usize] + len[q as usize];
            len[p as usize] = 0;
            len[q as usize] = 0;
            len[d as usize] = t;
        } else {
            v.push(Op::new("sweep", &[s]));
        }
    }
    for s in 1..=slots {
        v.push(Op::new("sweep", &[s]));
        v.push(Op::new("iter", &[s, 4, 100_000, 0]));
        v.push(Op::new("ins", &[s, 0, 7]));
        v.push(Op::new("sweep", &[s]));
    }
    v
}
