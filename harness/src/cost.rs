//! What searches cost: comparisons of instrumented keys for ordered collections, machine instructions
//! for positional ones.
use crate::list::Lst;
use crate::omap::OMap;
use crate::stack::count_steps;
use crate::util::*;
use std::collections::BTreeSet;

fn counted<R, F: FnOnce() -> R>(f: F) -> i64 {
    let a = cmps();
    let _r = f();
    (cmps() - a) as i64
}
const LOOKUPS: [&str; 4] = ["has", "get", "flo", "cei"];
fn lookup<M: OMap>(m: &M, what: usize, k: i64) -> i64 {
    match what {
        0 => counted(|| m.has(k, false)),
        1 if M::SET => 0,
        1 => counted(|| m.get(k, false)),
        2 => counted(|| m.flo(k, false)),
        _ => counted(|| m.cei(k, false)),
    }
}
/// Comparisons one visited node costs, per kind of lookup: measured on collections of one.
fn per_node<M: OMap>() -> Vec<i64> {
    let mut per = vec![i64::max_value(); 4];
    for _ in 0..12 {
        let mut m = M::make(false);
        m.ins(K::new(5), V::new(0));
        for (w, p) in per.iter_mut().enumerate() {
            *p = (*p).min([4, 5, 6].iter().map(|k| lookup(&m, w, *k)).max().unwrap().max(1));
        }
    }
    per
}

struct Hist<'a, M: OMap> {
    m: M,
    keys: BTreeSet<i64>,
    out: &'a mut Out,
    // since the start: restructuring calls, their comparisons, largest size
    ops: i64,
    work: i64,
    peak: i64,
    // since the last probe
    ops1: i64,
    work1: i64,
    peak1: i64,
}
impl<'a, M: OMap> Hist<'a, M> {
    fn spent(&mut self, c: i64) {
        self.ops += 1;
        self.work += c;
        self.ops1 += 1;
        self.work1 += c;
        self.peak = self.peak.max(self.keys.len() as i64);
        self.peak1 = self.peak1.max(self.keys.len() as i64);
    }
    fn ins(&mut self, k: i64) {
        let (x, v) = (K::new(k), V::new(k));
        let m = &mut self.m;
        let c = counted(|| m.ins(x, v));
        self.keys.insert(k);
        self.spent(c);
    }
    fn rem(&mut self, k: i64) {
        let m = &mut self.m;
        let c = counted(|| m.rem(k, false));
        self.spent(c);
        self.keys.remove(&k);
    }
    fn touch(&mut self, k: i64) {
        if M::SET {
            return;
        }
        let m = &mut self.m;
        let c = counted(|| m.set(k, 1, false));
        self.spent(c);
    }
    fn probe(&mut self, rng: &mut Rng, all: bool) {
        let lo = self.keys.iter().next().cloned().unwrap_or(0) - 1;
        let ks: Vec<i64> = if all {
            let mut v: Vec<i64> = self.keys.iter().flat_map(|k| vec![k - 1, *k, k + 1]).collect();
            v.dedup();
            v
        } else {
            let v: Vec<i64> = self.keys.iter().cloned().collect();
            (0..300).map(|_| if v.is_empty() { 0 } else { rng.pick(&v) + rng.range(-1, 1) }).chain(vec![lo]).collect()
        };
        for w in 0..4 {
            let (mut mx, mut sm) = (0, 0);
            for k in &ks {
                let c = lookup(&self.m, w, *k);
                mx = mx.max(c);
                sm += c;
            }
            let b = format!("\"o\":\"probe\",\"w\":{},\"what\":\"{}\",\"n\":{},\"ct\":{},\"mx\":{},\"sm\":{}", w + 1, LOOKUPS[w], self.keys.len(), ks.len(), mx, clamp(sm));
            self.out.ev(&b);
        }
        let b = format!(
            "\"o\":\"work\",\"w\":1,\"n\":{},\"ops\":{},\"sm\":{},\"n1\":{},\"ops1\":{},\"sm1\":{}",
            self.peak,
            self.ops,
            clamp(self.work),
            self.peak1,
            self.ops1,
            clamp(self.work1)
        );
        self.out.ev(&b);
        self.ops1 = 0;
        self.work1 = 0;
        self.peak1 = self.keys.len() as i64;
    }
}

pub fn map_history<M: OMap>(out: &mut Out, im: &str, seed: u64, i: i64, size: i64) {
    let mut rng = Rng::new(seed * 1_000_003 + i as u64);
    let families = ["asc", "desc", "zig", "rand", "churn", "queue", "stack", "thin", "saw", "dup", "scan", "cut", "fold", "mid", "few"];
    let fam = families[i as usize % families.len()];
    if (fam == "cut" || fam == "fold") && !M::ALG {
        return;
    }
    let n = size / 2 + rng.below(size as u64 / 2 + 1) as i64;
    let all = n <= 80;
    out.begin(im, &format!("cost-{}-{}-{}-{}", fam, n, seed, i), &format!(",\"per\":{}", js(&per_node::<M>())));
    let mut h = Hist { m: M::make(false), keys: BTreeSet::new(), out, ops: 0, work: 0, peak: 0, ops1: 0, work1: 0, peak1: 0 };
    let every = (n / 6).max(1);
    let r = &mut rng;
    match fam {
        "asc" | "desc" | "zig" | "mid" | "rand" | "scan" | "dup" | "cut" => {
            for j in 0..n {
                let k = match fam {
                    "desc" => 2 * (n - j),
                    "zig" => if j % 2 == 0 { 2 * j } else { 4 * n - 2 * j },
                    "mid" => if j % 2 == 0 { j } else { 4 * n - j },
                    "rand" => 2 * r.below(4 * n as u64) as i64,
                    "dup" => 2 * r.below(n as u64 / 3 + 1) as i64,
                    _ => 2 * j,
                };
                h.ins(k);
                if all || j % every == every - 1 {
                    h.probe(r, all);
                }
            }
            if fam == "scan" {
                for _ in 0..6 {
                    let ks: Vec<i64> = h.keys.iter().cloned().collect();
                    for k in ks {
                        h.touch(k);
                    }
                    h.probe(r, all);
                }
                let ks: Vec<i64> = h.keys.iter().cloned().collect();
                for k in ks {
                    h.ins(k);
                }
                h.probe(r, all);
            }
            if fam == "cut" {
                // pieces of the whole, put together again
                for _ in 0..12 {
                    let p = 2 * r.below(n as u64 + 1) as i64 + r.range(-1, 0);
                    if M::SPLIT {
                        let right = h.m.split(p, true);
                        let left = std::mem::replace(&mut h.m, M::make(false));
                        h.m = if r.chance(1, 2) { M::uni(left, right, false) } else { M::sym(right, left) };
                    } else {
                        let mut odd = M::make(false);
                        for k in h.keys.iter().filter(|k| **k % 4 == 0) {
                            odd.ins(K::new(*k), V::new(1));
                        }
                        let left = std::mem::replace(&mut h.m, M::make(false));
                        h.m = M::uni(left, odd, true);
                    }
                    h.probe(r, all);
                }
            }
            // leave a part
            let from = r.below(3);
            let mut ks: Vec<i64> = h.keys.iter().cloned().collect();
            if from == 1 {
                ks.reverse();
            } else if from == 2 {
                r.shuffle(&mut ks);
            }
            let keep = ks.len() / 5;
            for (j, k) in ks.iter().enumerate().take(ks.len() - keep) {
                h.rem(*k);
                if all || j as i64 % every == every - 1 {
                    h.probe(r, all);
                }
            }
        }
        "fold" => {
            // many small collections joined one by one
            let order = r.below(3);
            for j in 0..n {
                let k = match order {
                    0 => 2 * j,
                    1 => 2 * (n - j),
                    _ => 2 * r.below(4 * n as u64) as i64,
                };
                let mut one = M::make(false);
                one.ins(K::new(k), V::new(k));
                let acc = std::mem::replace(&mut h.m, M::make(false));
                h.m = if r.chance(1, 2) { M::uni(acc, one, false) } else { M::uni(one, acc, false) };
                h.keys.insert(k);
                if j % every == every - 1 {
                    h.probe(r, all);
                }
            }
        }
        _ => {
            let (mut front, mut back) = (0i64, 0i64);
            let steps = n * 3;
            for j in 0..steps {
                let x = r.below(100);
                match fam {
                    "queue" => {
                        back += 2;
                        h.ins(back);
                        if h.keys.len() as i64 > n / 2 {
                            front = *h.keys.iter().next().unwrap();
                            h.rem(front);
                        }
                    }
                    "stack" => {
                        if (j / n) % 2 == 0 || h.keys.is_empty() {
                            back += 2;
                            h.ins(back);
                        } else {
                            let k = *h.keys.iter().next_back().unwrap();
                            h.rem(k);
                        }
                    }
                    "thin" => {
                        if j < n {
                            h.ins(2 * j);
                        } else {
                            let k = 2 * ((j * 7919) % n);
                            if x < 70 { h.rem(k) } else { h.ins(k) }
                        }
                    }
                    "saw" => {
                        if (j / (n / 4 + 1)) % 3 != 2 {
                            front -= 2;
                            h.ins(front);
                        } else {
                            let k = *h.keys.iter().next().unwrap_or(&0);
                            h.rem(k);
                        }
                    }
                    "few" => {
                        let k = 2 * r.below(9) as i64;
                        if x < 55 { h.ins(k) } else { h.rem(k) }
                    }
                    _ => {
                        let k = 2 * r.below(n as u64) as i64;
                        if x < 55 { h.ins(k) } else if x < 90 { h.rem(k) } else { h.touch(k) }
                    }
                }
                let often = all && (h.keys.len() <= 24 || j % 5 == 0);
                if often || j % (every * 2) == 0 {
                    h.probe(r, all);
                }
            }
        }
    }
    h.probe(r, all);
    drop(h.m);
    out.end();
}

/// Instructions of updates at a small and a large size.
pub fn map_steps<M: OMap>(out: &mut Out, im: &str, seed: u64, i: i64, size: i64) {
    let mut rng = Rng::new(seed * 1_000_003 + i as u64);
    let fam = ["asc", "rand", "desc"][i as usize % 3];
    out.begin(im, &format!("steps-{}-{}-{}", fam, seed, i), ",\"per\":[1,1,1,1]");
    let mut m = M::make(false);
    let mut keys: Vec<i64> = vec![];
    let mut base = [0i64; 3];
    for stop in &[64, size] {
        while (keys.len() as i64) < *stop {
            let j = keys.len() as i64;
            let k = match fam {
                "asc" => 4 * j,
                "desc" => -4 * j,
                _ => 4 * (rng.next() % (1 << 24)) as i64,
            };
            m.ins(K::new(k), V::new(0));
            keys.push(k);
        }
        let mut s = [0i64; 3];
        let ct = 40;
        for _ in 0..ct {
            let k = rng.pick(&keys) + 1;
            let (x, v) = (K::new(k), V::new(0));
            s[0] += count_steps(|| m.ins(x, v)).1;
            s[1] += count_steps(|| m.has(k, false)).1;
            s[2] += count_steps(|| m.rem(k, false)).1;
        }
        for w in 0..3 {
            out.ev(&format!(
                "\"o\":\"steps\",\"w\":{},\"n\":{},\"ct\":{},\"sm\":{},\"n0\":64,\"sm0\":{}",
                w + 1,
                stop,
                ct,
                clamp(s[w]),
                clamp(if *stop == 64 { s[w] } else { base[w] })
            ));
        }
        base = s;
    }
    drop(m);
    out.end();
}

pub fn list_steps<M: Lst>(out: &mut Out, im: &str, seed: u64, i: i64, size: i64) {
    let mut rng = Rng::new(seed * 1_000_003 + i as u64);
    let fams = ["back", "front", "rand", "fold", "queue", "halves", "middle"];
    let fam = fams[i as usize % fams.len()];
    out.begin(im, &format!("steps-{}-{}-{}", fam, seed, i), ",\"per\":[1,1,1,1]");
    let mut m = M::make(false);
    let mut base = [0i64; 4];
    for stop in &[64i64, size] {
        while (m.count() as i64) < *stop {
            let n = m.count();
            match fam {
                "back" => m.pushb(V::new(1)),
                "front" => m.pushf(V::new(1)),
                "rand" => m.ins(rng.below(n as u64 + 1) as usize, V::new(1)),
                "middle" => m.ins(n / 2, V::new(1)),
                "fold" => {
                    let mut one = M::make(false);
                    one.pushb(V::new(1));
                    let acc = std::mem::replace(&mut m, M::make(false));
                    m = if seed % 2 == 0 { M::cat(acc, one) } else { M::cat(one, acc) };
                }
                "halves" => {
                    if n < 32 || n as i64 * 2 > *stop {
                        m.pushb(V::new(1));
                    } else {
                        let mut other = M::make(false);
                        for _ in 0..n {
                            other.pushf(V::new(1));
                        }
                        let acc = std::mem::replace(&mut m, M::make(false));
                        m = M::cat(acc, other);
                    }
                }
                _ => {
                    m.pushb(V::new(1));
                    m.pushb(V::new(1));
                    m.popf();
                }
            }
        }
        let mut s = [0i64; 4];
        let ct = 40;
        for _ in 0..ct {
            let n = m.count() as u64;
            let p = rng.below(n) as usize;
            s[0] += count_steps(|| m.at(p)).1;
            s[1] += count_steps(|| m.set(p, 3)).1;
            let v = V::new(1);
            s[2] += count_steps(|| m.ins(p, v)).1;
            let p = rng.below(n) as usize;
            s[3] += count_steps(|| m.rem(p)).1;
        }
        for w in 0..4 {
            out.ev(&format!(
                "\"o\":\"steps\",\"w\":{},\"n\":{},\"ct\":{},\"sm\":{},\"n0\":64,\"sm0\":{}",
                w + 1,
                stop,
                ct,
                clamp(s[w]),
                clamp(if *stop == 64 { s[w] } else { base[w] })
            ));
        }
        base = s;
    }
    drop(m);
    out.end();
}
