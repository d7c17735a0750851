//! Arenas. Handles are opaque, so the recorder names slots by first appearance (handle equality).
use crate::util::*;
use extended_collections::arena::{Entry, TypedArena};

#[derive(Clone, Copy)]
pub struct Mode {
    pub own: bool,
    pub misuse: bool,
    pub chunk: i64,
}

struct Names(Vec<Entry>);
impl Names {
    fn of(&mut self, e: Entry) -> i64 {
        match self.0.iter().position(|x| *x == e) {
            Some(i) => i as i64 + 1,
            None => {
                self.0.push(e);
                self.0.len() as i64
            }
        }
    }
}

fn opt1(x: Option<i64>) -> String {
    match x {
        Some(a) => js(&[a]),
        None => "[]".to_string(),
    }
}

pub fn run(out: &mut Out, im: &str, id: &str, script: &[Op], mode: Mode) {
    reset_ids();
    out.begin(im, id, &format!(",\"chunk\":{}", mode.chunk));
    let mut ar: Option<TypedArena<V>> = Some(TypedArena::new(mode.chunk as usize));
    // handles the arena under test may never have issued
    let mut foreign: Vec<Entry> = vec![];
    for c in &[1usize, 3, 40] {
        let mut f: TypedArena<u8> = TypedArena::new(*c);
        for _ in 0..40 {
            foreign.push(f.allocate(0));
        }
    }
    let mut names = Names(vec![]);
    let mut stopped = false;
    for op in script {
        out.intent(&op.o, &op.a);
        match guarded(|| step(&mut ar, &mut names, &foreign, op, mode)) {
            Ok(Some(b)) => out.ev(&b),
            Ok(None) => {}
            Err(()) => {
                let _ = take_drops();
                let mut a = op.a.clone();
                if a.len() > 0 && op.o != "alloc" {
                    a[0] = target(&names, &foreign, a[0]).1;
                }
                out.ev(&format!("{},\"p\":1", base(&op.o, &a, "[]")));
                if !mode.misuse {
                    stopped = true;
                    break;
                }
            }
        }
    }
    if !stopped && mode.own {
        if let Some(b) = step(&mut ar, &mut names, &foreign, &Op::new("drop", &[1]), mode) {
            out.ev(&b);
        }
    }
    if stopped {
        std::mem::forget(ar);
    }
    out.end();
}

/// A handle argument: positive = the slot named so, zero or negative = a foreign handle.
fn target(names: &Names, foreign: &[Entry], x: i64) -> (Entry, i64) {
    if x > 0 && names.0.len() > 0 {
        let i = (x - 1) as usize % names.0.len();
        (names.0[i], i as i64 + 1)
    } else {
        let e = foreign[(-x).max(0) as usize % foreign.len()];
        // a foreign handle may coincide with an issued one
        (e, names.0.iter().position(|y| *y == e).map_or(0, |i| i as i64 + 1))
    }
}

fn step(
    ar: &mut Option<TypedArena<V>>,
    names: &mut Names,
    foreign: &[Entry],
    op: &Op,
    mode: Mode,
) -> Option<String> {
    let mut args = op.a.clone();
    let mut given = vec![];
    let mut ret = vec![];
    let mut extra = String::new();
    let m = ar.as_mut().unwrap();
    let r = match op.o.as_str() {
        "alloc" => {
            let v = V::new(op.a[0]);
            given.push(i64::from(v.id));
            let e = track(|| m.allocate(v));
            js(&[names.of(e)])
        }
        "free" => {
            let (e, i) = target(names, foreign, op.a[0]);
            args[0] = i;
            if !mode.misuse && m.get(&e).is_none() {
                return None;
            }
            let v = track(|| m.free(&e));
            ret.push(i64::from(v.id));
            js(&[v.v])
        }
        "get" => {
            let (e, i) = target(names, foreign, op.a[0]);
            args[0] = i;
            opt1(m.get(&e).map(|v| v.v))
        }
        "set" => {
            let (e, i) = target(names, foreign, op.a[0]);
            args[0] = i;
            opt1(m.get_mut(&e).map(|v| std::mem::replace(&mut v.v, op.a[1])))
        }
        "idx" => {
            let (e, i) = target(names, foreign, op.a[0]);
            args[0] = i;
            if !mode.misuse && m.get(&e).is_none() {
                return None;
            }
            js(&[m[e].v])
        }
        "idxset" => {
            let (e, i) = target(names, foreign, op.a[0]);
            args[0] = i;
            if !mode.misuse && m.get(&e).is_none() {
                return None;
            }
            js(&[std::mem::replace(&mut m[e].v, op.a[1])])
        }
        "sweep" => {
            let g: Vec<i64> = names.0.iter().map(|e| m.get(e).map_or(-1, |v| v.v)).collect();
            // foreign handles that coincide with no issued handle must read as absent
            let bad = foreign
                .iter()
                .filter(|e| !names.0.contains(e))
                .filter(|e| m.get(e).is_some() || m.get_mut(e).is_some())
                .count();
            extra = format!(",\"bad\":{}", bad);
            js(&g)
        }
        "drop" => {
            let m = ar.take().unwrap();
            track(|| drop(m));
            *ar = Some(TypedArena::new(mode.chunk as usize));
            names.0.clear();
            "[]".into()
        }
        o => panic!("unknown operation {}", o),
    };
    let own_args = if op.o == "sweep" || op.o == "drop" { vec![1] } else { args.clone() };
    let mut body = base(&op.o, &own_args, &r);
    body.push_str(&extra);
    if mode.own {
        let d: Vec<i64> = take_drops().into_iter().map(i64::from).collect();
        let m = ar.as_ref().unwrap();
        let ids: Vec<i64> = names.0.iter().filter_map(|e| m.get(e).map(|v| i64::from(v.id))).collect();
        // one container: ownership histories name it 1
        body = base(&op.o, &[1], &r);
        body.push_str(&format!(
            ",\"gi\":{},\"rt\":{},\"dr\":{},\"vis\":[{{\"s\":1,\"i\":{}}}]",
            js(&given),
            js(&ret),
            js(&d),
            js(&ids)
        ));
    } else {
        let _ = take_drops();
    }
    Some(body)
}

pub fn gen(rng: &mut Rng, profile: &str, n: usize, size: i64) -> Vec<Op> {
    let mut v = vec![];
    let mut val = 100;
    let mut live = 0i64;
    let mut phase = true;
    while v.len() < n {
        if rng.chance(1, 16) {
            phase = !phase;
        }
        val += 1;
        let x = rng.below(100);
        let any = |rng: &mut Rng| {
            if rng.chance(1, 8) {
                -rng.range(0, 119)
            } else {
                rng.range(1, size + 2)
            }
        };
        if x < 60 {
            if live < size && rng.below(100) < if phase { 75 } else { 30 } {
                v.push(Op::new("alloc", &[val]));
                live += 1;
            } else {
                v.push(Op::new("free", &[any(rng)]));
                live = (live - 1).max(0);
            }
        } else if x < 68 {
            v.push(Op::new("get", &[any(rng)]));
        } else if x < 74 {
            v.push(Op::new("set", &[any(rng), val]));
        } else if x < 78 {
            v.push(Op::new("idx", &[any(rng)]));
        } else if x < 82 {
            v.push(Op::new("idxset", &[any(rng), val]));
        } else if x < 83 && rng.chance(1, 4) && profile != "misuse" {
            v.push(Op::new("drop", &[1]));
            live = 0;
        } else {
            v.push(Op::new("sweep", &[1]));
        }
    }
    v.push(Op::new("sweep", &[1]));
    v
}
