#[macro_use]
mod omap;
mod arena;
mod bp;
mod list;
mod lsm;
mod radix;
mod shim;
mod cost;
mod stack;
mod util;
use std::collections::HashMap;
use util::*;

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn i(&self, k: &str, d: i64) -> i64 {
        self.0.get(k).map_or(d, |x| x.parse().unwrap())
    }
}

fn scripts(path: &str) -> Vec<Vec<Op>> {
    let text = std::fs::read_to_string(path).unwrap();
    text.lines().map(parse_script).collect()
}

fn omap_cmd(a: &Args) {
    use omap::run;
    let im = a.s("im", "avlmap");
    if a.i("boom", 0) == 1 {
        util::poison();
    }
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let kmax = a.i("kmax", 8);
    let mode = omap::Mode {
        chosen: a.i("chosen", 0),
        own: a.i("own", 0) == 1,
        boom: a.i("boom", 0) == 1,
        kmax,
        misuse: a.i("misuse", 0) == 1,
    };
    let sp = a.s("script", "");
    if sp != "" {
        for (i, s) in scripts(&sp).iter().enumerate() {
            let id = format!("script{}", i);
            dispatch_omap!(im.as_str(), run, &mut out, &im, &id, s, mode);
        }
    } else {
        let seed = a.i("seed", 1) as u64;
        let profile = a.s("profile", "map");
        let slots = a.i("slots", 1);
        for i in 0..a.i("runs", 10) {
            let mut rng = Rng::new(seed * 1_000_003 + i as u64);
            let n = a.i("n", 100) as usize;
            let km = if kmax > 4 { rng.range(4, kmax) } else { kmax };
            let s = omap::gen(&mut rng, &profile, n, km, slots);
            let s = if mode.boom { util::with_booms(&mut rng, s) } else { s };
            let id = format!("seed{}-{}-{}", seed, profile, i);
            let mode = omap::Mode { kmax: km, ..mode };
            dispatch_omap!(im.as_str(), run, &mut out, &im, &id, &s, mode);
        }
    }
    out.finish();
}

fn list_cmd(a: &Args) {
    let im = a.s("im", "treaplist");
    if a.i("boom", 0) == 1 {
        util::poison();
    }
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let mode = list::Mode {
        chosen: a.i("chosen", 0),
        own: a.i("own", 0) == 1,
        boom: a.i("boom", 0) == 1,
        misuse: a.i("misuse", 0) == 1,
    };
    let sp = a.s("script", "");
    let mut todo: Vec<(String, Vec<Op>)> = vec![];
    if sp != "" {
        for (i, s) in scripts(&sp).into_iter().enumerate() {
            todo.push((format!("script{}", i), s));
        }
    } else {
        let seed = a.i("seed", 1) as u64;
        let profile = a.s("profile", "list");
        for i in 0..a.i("runs", 10) {
            let mut rng = Rng::new(seed * 1_000_003 + i as u64);
            let size = rng.range(3, a.i("size", 12).max(4));
            let s = list::gen(&mut rng, &profile, a.i("n", 100) as usize, size, a.i("slots", 2));
            let s = if mode.boom { util::with_booms(&mut rng, s) } else { s };
            todo.push((format!("seed{}-{}-{}", seed, profile, i), s));
        }
    }
    for (id, s) in &todo {
        match im.as_str() {
            "treaplist" => list::run::<extended_collections::treap::TreapList<V>>(&mut out, &im, id, s, mode),
            "skiplist" => list::run::<extended_collections::skiplist::SkipList<V>>(&mut out, &im, id, s, mode),
            x => panic!("unknown implementation {}", x),
        }
    }
    out.finish();
}

fn arena_cmd(a: &Args) {
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let mut mode = arena::Mode {
        own: a.i("own", 0) == 1,
        misuse: a.i("misuse", 0) == 1,
        chunk: a.i("chunk", 4),
    };
    let sp = a.s("script", "");
    if sp != "" {
        for (i, s) in scripts(&sp).iter().enumerate() {
            arena::run(&mut out, "arena", &format!("script{}", i), s, mode);
        }
    } else {
        let seed = a.i("seed", 1) as u64;
        for i in 0..a.i("runs", 10) {
            let mut rng = Rng::new(seed * 1_000_003 + i as u64);
            mode.chunk = rng.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 16, 64]);
            let size = rng.range(2, a.i("size", 12).max(3));
            let s = arena::gen(&mut rng, &a.s("profile", "arena"), a.i("n", 100) as usize, size);
            arena::run(&mut out, "arena", &format!("seed{}-{}", seed, i), &s, mode);
        }
    }
    out.finish();
}

fn radix_cmd(a: &Args) {
    let im = a.s("im", "radixmap");
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let mode = radix::Mode {
        own: a.i("own", 0) == 1,
        misuse: a.i("misuse", 0) == 1,
    };
    let sp = a.s("script", "");
    let mut todo: Vec<(String, Vec<radix::ROp>, Vec<radix::Key>)> = vec![];
    if sp != "" {
        for (i, s) in scripts(&sp).into_iter().enumerate() {
            let ops: Vec<radix::ROp> = s.iter().map(radix::from_op).collect();
            let mut probes: Vec<radix::Key> = vec![];
            for o in &ops {
                if !probes.contains(&o.k) {
                    probes.push(o.k.clone());
                }
            }
            todo.push((format!("script{}", i), ops, probes));
        }
    } else {
        let seed = a.i("seed", 1) as u64;
        let profile = a.s("profile", "map");
        for i in 0..a.i("runs", 10) {
            let mut rng = Rng::new(seed * 1_000_003 + i as u64);
            let keys = rng.range(2, a.i("keys", 12)) as usize;
            let (s, p) = radix::gen(&mut rng, &profile, a.i("n", 100) as usize, keys);
            todo.push((format!("seed{}-{}-{}", seed, profile, i), s, p));
        }
    }
    for (id, s, p) in &todo {
        match im.as_str() {
            "radixmap" => radix::run::<extended_collections::radix::RadixMap<V>>(&mut out, &im, id, s, p, mode),
            "radixset" => radix::run::<extended_collections::radix::RadixSet>(&mut out, &im, id, s, p, mode),
            x => panic!("unknown implementation {}", x),
        }
    }
    out.finish();
}

fn bp_cmd(a: &Args) {
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let mode = bp::Mode {
        kmax: a.i("kmax", 12),
        misuse: a.i("misuse", 0) == 1,
        ld: a.i("ld", 3),
        id: a.i("idg", 3),
    };
    let im = a.s("im", "num");
    let sp = a.s("script", "");
    let mut todo: Vec<(String, Vec<Op>, bp::Mode)> = vec![];
    if sp != "" {
        for (i, s) in scripts(&sp).into_iter().enumerate() {
            todo.push((format!("script{}", i), s, mode));
        }
    } else {
        let seed = a.i("seed", 1) as u64;
        let profile = a.s("profile", "map");
        for i in 0..a.i("runs", 10) {
            let mut rng = Rng::new(seed * 1_000_003 + i as u64);
            let mut md = mode;
            if a.i("vary", 0) == 1 {
                md.ld = rng.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 11, 16]);
                md.id = rng.pick(&[2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 11, 16]);
            }
            let s = bp::gen(&mut rng, &profile, a.i("n", 100) as usize, md.kmax);
            todo.push((format!("seed{}-{}-{}", seed, profile, i), s, md));
        }
    }
    for (id, s, md) in &todo {
        match im.as_str() {
            "num" => bp::run::<bp::Num>(&mut out, &im, id, s, *md),
            "text" => bp::run::<bp::Text>(&mut out, &im, id, s, *md),
            "niche" => bp::run::<bp::Niche>(&mut out, &im, id, s, *md),
            "blob" => bp::run::<bp::Blob>(&mut out, &im, id, s, *md),
            "loose" => bp::run::<bp::Loose>(&mut out, &im, id, s, *md),
            x => panic!("unknown implementation {}", x),
        }
    }
    out.finish();
}

macro_rules! lsm_dispatch {
    ($im:expr, $f:ident, $($a:expr),*) => {
        match $im {
            "st-num" => lsm::$f::<lsm::Num, SizeTieredStrategy<u32, u64>>($($a),*),
            "st-text" => lsm::$f::<lsm::Text, SizeTieredStrategy<String, Vec<u8>>>($($a),*),
            "st-pair" => lsm::$f::<lsm::Pair, SizeTieredStrategy<(i8, i32), Option<i64>>>($($a),*),
            "st-blob" => lsm::$f::<lsm::Blob, SizeTieredStrategy<u32, Vec<u8>>>($($a),*),
            "lv-blob" => lsm::$f::<lsm::Blob, LeveledStrategy<u32, Vec<u8>>>($($a),*),
            "lv-num" => lsm::$f::<lsm::Num, LeveledStrategy<u32, u64>>($($a),*),
            "lv-text" => lsm::$f::<lsm::Text, LeveledStrategy<String, Vec<u8>>>($($a),*),
            "lv-pair" => lsm::$f::<lsm::Pair, LeveledStrategy<(i8, i32), Option<i64>>>($($a),*),
            x => panic!("unknown implementation {}", x),
        }
    };
}

fn lsm_cfg(a: &Args) -> lsm::Cfg {
    lsm::Cfg {
        mem: a.i("mem", 60) as u64,
        mc: a.i("mc", 2) as usize,
        min: a.i("min", 0) as u64,
        low: a.i("low", 50) as f64 / 100.0,
        high: a.i("high", 150) as f64 / 100.0,
        maxs: a.i("maxs", 100) as u64,
        mi: a.i("mi", 1) as usize,
        gf: a.i("gf", 2) as u64,
        kmax: a.i("kmax", 6),
    }
}

fn lsm_cmd(a: &Args) {
    use extended_collections::lsm_tree::compaction::{LeveledStrategy, SizeTieredStrategy};
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let im = a.s("im", "st-num");
    let lv = if im.starts_with("lv") { 1 } else { 0 };
    let mut todo: Vec<(String, Vec<Op>, lsm::Cfg, Rng)> = vec![];
    let sp = a.s("script", "");
    let seed = a.i("seed", 1) as u64;
    let profile = a.s("profile", "map");
    if sp != "" {
        for (i, s) in scripts(&sp).into_iter().enumerate() {
            todo.push((format!("script{}", i), s, lsm_cfg(a), Rng::new(seed + i as u64)));
        }
    } else {
        for i in 0..a.i("runs", 10) {
            let mut rng = Rng::new(seed * 1_000_003 + i as u64);
            let cfg = lsm::gen_cfg(&mut rng, &profile, a.i("kmax", 8));
            let s = lsm::gen(&mut rng, &profile, a.i("n", 100) as usize, cfg.kmax);
            todo.push((format!("seed{}-{}-{}", seed, profile, i), s, cfg, rng));
        }
    }
    let jit = a.i("jit", 0) as u64;
    for (id, s, cfg, mut rng) in todo {
        if a.i("kill", 0) == 0 {
            lsm_dispatch!(im.as_str(), run, &mut out, &im, &id, &s, cfg, lv, jit);
            continue;
        }
        // every call of the script is a kill point, up to `points` of them
        let spath = std::env::temp_dir().join(format!("script-{}", id));
        let text: Vec<String> = s
            .iter()
            .map(|o| o.a.iter().fold(o.o.clone(), |s, x| format!("{} {}", s, x)))
            .collect();
        std::fs::write(&spath, text.join(";")).unwrap();
        let mut extra = lsm::cfg_args(&cfg);
        extra.push(format!("jit={}", jit));
        let total = lsm::crash_run(&mut out, &im, &format!("{}-k0", id), &s, cfg, lv, &[], &extra, &spath);
        let points = a.i("points", 1_000_000) as u64;
        let step = (total / points).max(1);
        let mut k = 1 + rng.below(step);
        while k <= total + 3 {
            let mut kills = vec![k];
            while rng.chance(1, 3) {
                kills.push(1 + rng.below(total));
            }
            lsm::crash_run(&mut out, &im, &format!("{}-k{}", id, k), &s, cfg, lv, &kills, &extra, &spath);
            k += step;
        }
        let _ = std::fs::remove_file(&spath);
    }
    out.finish();
}

fn lsmchild_cmd(a: &Args) {
    use extended_collections::lsm_tree::compaction::{LeveledStrategy, SizeTieredStrategy};
    let s = scripts(&a.s("script", ""));
    let dir = std::path::PathBuf::from(a.s("dir", ""));
    let log = std::path::PathBuf::from(a.s("log", ""));
    let im = a.s("im", "");
    lsm_dispatch!(
        im.as_str(),
        child,
        &dir,
        &log,
        &s[0],
        a.i("from", 0) as usize,
        a.i("fresh", 1) == 1,
        a.i("kill", 0) as u64,
        lsm_cfg(a),
        a.i("jit", 0) as u64
    );
}

fn cost_cmd(a: &Args) {
    use cost::{map_history, map_steps};
    let im = a.s("im", "avlmap");
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let (seed, size) = (a.i("seed", 1) as u64, a.i("size", 60));
    let steps = a.i("steps", 0) == 1;
    for i in 0..a.i("runs", 15) {
        match im.as_str() {
            "treaplist" => cost::list_steps::<extended_collections::treap::TreapList<util::V>>(&mut out, &im, seed, i, size),
            "skiplist" => cost::list_steps::<extended_collections::skiplist::SkipList<util::V>>(&mut out, &im, seed, i, size),
            _ if steps => dispatch_omap!(im.as_str(), map_steps, &mut out, &im, seed, i, size),
            _ => dispatch_omap!(im.as_str(), map_history, &mut out, &im, seed, i, size),
        }
    }
    out.finish();
}

fn stack_cmd(a: &Args) {
    util::poison();
    let mut out = Out::new(&a.s("out", "trace.ndjson"));
    let seed = a.i("seed", 1) as u64;
    for i in 0..a.i("runs", 10) {
        let mut rng = Rng::new(seed * 1_000_003 + i as u64);
        let id = format!("seed{}-{}", seed, i);
        if a.s("profile", "free") == "free" {
            let nt = rng.range(2, a.i("threads", 4)) as usize;
            stack::free(&mut out, &mut rng, &id, nt, a.i("n", 20) as usize);
        } else {
            stack::stepped(&mut out, &mut rng, &id, a.i("budget", 200));
        }
    }
    let p = a.s("runsfile", "");
    if p != "" {
        std::fs::write(p, format!("{}", stack::RUNS.load(std::sync::atomic::Ordering::SeqCst))).unwrap();
    }
    out.finish();
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    let cmd = argv[1].clone();
    let mut m = HashMap::new();
    for x in &argv[2..] {
        let mut p = x.splitn(2, '=');
        m.insert(p.next().unwrap().to_string(), p.next().unwrap_or("1").to_string());
    }
    let a = Args(m);
    std::panic::set_hook(Box::new(|_| {}));
    match cmd.as_str() {
        "omap" => omap_cmd(&a),
        "list" => list_cmd(&a),
        "arena" => arena_cmd(&a),
        "bp" => bp_cmd(&a),
        "radix" => radix_cmd(&a),
        "lsm" => lsm_cmd(&a),
        "stack" => stack_cmd(&a),
        "cost" => cost_cmd(&a),
        "lsmchild" => lsmchild_cmd(&a),
        c => panic!("unknown command {}", c),
    }
}
