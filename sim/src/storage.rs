//! Storage scenarios S01-S04 and S09: programs of saves, loads, restarts, kills and power failures over a few
//! paths and objects, run by one simulated process at a time.
use crate::bridge::{load, odiff, OFp, Obj, Out};
use crate::json::V;
use crate::user::give_past;
use crate::model::{gen_net, gen_shape, Scale};
use crate::rng::Rng;
use crate::world::*;
use std::collections::BTreeMap;

pub const PATHS: &[&str] = &[
    "net.bin",
    "/sim/work/net.bin",
    "sub/net.bin",
    "./sub/../weights.bin",
    "mödel v1 (copy).bin",
    "LONG",
    "link.bin",
    "noext",
    ".hidden",
    "/tmp/net.bin",
    "net.tmp",
    "a.b.c.bin",
    "dangling.bin",
    "sub//deep.bin",
    "backup~",
    "/sim/other/t.bin",
    "linkdir/x.bin",
];
pub fn path_of(i: u64) -> String {
    match PATHS[i as usize % PATHS.len()] {
        "LONG" => format!("{}.bin", "n".repeat(251)),
        s => s.to_string(),
    }
}
/// directories, links and bystander files
pub fn furnish(bystanders: bool) {
    let d = &mut w().disk;
    d.mknode("/sim/work/link.bin", Kind::Symlink("sub/real.bin".into()));
    d.mknode("/sim/work/dangling.bin", Kind::Symlink("nowhere.bin".into()));
    d.mknode("/sim/work/linkdir", Kind::Symlink("/sim/other".into()));
    if bystanders {
        for (i, n) in [
            "net.bin.tmp", "net.bin~", ".net.bin.tmp", "net.bin.bak", "net.bak", "net.bin.new", "tmp", "other.bin",
            ".net.bin.swp", "sub/other.bin", "net.bin.old", "net.bin.part", "net",
        ]
        .iter()
        .enumerate()
        {
            d.put_file(&format!("/sim/work/{}", n), format!("bystander {}", i).as_bytes());
        }
    }
}

// ---------------------------------------------------------------- plan pieces

pub fn gen_obj(r: &mut Rng, wild: bool) -> V {
    if r.chance(300) {
        let (lo, hi) = match r.below(40) {
            0..=3 => (1, 24),
            4 => (40, 64),
            5..=6 => (0, 2),
            _ => (1, 5),
        };
        V::obj()
            .set("k", "ten")
            .set(
                "sh",
                if r.chance(40) {
                    gen_shape(r, Scale::Long, false).iter().map(|&x| x as i64).collect::<Vec<_>>()
                } else {
                    vec![r.range(lo, hi), r.range(lo, hi), r.range(lo.min(12), if hi > 24 { 20 } else { 3 })]
                },
            )
            .set("style", if wild { [0, 1, 2, 2][r.below(4) as usize] } else { r.range(0, 1) })
            .set("seed", r.seed())
    } else {
        let styles: &[i64] = if wild { &[0, 1, 1, 2] } else { &[0, 1] };
        let mut net = gen_net(r, styles, 3, 0);
        give_past(r, &mut net, false);
        V::obj()
            .set("k", "net")
            .set("net", net)
            .set("train", r.chance(400))
            .set("hist", if r.chance(300) { r.range(1, 3) } else { 0 })
    }
}
/// as gen_obj; now and then with nothing in it yet, or megabytes of it
fn gen_stored(r: &mut Rng, wild: bool) -> V {
    if r.below(1000) == 0 {
        return gen_vast(r, wild);
    }
    if r.chance(15) {
        return V::obj().set("k", "net").set("bare", true).set("train", r.chance(400));
    }
    gen_obj(r, wild)
}
fn gen_vast(r: &mut Rng, more: bool) -> V {
    let d = if more { 1 + r.below(3) as i64 } else { 1 };
    if r.chance(500) {
        let sh = vec![r.range(500, if more { 900 } else { 600 }), r.range(530, if more { 900 } else { 600 }), d];
        return V::obj().set("k", "ten").set("vast", true).set("sh", sh).set("style", 1).set("seed", r.seed());
    }
    let l = V::obj()
        .set("t", "fc")
        .set("name", "vast")
        .set("a", r.range(400, if more { 512 } else { 420 }))
        .set("style", 1)
        .set("seed", r.seed())
        .set("vast", true);
    let net = V::obj().set("in", vec![r.range(700, if more { 1024 } else { 720 }), 1, d]).set("layers", V::Arr(vec![l]));
    V::obj().set("k", "net").set("net", net).set("train", r.chance(400)).set("hist", 0).set("vast", true)
}
pub fn gen_soft(r: &mut Rng) -> V {
    let mut f = V::obj();
    if r.chance(600) {
        f.put("max_io", [1, 2, 3, 7, 16, 33, 100, 512, 4096][r.below(9) as usize]);
    }
    if r.chance(600) {
        let n = 1 + r.below(4);
        f.put("eintr", (0..n).map(|_| 1 + r.below(14)).collect::<Vec<u64>>());
    }
    f
}
fn nth(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=6 => 1 + r.below(9),
        7..=8 => 1 + r.below(20),
        _ => 1 + r.below(60),
    }
}
pub fn gen_hard(r: &mut Rng) -> V {
    let mut f = if r.chance(300) { gen_soft(r) } else { V::obj() };
    let n = if r.chance(250) { 2 } else { 1 };
    let hs: Vec<V> = (0..n)
        .map(|_| V::Arr(vec![V::from(nth(r)), V::from(r.below(8)), V::from(r.chance(250))]))
        .collect();
    f.put("hard", V::Arr(hs));
    f
}
pub fn gen_crash(r: &mut Rng) -> V {
    let mut f = if r.chance(400) { gen_soft(r) } else { V::obj() };
    f.put("crash", vec![nth(r), [0, 0, 128, 255, r.below(256)][r.below(5) as usize]]);
    f
}
pub fn arm(f: &V) {
    let io = w().io();
    *io = Io::default();
    // no millions of calls for one vast object
    let unit = if f.b("vast") { 4096 } else { 1 };
    io.max_io = f.u("max_io") as usize * unit;
    io.eintr = f.get("eintr").arr().iter().map(|v| v.int() as u32).collect();
    io.hard = f
        .get("hard")
        .arr()
        .iter()
        .map(|h| (h.at(0).int() as u32, h.at(1).int() as u32, h.at(2).int() != 0))
        .collect();
    if f.has("crash") {
        io.crash = Some((f.get("crash").at(0).int() as u32, f.get("crash").at(1).int().clamp(0, 256) as u32));
    }
    let c = w().cur;
    w().tasks[c].calls = 0;
}
pub fn disarm() -> Io {
    let io = w().io().clone();
    *w().io() = Io::default();
    io
}
pub fn crashed() -> bool {
    let c = w().cur;
    w().tasks[c].crashed
}

fn gen_guarded(r: &mut Rng, nobj: u64) -> V {
    V::obj()
        .set("op", "guarded")
        .set("o", r.below(nobj))
        .set("o2", r.below(nobj))
        .set("mode", MODES[r.below(MODES.len() as u64) as usize])
        .set("dir", if r.chance(300) { 0o555 } else { 0o755 })
        .set("link", r.chance(200))
        .set("save", r.chance(600))
        .set("f", if r.chance(300) { gen_hard(r) } else { V::obj() })
}
const MODES: &[i64] = &[0o444, 0o400, 0o440, 0, 0o200, 0o600, 0o640, 0o644, 0o664, 0o666, 0o755];

// ---------------------------------------------------------------- generators

pub fn gen(prop: &str, r: &mut Rng) -> V {
    let wild = matches!(prop, "S01");
    let nobj = 1 + r.below(3);
    let objs: Vec<V> = (0..nobj).map(|_| gen_stored(r, wild)).collect();
    let vast = objs.iter().any(|o| o.b("vast"));
    let npath = if r.chance(700) { 1 } else { 2 };
    let paths: Vec<u64> =
        (0..npath).map(|_| if r.chance(350) { 0 } else { r.below(PATHS.len() as u64) }).collect();
    let mut steps = vec![];
    let o = |r: &mut Rng| r.below(nobj);
    let p = |r: &mut Rng| r.below(npath);
    let save = |r: &mut Rng, f: V| V::obj().set("op", "save").set("o", o(r)).set("p", p(r)).set("f", f);
    let loadf = |r: &mut Rng, f: V| {
        V::obj().set("op", "load").set("p", p(r)).set("f", f).set("train", r.chance(300))
    };
    let n = 1 + r.below(4);
    for _ in 0..n {
        match prop {
            "S01" => {
                if r.chance(150) {
                    let f = if r.chance(500) { gen_crash(r) } else { gen_hard(r) };
                    steps.push(save(r, f));
                }
                let f = gen_soft(r);
                steps.push(save(r, f));
                if r.chance(500) {
                    steps.push(V::obj().set("op", "restart"));
                }
                if r.chance(700) {
                    let f = gen_soft(r);
                    steps.push(loadf(r, f));
                }
            }
            "S02" => {
                // saves and loads before, not all of them looked at by the check
                while r.chance(400) {
                    let quiet = r.chance(500);
                    steps.push(save(r, V::obj()).set("quiet", quiet));
                    if r.chance(400) {
                        steps.push(loadf(r, V::obj()));
                    }
                }
                let mut f = if r.chance(850) { gen_hard(r) } else { V::obj() };
                if r.chance(120) {
                    f.put("cap", r.below(200));
                }
                if r.chance(80) {
                    f.put("fds", r.below(2) + 1);
                }
                if r.chance(600) {
                    steps.push(save(r, f));
                } else if r.chance(700) {
                    let quiet = r.chance(500);
                    steps.push(save(r, V::obj()).set("quiet", quiet));
                    steps.push(loadf(r, f));
                } else if r.chance(500) {
                    steps.push(gen_guarded(r, nobj));
                } else {
                    steps.push(V::obj().set("op", "odd").set("n", r.below(8)).set("o", o(r)).set("save", r.chance(500)));
                }
            }
            "S03" => {
                if r.chance(400) {
                    steps.push(save(r, V::obj()));
                }
                let mut f = match r.below(10) {
                    0..=5 => gen_crash(r),
                    6..=8 => gen_hard(r),
                    _ => V::obj().set("cap", r.below(200)),
                };
                if r.chance(400) {
                    f.put("power", r.seed());
                }
                if r.chance(200) {
                    f.put("hard", gen_hard(r).get("hard").clone());
                }
                if r.chance(60) {
                    steps.push(gen_guarded(r, nobj).set("save", true));
                    continue;
                }
                steps.push(save(r, f));
            }
            "S04" => {
                for _ in 0..1 + r.below(3) {
                    let f = match r.below(10) {
                        0..=4 => V::obj(),
                        5 => gen_soft(r),
                        6..=7 => gen_crash(r),
                        _ => gen_hard(r),
                    };
                    steps.push(save(r, f));
                    if r.chance(300) {
                        steps.push(V::obj().set("op", "restart"));
                    }
                    if r.chance(200) {
                        steps.push(loadf(r, V::obj()));
                    }
                }
                steps.push(V::obj().set("op", "power").set("seed", r.seed()));
            }
            _ => {
                // S09
                if r.chance(300) {
                    steps.push(save(r, V::obj()));
                }
                let f = match r.below(10) {
                    0..=1 => gen_soft(r),
                    2..=7 => gen_hard(r),
                    8 => V::obj().set("cap", r.below(200)),
                    _ => gen_crash(r),
                };
                if r.chance(650) {
                    steps.push(save(r, f));
                } else if r.chance(600) {
                    steps.push(loadf(r, f));
                } else if r.chance(500) {
                    steps.push(V::obj().set("op", "rot").set("p", p(r)).set("seed", r.seed()));
                    steps.push(loadf(r, f));
                } else if r.chance(500) {
                    steps.push(gen_guarded(r, nobj));
                } else {
                    steps.push(V::obj().set("op", "odd").set("n", r.below(8)).set("o", o(r)).set("save", r.chance(500)));
                }
            }
        }
    }
    if vast {
        for s in &mut steps {
            if s.has("f") {
                let f = s.get("f").clone().set("vast", true);
                s.put("f", f);
            }
        }
    }
    V::obj()
        .set("objs", V::Arr(objs))
        .set("paths", paths)
        .set("pre", (0..npath).map(|_| r.below(6)).collect::<Vec<_>>())
        .set("by", r.chance(600))
        .set("ent", r.seed())
        .set("apart", r.chance(600))
        .set("skew", if r.chance(300) { r.range(-4_000_000_000, 4_000_000_000) } else { 0 })
        .set("steps", V::Arr(steps))
}

// ---------------------------------------------------------------- executor

#[derive(Clone, PartialEq)]
enum Cand {
    Absent,
    Raw(Vec<u8>),
    Obj(usize),
}

struct St {
    prop: String,
    objs: Vec<Obj>,
    fps: Vec<OFp>,
    /// per path index: what it may hold
    cands: Vec<Vec<Cand>>,
    /// per path: the object the last acknowledged save put there, nothing having happened since
    acked: Vec<Option<usize>>,
    paths: Vec<String>,
    same: Vec<usize>,
    /// what stood on the disk before the first step: the user's files, not the library's
    own: std::collections::BTreeSet<String>,
}

const PROBES: u64 = 2;

pub fn run(prop: &str, plan: &V) {
    furnish(plan.b("by"));
    w().skew_ns = plan.i("skew") * 1000;
    let mut st = St {
        prop: prop.into(),
        objs: vec![],
        fps: vec![],
        cands: vec![],
        acked: vec![],
        paths: vec![],
        same: vec![],
        own: Default::default(),
    };
    let mut pl: Vec<u64> = plan.get("paths").arr().iter().map(|v| v.int().max(0) as u64).collect();
    if pl.is_empty() {
        pl.push(0);
    }
    // preparation: build the objects, store what stands at the paths before
    let ent = plan.u("ent");
    task(ent, || {
        let ov = plan.get("objs").arr();
        let one = V::obj().set("k", "ten").set("sh", vec![2, 2, 1]);
        for v in if ov.is_empty() { std::slice::from_ref(&one) } else { &ov[..] } {
            match Obj::make(v).and_then(|mut o| o.fp(PROBES).map(|f| (o, f))) {
                Ok((o, f)) => {
                    st.objs.push(o);
                    st.fps.push(f);
                }
                Err(e) => {
                    violate(format!("build: cannot build {}: {}", v.text(), e));
                    return;
                }
            }
        }
        for (i, &p) in pl.iter().enumerate() {
            let path = path_of(p);
            let abs = w().disk.resolve(&path, true).unwrap_or_else(|_| w().disk.abs(&path));
            let pre = match plan.get("pre").at(i).int() {
                1 => Some(b"short".to_vec()),
                2 => Some((0..6000u32).map(|x| (x * 7) as u8).collect()),
                3 => {
                    // an object written by the library itself in quiet times
                    let o = Obj::make(&V::obj().set("k", "net").set("net", V::obj().set("in", vec![3, 1, 1])));
                    let mut out = None;
                    if let Ok(o) = o {
                        if o.save("/sim/other/scratch").ok() {
                            out = w().disk.content("/sim/other/scratch");
                            let _ = w().disk.unlink("/sim/other/scratch");
                        }
                    }
                    out
                }
                4 => Some(vec![]),
                _ => None,
            };
            // two spellings of one file share their state
            let twin = st.paths.iter().position(|q| {
                w().disk.resolve(q, true).unwrap_or_else(|_| w().disk.abs(q)) == abs
            });
            st.paths.push(path);
            st.same.push(twin.unwrap_or(i));
            if let Some(b) = &pre {
                if twin.is_none() {
                    w().disk.put_file(&abs, b);
                }
            }
            st.cands.push(vec![pre.map(Cand::Raw).unwrap_or(Cand::Absent)]);
            st.acked.push(None);
        }
    });
    w().disk.sync_all();
    st.own = w().disk.listing().into_keys().collect();
    for p in &st.paths {
        let d = &w().disk;
        let t = d.resolve(p, true).unwrap_or_else(|_| d.abs(p));
        st.own.insert(t);
    }
    if violated() {
        return;
    }
    // the program, one process life at a time
    let steps = plan.get("steps").arr();
    let mut i = 0;
    let mut life = 0;
    while i < steps.len() && !violated() {
        life += 1;
        let start = i;
        let next = std::sync::atomic::AtomicUsize::new(i);
        let stm = &mut st;
        let apart = plan.b("apart");
        let ov = plan.get("objs").arr();
        process(apart, crate::rng::mix(ent, life), || {
            if apart {
                // a process builds its objects itself
                let mine: Result<Vec<Obj>, String> = ov.iter().map(Obj::make).collect();
                match mine {
                    Ok(m) if m.len() == stm.objs.len() => std::mem::forget(std::mem::replace(&mut stm.objs, m)),
                    Ok(_) => {}
                    Err(e) => return violate(format!("build: {}", e)),
                }
            }
            let mut k = start;
            while k < steps.len() && !violated() {
                let s = &steps[k];
                k += 1;
                next.store(k, std::sync::atomic::Ordering::Relaxed);
                if s.s("op") == "restart" || s.s("op") == "power" {
                    break;
                }
                step(stm, s);
                if crashed() {
                    break;
                }
            }
        });
        i = next.into_inner();
        bury();
        if !violated() && i > start && steps[i - 1].s("op") == "power" {
            w().event(20, 0, || "== power failure, machine restarts".into());
            w().count("power-loss");
            w().disk.power_loss(&mut Rng::new(steps[i - 1].u("seed")));
            if st.prop == "S04" {
                process(apart, crate::rng::mix(ent, 1000 + life), || check_cands(&mut st, true));
            }
        }
    }
    // final sweep: what was acknowledged is still there
    if !violated() && (prop == "S01" || prop == "S04") {
        process(plan.b("apart"), crate::rng::mix(ent, 5000), || {
            for p in 0..st.paths.len() {
                if let Some(o) = st.acked[st.same[p]] {
                    expect(&mut st, p, o, "at the end", false);
                }
            }
        });
    }
    // they belong to processes that are gone
    std::mem::forget(std::mem::take(&mut st.objs));
}

/// one process life on one thread
pub fn task(ent: u64, f: impl FnOnce()) {
    run_tasks(Sched::default(), vec![(TaskCfg::new(ent), Box::new(f))]);
}
/// one process life, with statics of its own or not
pub fn process(apart: bool, ent: u64, f: impl FnOnce()) {
    let mut cfg = TaskCfg::new(ent);
    cfg.apart = apart;
    if apart && ent & 1 == 0 {
        cfg.pid = 7;
    }
    run_tasks(Sched::default(), vec![(cfg, Box::new(f))]);
}
/// a dead process loses its descriptors
pub fn bury() {
    w().disk.fds.clear();
    for i in w().disk.inodes.iter_mut() {
        i.lock = None;
    }
}

fn violate_if(st: &St, props: &[&str], msg: String) {
    if props.contains(&st.prop.as_str()) {
        violate(msg);
    }
}

/// a fault-free load must give the object
fn expect(st: &mut St, p: usize, o: usize, when: &str, train: bool) {
    let path = st.paths[p].clone();
    arm(&V::Null);
    let net = st.objs[o].is_net();
    match load(net, &path, train) {
        Err(e) => violate(format!("load: loading {:?} {} gives {}", path, when, e.text())),
        Ok(mut x) => match x.fp_like(PROBES, &st.fps[o]) {
            Err(e) => violate(format!("load: the object loaded from {:?} {} is unusable: {}", path, when, e)),
            Ok(f) => {
                if f != st.fps[o] {
                    violate(format!(
                        "mismatch: {:?} {} loads as something else than what was saved: {}",
                        path,
                        when,
                        odiff(&f, &st.fps[o])
                    ));
                }
            }
        },
    }
}

fn holds(st: &mut St, p: usize, c: &Cand) -> bool {
    let content = w().disk.content(&st.paths[p]);
    match c {
        Cand::Absent => content.is_none(),
        Cand::Raw(b) => content.as_ref() == Some(b),
        Cand::Obj(o) => {
            if content.is_none() {
                return false;
            }
            let path = st.paths[p].clone();
            match load(st.objs[*o].is_net(), &path, false) {
                Ok(mut x) => x.fp_like(PROBES, &st.fps[*o]).map(|f| f == st.fps[*o]).unwrap_or(false),
                Err(_) => false,
            }
        }
    }
}
fn describe(c: &Cand) -> String {
    match c {
        Cand::Absent => "nothing".into(),
        Cand::Raw(b) => format!("the {} bytes that were there", b.len()),
        Cand::Obj(o) => format!("object {}", o),
    }
}

fn check_cands(st: &mut St, power: bool) {
    for p in 0..st.paths.len() {
        if st.same[p] != p {
            continue;
        }
        let cs = st.cands[p].clone();
        let found = cs.iter().find(|c| holds(st, p, c)).cloned();
        match found {
            Some(c) => {
                if power {
                    if let Cand::Obj(_) = c {
                        nontrivial();
                    }
                    st.acked[p] = None;
                    st.cands[p] = vec![c];
                }
            }
            None => {
                let len = w().disk.content(&st.paths[p]).map(|b| format!("{} bytes", b.len()));
                violate(format!(
                    "lost: after the {} {:?} holds {}, allowed: {}",
                    if power { "power failure" } else { "interruption" },
                    st.paths[p],
                    len.unwrap_or("nothing".into()),
                    cs.iter().map(describe).collect::<Vec<_>>().join(" or ")
                ));
                return;
            }
        }
    }
}

fn limits(f: &V) {
    if f.has("cap") {
        let u = w().disk.used();
        w().disk.capacity = Some(u + f.u("cap"));
    }
    if f.has("fds") {
        let n = w().disk.fds.len();
        w().disk.fd_limit = n + f.u("fds") as usize - 1;
    }
}
fn no_limits() {
    w().disk.capacity = None;
    w().disk.fd_limit = 200;
}

fn step(st: &mut St, s: &V) {
    let p = s.u("p") as usize % st.paths.len();
    let key = st.same[p];
    let f = s.get("f");
    let path = st.paths[p].clone();
    match s.s("op") {
        "save" => {
            let o = s.u("o") as usize % st.objs.len();
            if st.prop == "S03" {
                w().disk.sync_all();
            }
            let before = w().disk.listing();
            let fds = w().disk.fds.len();
            w().event(21, o as u64, || format!("== save object {} to {:?} faults {}", o, path, f.text()));
            limits(f);
            arm(f);
            let out = st.objs[o].save(&path);
            let io = disarm();
            let space = f.has("cap") || f.has("fds");
            no_limits();
            let dead = crashed();
            w().event(22, out.ok() as u64, || format!("== save: {}{}", out.text(), if dead { " (dead)" } else { "" }));
            let quiet = s.b("quiet") && io.hard_fired == 0 && !space;
            after_save(st, p, key, o, &before, fds, &out, &io, dead, space, quiet, f);
        }
        "load" => {
            let train = s.b("train");
            let before = w().disk.listing();
            let fds = w().disk.fds.len();
            let known = st.acked[key];
            let net = known.map(|o| st.objs[o].is_net()).unwrap_or(s.u("p") % 2 == 0);
            w().event(23, 0, || format!("== load {:?} faults {}", path, f.text()));
            limits(f);
            arm(f);
            let r = load(net, &path, train);
            let io = disarm();
            let space = f.has("cap") || f.has("fds");
            no_limits();
            if crashed() {
                return;
            }
            let hard = io.hard_fired > 0 || space;
            if hard {
                nontrivial_for(st, &["S02", "S09"]);
            }
            if st.prop == "S09" {
                leftovers(st, &before, fds, None, &io, "load");
                nontrivial();
            }
            match r {
                Err(Out::Panic(m)) => violate_if(st, &["S01", "S02"], format!("panic: load {:?}: {}", path, m)),
                Err(e) => {
                    if known.is_some() && !hard {
                        violate_if(st, &["S01", "S02"], format!("load: loading {:?} gives {}", path, e.text()));
                    }
                }
                Ok(mut x) => {
                    if let Some(o) = known {
                        match x.fp_like(PROBES, &st.fps[o]) {
                            Ok(fp) if fp == st.fps[o] => {
                                if st.prop == "S01" {
                                    nontrivial()
                                }
                            }
                            Ok(fp) => violate_if(
                                st,
                                &["S01", "S02"],
                                format!(
                                    "mismatch: {:?} loads as something else than what was saved: {}",
                                    path,
                                    odiff(&fp, &st.fps[o])
                                ),
                            ),
                            Err(e) => violate_if(st, &["S01", "S02"], format!("panic: after load: {}", e)),
                        }
                    }
                }
            }
            if st.prop == "S02" && hard && !violated() {
                if let Some(o) = known {
                    expect(st, p, o, "once the fault has cleared", train);
                }
            }
        }
        "rot" => {
            if let Some(mut b) = w().disk.content(&path) {
                let mut r = Rng::new(s.u("seed"));
                if !b.is_empty() {
                    if r.chance(500) {
                        let n = r.below(b.len() as u64) as usize;
                        b.truncate(n);
                    } else {
                        let i = r.below(b.len() as u64) as usize;
                        b[i] ^= 1 << r.below(8);
                    }
                }
                w().disk.damage(&path, b);
                w().count("stored-bytes-damaged");
                st.acked[key] = None;
            }
        }
        "odd" => odd(st, s),
        "guarded" => guarded(st, s),
        _ => {}
    }
}

#[allow(clippy::too_many_arguments)]
fn after_save(
    st: &mut St,
    p: usize,
    key: usize,
    o: usize,
    before: &BTreeMap<String, Vec<u8>>,
    fds: usize,
    out: &Out,
    io: &Io,
    dead: bool,
    space: bool,
    quiet: bool,
    f: &V,
) {
    let path = st.paths[p].clone();
    let hard = io.hard_fired > 0 || space;
    let old = st.cands[key].clone();
    if dead {
        st.cands[key].push(Cand::Obj(o));
        st.acked[key] = None;
    } else if out.ok() {
        st.cands[key] = vec![Cand::Obj(o)];
        // success despite a storage failure is judged by S02 alone
        st.acked[key] = if hard && st.prop == "S01" { None } else { Some(o) };
    } else {
        st.cands[key].push(Cand::Obj(o));
        st.acked[key] = None;
    }
    if !dead {
        if let Out::Panic(m) = out {
            violate_if(st, &["S01", "S02", "S03", "S09"], format!("panic: save to {:?}: {}", path, m));
            return;
        }
        if let (Out::Err(e), false) = (out, hard) {
            violate_if(st, &["S01", "S02"], format!("refused: save to {:?} fails without a storage fault: {}", path, e));
            return;
        }
    }
    match st.prop.as_str() {
        "S02" if !dead && !quiet => {
            if hard {
                nontrivial();
            }
            match st.objs[o].fp(PROBES) {
                Ok(x) if x == st.fps[o] => {}
                Ok(x) => return violate(format!("object: the attempt to save changed it: {}", odiff(&x, &st.fps[o]))),
                Err(e) => return violate(format!("object: after the attempt to save: {}", e)),
            }
            if out.ok() {
                w().disk.evict_lost();
                expect(st, p, o, "after the save reported success", false);
            } else {
                arm(&V::Null);
                let again = st.objs[o].save(&path);
                if !again.ok() {
                    return violate(format!(
                        "refused: the save to {:?} still fails after the fault has cleared: {}",
                        path,
                        again.text()
                    ));
                }
                st.cands[key] = vec![Cand::Obj(o)];
                st.acked[key] = Some(o);
                expect(st, p, o, "after the repeated save", false);
            }
        }
        "S03" => {
            if hard || dead {
                if old.iter().any(|c| *c != Cand::Absent) {
                    nontrivial();
                }
            }
            if f.has("power") {
                w().event(24, 0, || "== power failure, machine restarts".into());
                w().count("power-loss");
                bury();
                w().disk.power_loss(&mut Rng::new(f.u("power")));
            } else if dead {
                // dead processes release their descriptors; the check runs as another process
                bury();
            }
            // the check itself is made by a healthy process
            let c = w().cur;
            w().tasks[c].crashed = false;
            let mut allowed = old.clone();
            allowed.push(Cand::Obj(o));
            let now = allowed.iter().find(|c| holds(st, p, c)).cloned();
            match now {
                Some(c) => {
                    st.acked[key] = if let Cand::Obj(o) = c { Some(o) } else { None };
                    st.cands[key] = vec![c];
                }
                None => {
                    let len = w().disk.content(&path).map(|b| format!("{} bytes", b.len()));
                    return violate(format!(
                        "lost: after a {} save {:?} holds {}, neither {} nor the new object {}",
                        if dead { "killed" } else if out.ok() { "successful" } else { "failed" },
                        path,
                        len.unwrap_or("nothing".into()),
                        old.iter().map(describe).collect::<Vec<_>>().join(" or "),
                        o
                    ));
                }
            }
            let target = w().disk.resolve(&path, true).unwrap_or_default();
            let link = w().disk.resolve(&path, false).unwrap_or_default();
            let after = w().disk.listing();
            for (n, b) in before {
                if *n != target && *n != link && st.own.contains(n) && after.get(n) != Some(b) {
                    return violate(format!("bystander: the save to {:?} altered {:?}", path, n));
                }
            }
            if dead {
                w().tasks[c].crashed = true;
            }
        }
        "S09" if !dead => {
            nontrivial();
            // an error may come after the new object took the target's place
            leftovers(st, before, fds, Some(path.as_str()), io, "save");
        }
        _ => {}
    }
}

fn leftovers(_st: &St, before: &BTreeMap<String, Vec<u8>>, fds: usize, target: Option<&str>, io: &Io, what: &str) {
    if w().disk.fds.len() > fds {
        return violate(format!("handles: {} left {} file handle(s) open", what, w().disk.fds.len() - fds));
    }
    if io.cleanup_refused {
        return;
    }
    let t = target.map(|t| w().disk.resolve(t, true).unwrap_or_default());
    let l = target.map(|t| w().disk.resolve(t, false).unwrap_or_default());
    for n in w().disk.listing().keys() {
        if !before.contains_key(n) && Some(n) != t.as_ref() && Some(n) != l.as_ref() {
            return violate(format!("litter: a {} left {:?} behind", what, n));
        }
    }
}

fn nontrivial_for(st: &St, props: &[&str]) {
    if props.contains(&st.prop.as_str()) {
        nontrivial();
    }
}

/// places no save can go to and no load can come from
fn odd(st: &mut St, s: &V) {
    w().disk.put_file("/sim/work/plainfile", b"plain");
    let long = "n".repeat(300);
    let deep = format!("sub/{}", "d/".repeat(20)) + "x.bin";
    let path = match s.u("n") % 8 {
        0 => "missing/net.bin",
        1 => "sub",
        2 => "",
        3 => "plainfile/net.bin",
        4 => &long,
        5 => "sub/",
        6 => "nul\0inside",
        _ => &deep,
    };
    let o = s.u("o") as usize % st.objs.len();
    let before = w().disk.listing();
    let fds = w().disk.fds.len();
    arm(&V::Null);
    w().event(25, s.u("n"), || format!("== {} {:?}", if s.b("save") { "save to" } else { "load from" }, path));
    nontrivial_for(st, &["S02", "S09"]);
    if s.b("save") {
        let out = st.objs[o].save(path);
        let io = disarm();
        if let Out::Panic(m) = &out {
            return violate_if(st, &["S02", "S09"], format!("panic: save to {:?}: {}", path, m));
        }
        if st.prop == "S09" && !out.ok() {
            leftovers(st, &before, fds, None, &io, "save");
        }
        if st.prop == "S02" {
            if out.ok() {
                match load(st.objs[o].is_net(), path, false).map(|mut x| x.fp_like(PROBES, &st.fps[o])) {
                    Ok(Ok(f)) if f == st.fps[o] => {}
                    _ => violate(format!("swallowed: save to {:?} reports success, but it does not load", path)),
                }
            }
            match st.objs[o].fp(PROBES) {
                Ok(x) if x == st.fps[o] => {}
                _ => violate("object: the attempt to save changed it".into()),
            }
        }
    } else {
        let r = load(st.objs[o].is_net(), path, false);
        let io = disarm();
        match r {
            Err(Out::Panic(m)) => violate_if(st, &["S02", "S09"], format!("panic: load of {:?}: {}", path, m)),
            Ok(_) => violate_if(st, &["S02"], format!("swallowed: loading {:?} reports success", path)),
            _ => {}
        }
        if st.prop == "S09" {
            leftovers(st, &before, fds, None, &io, "load");
        }
    }
}

/// a file, and a directory, that the process may not write, not read, or only together with others
fn guarded(st: &mut St, s: &V) {
    let (o, o2) = (s.u("o") as usize % st.objs.len(), s.u("o2") as usize % st.objs.len());
    let f = s.get("f");
    let (mode, dmode) = (s.u("mode") as u32 & 0o777, s.u("dir") as u32 & 0o777);
    let file = "/sim/work/vault/model.bin";
    let d = &mut w().disk;
    if d.lookup("/sim/work/vault", true).is_err() {
        d.mknode("/sim/work/vault", Kind::Dir);
        d.mknode("/sim/work/vaultlink", Kind::Symlink("vault/model.bin".into()));
    }
    d.set_mode("/sim/work/vault", 0o755);
    d.set_mode(file, 0o644);
    let path = if s.b("link") { "vaultlink" } else { "vault/model.bin" };
    arm(&V::Null);
    let first = st.objs[o].save(path);
    if !first.ok() {
        disarm();
        return violate(format!("refused: save to {:?} fails without a storage fault: {}", path, first.text()));
    }
    let old = w().disk.content(file);
    w().disk.set_mode(file, mode);
    w().disk.set_mode("/sim/work/vault", dmode);
    let before = w().disk.listing();
    let fds = w().disk.fds.len();
    w().event(26, mode as u64, || {
        format!("== {} {:?}, mode {:o} in a directory of mode {:o}", if s.b("save") { "save to" } else { "load from" }, path, mode, dmode)
    });
    w().count("file-permission");
    nontrivial_for(st, &["S02", "S03", "S09"]);
    arm(f);
    if s.b("save") {
        let out = st.objs[o2].save(path);
        let io = disarm();
        if crashed() {
            return;
        }
        let hard = io.hard_fired > 0;
        let now = w().disk.mode(file);
        w().disk.set_mode("/sim/work/vault", 0o755);
        w().disk.set_mode(file, 0o644);
        if let Out::Panic(m) = &out {
            return violate(format!("panic: save to {:?}: {}", path, m));
        }
        if st.prop == "S09" {
            leftovers(st, &before, fds, Some(path), &io, "save");
            if now & !mode & 0o077 != 0 {
                return violate(format!("access: a save turned a file of mode {:o} into one of mode {:o}", mode, now));
            }
            return;
        }
        if st.prop == "S02" && !hard && !out.ok() && mode & 0o200 != 0 && dmode & 0o200 != 0 {
            return violate(format!("refused: save to {:?}, a file of mode {:o}, fails: {}", path, mode, out.text()));
        }
        if st.prop == "S03" && out.ok() && mode & 0o200 == 0 {
            return violate(format!("protected: the save to {:?} replaced a file of mode {:o}", path, mode));
        }
        if out.ok() {
            if hard {
                w().disk.evict_lost();
            }
            match load(st.objs[o2].is_net(), path, false).map(|mut x| x.fp_like(PROBES, &st.fps[o2])) {
                Ok(Ok(f)) if f == st.fps[o2] => {}
                _ => return violate(format!("swallowed: save to {:?} reports success, but it does not load", path)),
            }
        } else if w().disk.content(file) != old {
            // the error may have come after the new object took its place
            match load(st.objs[o2].is_net(), path, false).map(|mut x| x.fp_like(PROBES, &st.fps[o2])) {
                Ok(Ok(f)) if f == st.fps[o2] => {}
                _ => return violate(format!("lost: the refused save to {:?} destroyed the previous file", path)),
            }
        }
        let after = w().disk.listing();
        for (n, b) in &before {
            if n != file && st.own.contains(n) && after.get(n) != Some(b) {
                return violate(format!("bystander: the save to {:?} altered {:?}", path, n));
            }
        }
    } else {
        let r = load(st.objs[o].is_net(), path, false);
        let io = disarm();
        if crashed() {
            return;
        }
        w().disk.set_mode("/sim/work/vault", 0o755);
        w().disk.set_mode(file, 0o644);
        let readable = mode & 0o400 != 0;
        match r {
            Err(Out::Panic(m)) => return violate(format!("panic: load of {:?}: {}", path, m)),
            Err(e) => {
                if readable && io.hard_fired == 0 {
                    return violate(format!("load: loading {:?}, a file of mode {:o}, gives {}", path, mode, e.text()));
                }
            }
            Ok(mut x) => match x.fp_like(PROBES, &st.fps[o]) {
                Ok(f) if readable && f == st.fps[o] => {}
                Ok(_) => return violate(format!("swallowed: loading {:?}, of mode {:o}, gives something else", path, mode)),
                Err(e) => return violate(format!("panic: after load: {}", e)),
            },
        }
        if st.prop == "S09" {
            leftovers(st, &before, fds, None, &io, "load");
        }
    }
}
