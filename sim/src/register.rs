//! S05: one path shared by several tasks (threads of one process, or processes) is an atomic register.
use crate::bridge::{load, OFp, Obj, Out};
use crate::json::V;
use crate::model::gen_net;
use crate::rng::Rng;
use crate::storage::{arm, crashed, disarm, furnish, gen_soft, path_of, process, task};
use crate::world::*;
use std::collections::BTreeSet;
use std::sync::Mutex;

pub fn gen_sched(r: &mut Rng, edges: bool) -> V {
    let n = if r.chance(300) { 60 } else { 16 };
    let n = r.below(n);
    V::Arr(
        (0..n)
            .map(|_| {
                let gap = if edges {
                    let e = r.below(11);
                    r.below(1 + (1 << e))
                } else {
                    let m = [1, 3, 8, 14][r.below(4) as usize];
                    r.below(m)
                };
                V::Arr(vec![V::from(gap), V::from(r.below(8))])
            })
            .collect(),
    )
}
/// places where tasks give way: [seed, how rare] or nothing
pub fn gen_hot(r: &mut Rng, edges: bool) -> V {
    let share = if edges { 550 } else { 250 };
    if r.chance(share) {
        V::Arr(vec![V::from(r.seed()), V::from(if edges { r.range(1, 7) } else { r.range(0, 2) })])
    } else {
        V::Null
    }
}
pub fn gen_pick(r: &mut Rng) -> i64 {
    if r.chance(500) {
        r.seed()
    } else {
        0
    }
}
pub fn sched_of(plan: &V) -> Sched {
    let hot = plan.get("hot");
    Sched {
        list: plan.get("sched").arr().iter().map(|x| (x.at(0).int().max(0) as u32, x.at(1).int().max(0) as u32)).collect(),
        hot: if hot.arr().len() == 2 { Some((hot.at(0).int() as u64, hot.at(1).int().clamp(0, 20) as u32)) } else { None },
        pick: plan.u("pick"),
    }
}

pub fn gen(r: &mut Rng) -> V {
    let nobj = 2 + r.below(3);
    let ten = r.chance(400);
    let objs: Vec<V> = (0..nobj)
        .map(|i| {
            if ten {
                V::obj()
                    .set("k", "ten")
                    .set("sh", vec![r.range(1, 12), r.range(1, 4), 1])
                    .set("style", r.range(0, 1))
                    .set("seed", r.seed() + i as i64)
            } else {
                V::obj().set("k", "net").set("net", gen_net(r, &[0, 1], 3, 0))
            }
        })
        .collect();
    let nt = 2 + r.below(3);
    let same = r.chance(500);
    let mut total = 0;
    let tasks: Vec<V> = (0..nt)
        .map(|_| {
            let n = 1 + r.below(4);
            let mut ops = vec![];
            for _ in 0..n {
                if total >= 11 {
                    break;
                }
                total += 1;
                ops.push(if r.chance(550) {
                    V::obj().set("op", "save").set("o", r.below(nobj))
                } else {
                    V::obj().set("op", "load")
                });
            }
            let mut t = V::obj().set("ops", V::Arr(ops));
            if r.chance(400) {
                t.put("f", gen_soft(r));
            }
            if r.chance(200) {
                t.put("kill", r.below(3));
                t.put("crash", vec![1 + r.below(10), [0, 0, 128, 255][r.below(4) as usize]]);
            }
            t
        })
        .collect();
    let edges = r.chance(200);
    V::obj()
        .set("objs", V::Arr(objs))
        .set("pre", if r.chance(500) { r.below(nobj) as i64 + 1 } else { 0 })
        .set("path", if r.chance(500) { 0 } else { r.below(17) })
        .set("tasks", V::Arr(tasks))
        .set("same", same)
        .set("apart", r.chance(600))
        .set("contained", r.chance(400))
        .set("edges", edges)
        .set("ent", r.seed())
        .set("sched", gen_sched(r, edges))
        .set("hot", gen_hot(r, edges))
        .set("pick", gen_pick(r))
}

#[derive(Clone, Debug, PartialEq)]
enum What {
    Save(usize),
    /// None: the load failed
    Load(Option<usize>),
}
#[derive(Clone, Debug)]
struct Op {
    what: What,
    task: usize,
    inv: u64,
    ret: u64,
    maybe: bool,
    note: String,
}

pub fn run(plan: &V) {
    furnish(false);
    let path = path_of(plan.u("path"));
    let ent = plan.u("ent");
    let mut objs: Vec<Obj> = vec![];
    let mut fps: Vec<OFp> = vec![];
    let mut made: Vec<V> = vec![];
    let dflt = V::obj().set("k", "ten").set("sh", vec![2, 2, 1]);
    task(ent, || {
        let ov = plan.get("objs").arr();
        let net = ov.first().map(|v| v.s("k") != "ten").unwrap_or(false);
        for v in if ov.is_empty() { std::slice::from_ref(&dflt) } else { &ov[..] } {
            if (v.s("k") != "ten") != net {
                continue;
            }
            match Obj::make(v).and_then(|mut o| o.fp(1).map(|f| (o, f))) {
                Ok((o, f)) => {
                    objs.push(o);
                    made.push(v.clone());
                    fps.push(f);
                }
                Err(e) => return violate(format!("build: {}", e)),
            }
        }
    });
    if violated() {
        return;
    }
    let first: Vec<usize> = fps.iter().map(|f| fps.iter().position(|g| g.stores_as(f)).unwrap()).collect();
    // the object something loaded is
    let canon = |x: &mut Obj| {
        let f = x.fp(1).ok()?;
        let i = fps.iter().position(|g| g.stores_as(&f))?;
        (x.fp_like(1, &fps[i]).ok()? == fps[i]).then_some(i)
    };
    let net = objs[0].is_net();
    let mut initial = None;
    let pre = plan.i("pre");
    if pre > 0 {
        let o = (pre as usize - 1) % objs.len();
        task(ent ^ 1, || {
            let r = objs[o].save(&path);
            if !r.ok() {
                violate(format!("refused: first save: {}", r.text()));
            }
        });
        initial = Some(first[o]);
        w().disk.sync_all();
    }
    if violated() {
        return;
    }
    let hist: Mutex<Vec<Op>> = Mutex::new(vec![]);
    EDGE_POINTS.store(plan.b("edges"), std::sync::atomic::Ordering::Relaxed);
    let mut bodies: Vec<(TaskCfg, Body)> = vec![];
    let anyone_dies = plan.get("tasks").arr().iter().any(|t| t.has("crash"));
    for (ti, t) in plan.get("tasks").arr().iter().enumerate().take(6) {
        let mut cfg = TaskCfg::new(crate::rng::mix(ent, 100 + ti as u64));
        cfg.same_pid = plan.b("same") && !t.has("crash");
        // otherwise a process of its own, which builds its own objects
        let apart = plan.b("apart") && (!cfg.same_pid || plan.b("contained") && !anyone_dies);
        cfg.apart = apart;
        if apart && plan.b("same") && !anyone_dies {
            cfg.pid = 7;
        }
        let (hist, path, canon, objs, first, made) = (&hist, &path, &canon, &objs, &first, &made);
        bodies.push((
            cfg,
            Box::new(move || {
                let mut mine: Vec<Option<Obj>> = objs.iter().map(|_| None).collect();
                for (k, op) in t.get("ops").arr().iter().enumerate().take(6) {
                    if hist.lock().unwrap().len() >= 14 {
                        break;
                    }
                    let o = op.u("o") as usize % objs.len();
                    if apart && op.s("op") == "save" && mine[o].is_none() {
                        let c = w().cur;
                        w().tasks[c].mute = true;
                        mine[o] = Obj::make(&made[o]).ok();
                        w().tasks[c].mute = false;
                    }
                    let mut f = t.get("f").clone();
                    if f == V::Null {
                        f = V::obj();
                    }
                    if t.has("crash") && t.u("kill") == k as u64 {
                        f.put("crash", t.get("crash").clone());
                    }
                    let slot = {
                        let mut h = hist.lock().unwrap();
                        h.push(Op {
                            what: What::Load(None),
                            task: ti,
                            inv: w().seq + 1,
                            ret: u64::MAX,
                            maybe: false,
                            note: String::new(),
                        });
                        h.len() - 1
                    };
                    w().event(30, 0, || format!("== starts {}", op.text()));
                    arm(&f);
                    let (what, note) = if op.s("op") == "save" {
                        let r = mine[o].as_ref().unwrap_or(&objs[o]).save(path);
                        if !crashed() && !r.ok() {
                            violate(format!("refused: a save fails without a storage fault: {}", r.text()));
                        }
                        (What::Save(first[o]), r.text())
                    } else {
                        match load(net, path, false) {
                            Ok(mut x) => {
                                disarm();
                                let dead = crashed();
                                let c = if dead { None } else { canon(&mut x) };
                                if c.is_none() && !dead {
                                    violate("mixture: a load returned something no save ever wrote".into());
                                }
                                (What::Load(c), format!("{:?}", c))
                            }
                            Err(e) => {
                                if let (Out::Panic(p), false) = (&e, crashed()) {
                                    violate(format!("panic: load: {}", p));
                                }
                                (What::Load(None), e.text())
                            }
                        }
                    };
                    disarm();
                    w().event(31, 0, || format!("== ends {} {}", op.s("op"), note));
                    let dead = crashed();
                    {
                        let mut h = hist.lock().unwrap();
                        h[slot].what = what.clone();
                        h[slot].ret = w().seq;
                        h[slot].maybe = dead;
                        h[slot].note = note;
                    }
                    if dead {
                        let c = w().cur;
                        let pid = w().tasks[c].pid;
                        w().kill_cleanup(pid);
                        break;
                    }
                }
            }),
        ));
    }
    run_tasks(sched_of(plan), bodies);
    EDGE_POINTS.store(false, std::sync::atomic::Ordering::Relaxed);
    if violated() {
        return;
    }
    // the final state is one more load
    let mut h = hist.into_inner().unwrap();
    h.retain(|o| !(o.maybe && matches!(o.what, What::Load(_))));
    w().disk.fds.clear();
    process(plan.b("apart"), ent ^ 2, || {
        let inv = w().seq + 1;
        let c = match load(net, &path, false) {
            Ok(mut x) => match canon(&mut x) {
                Some(c) => Some(c),
                None => return violate("mixture: the file ends up as something no save ever wrote".into()),
            },
            Err(Out::Panic(p)) => return violate(format!("panic: load: {}", p)),
            Err(e) => {
                w().event(32, 0, || format!("final load: {}", e.text()));
                None
            }
        };
        h.push(Op { what: What::Load(c), task: 99, inv, ret: u64::MAX, maybe: false, note: "final".into() });
    });
    if violated() {
        return;
    }
    let overlap = h.iter().any(|a| h.iter().any(|b| a.task != b.task && a.inv < b.ret && b.inv < a.ret && a.ret != u64::MAX && b.ret != u64::MAX));
    if overlap {
        nontrivial();
    }
    w().count("linearizability-checks");
    let mut seen = BTreeSet::new();
    if !search(&h, 0, initial, &mut seen) {
        violate(format!(
            "order: no single order of the operations explains the results (start {:?}): {}",
            initial,
            h.iter()
                .map(|o| format!(
                    "t{} {:?} [{},{}]{}",
                    o.task,
                    o.what,
                    o.inv,
                    if o.ret == u64::MAX { "end".into() } else { o.ret.to_string() },
                    if o.maybe { " killed" } else { "" }
                ))
                .collect::<Vec<_>>()
                .join("; ")
        ));
    }
}

fn search(h: &[Op], done: u32, val: Option<usize>, seen: &mut BTreeSet<(u32, Option<usize>)>) -> bool {
    if done.count_ones() as usize == h.len() {
        return true;
    }
    if !seen.insert((done, val)) {
        return false;
    }
    for i in 0..h.len() {
        if done & (1 << i) != 0 {
            continue;
        }
        // nothing outstanding finished before this one began
        if (0..h.len()).any(|j| j != i && done & (1 << j) == 0 && h[j].ret < h[i].inv) {
            continue;
        }
        let d = done | (1 << i);
        match &h[i].what {
            What::Save(v) => {
                if search(h, d, Some(*v), seen) {
                    return true;
                }
                if h[i].maybe && search(h, d, val, seen) {
                    return true;
                }
            }
            What::Load(x) => {
                if *x == val && search(h, d, val, seen) {
                    return true;
                }
            }
        }
    }
    false
}
