//! H08: a cycle of operations, failing ones included, repeated many times: memory, work and stored bytes must not
//! grow with the number of repetitions, and dropping the objects gives everything back.
use crate::alloc::LIVE;
use crate::cov::STEPS;
use crate::json::V;
use crate::model::{gen_net, work, Net};
use crate::rng::Rng;
use crate::side::{gen_op, Session};
use crate::storage::{arm, disarm, furnish, gen_hard, gen_soft, task};
use crate::world::*;
use std::sync::atomic::Ordering;

/// repetitions, in a long session and in a very long one
const CYCLES: [usize; 2] = [160, 560];

pub fn gen(r: &mut Rng) -> V {
    let mut net = gen_net(r, &[0, 1, 1], 3, 0);
    while heavy(&net) {
        net = gen_net(r, &[0, 1, 1], 3, 0);
    }
    let n = 1 + r.below(6);
    let mut ops: Vec<V> = (0..n)
        .map(|_| {
            let mut o = gen_op(r);
            if ["save", "load", "append", "tsave", "tload"].contains(&o.s("op")) {
                match r.below(10) {
                    0..=5 => o.put("f", V::obj()),
                    6..=7 => o.put("f", gen_hard(r)),
                    _ => o.put("f", gen_soft(r)),
                }
            }
            o
        })
        .collect();
    if r.chance(500) {
        let p = r.below(ops.len() as u64 + 1) as usize;
        for (j, o) in ["train", "infer", "back"].iter().enumerate() {
            if j > 0 || r.chance(500) {
                ops.insert((p + j).min(ops.len()), V::obj().set("op", *o).set("seed", r.seed()).set("style", 1));
            }
        }
    }
    V::obj().set("net", net).set("train", r.chance(700)).set("ops", V::Arr(ops)).set("ent", r.seed()).set("long", r.chance(60))
}

/// too much for some hundreds of repetitions
fn heavy(net: &V) -> bool {
    Net::new(net).layers.iter().map(|l| work(l) + 20).sum::<usize>() > 1200
}

fn once(x: &mut Session, ops: &[V]) {
    for o in ops {
        arm(o.get("f"));
        // errors are dropped where they were made
        let r = lib(|| x.act(o).is_ok());
        disarm();
        match r {
            Ok(ok) => w().count(&format!("{} {}", o.s("op"), if ok { "done" } else { "refused" })),
            Err(p) => return violate(format!("panic: {}: {}", o.s("op"), p)),
        }
    }
}
fn live() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
fn drop_in_lib(x: Session) {
    let Session { net, own, x, y, t, .. } = x;
    if let Err(p) = lib(move || drop((net, own, x, y, t))) {
        violate(format!("panic: dropping objects: {}", p));
    }
}
fn peak(v: &[i64], a: usize, b: usize) -> i64 {
    v[a..b].iter().copied().max().unwrap_or(0)
}

pub fn run(plan: &V) {
    furnish(false);
    if heavy(plan.get("net")) {
        return;
    }
    let all = plan.get("ops").arr();
    let ops = &all[..all.len().min(12)];
    task(plan.u("ent"), || {
        // the same objects made, used and dropped again and again
        let mut left = vec![];
        for _ in 0..7 {
            let Some(mut x) = Session::new(0, plan, None, false) else { return };
            once(&mut x, ops);
            once(&mut x, ops);
            if violated() {
                return;
            }
            drop_in_lib(x);
            left.push(live());
        }
        w().event(80, left[6] as u64, || format!("bytes still allocated after each life: {:?}", left));
        if left[6] > left[4] && left[4] > left[2] {
            return violate(format!(
                "leak: dropping the objects leaves memory behind: {} bytes after 3 lives, {} after 5, {} after 7",
                left[2], left[4], left[6]
            ));
        }
        // one long life
        let Some(mut x) = Session::new(0, plan, None, false) else { return };
        let (mut mem, mut work, mut disk) = (vec![], vec![], vec![]);
        let cycles = CYCLES[plan.b("long") as usize];
        for c in 0..cycles {
            let s0 = STEPS.load(Ordering::Relaxed);
            once(&mut x, ops);
            if violated() {
                return;
            }
            mem.push(live());
            work.push((STEPS.load(Ordering::Relaxed) - s0) as i64);
            disk.push(w().disk.listing().iter().filter(|(n, _)| n.ends_with(".bin")).map(|(_, b)| b.len() as i64).sum::<i64>());
            if c % 40 == 39 {
                w().event(81, mem[c] as u64, || format!("cycle {}: {} bytes, {} steps, {} stored", c, mem[c], work[c], disk[c]));
            }
        }
        drop_in_lib(x);
        for (what, v, slack) in [("memory", &mem, 15), ("stored bytes", &disk, 15), ("work", &work, 200)] {
            let (a, b, c) = (peak(v, 20, 40), peak(v, 60, 80), peak(v, cycles - 20, cycles));
            let slack = if what == "work" { slack + a / 4 } else { slack };
            if (what != "work" && b - a > slack && c - b > slack) || (what == "work" && c - a > slack && b > a) {
                return violate(format!(
                    "growth: {} of a network in steady use grows without end: {} after 40 repetitions, {} after 80, {} after {}",
                    what, a, b, c, cycles
                ));
            }
        }
        if live() > left[6] + 64 && live() > left[4] + 64 {
            return violate(format!(
                "leak: after a long life dropping the objects leaves {} bytes, after a short one {}",
                live(),
                left[6]
            ));
        }
        w().add("cycles", cycles as u64);
        nontrivial();
    });
}
