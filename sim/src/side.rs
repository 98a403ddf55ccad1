//! H06: sessions that share nothing, run side by side, behave as each does alone.
use crate::bridge::{build, cur, fp_layers, Network, Tensor};
use crate::json::V;
use crate::model::*;
use crate::model::Kind;
use crate::register::{gen_hot, gen_pick, gen_sched, sched_of};
use crate::rng::{hash_str, mix, Rng};
use crate::runner::solo;
use crate::session::{hash_bits, input, mode_of, other_shape, param_grads, snap};
use crate::user::{give_past, Own};
use crate::storage::{arm, disarm, furnish, gen_soft, task};
use crate::world::*;
use rusty_network::layer::{
    convolutional::ConvolutionalLayer, fully_connected::FullyConnectedLayer, max_pool::MaxPoolLayer, softmax::SoftmaxLayer,
};
use std::sync::atomic::Ordering;
use std::sync::Mutex;

pub fn gen_op(r: &mut Rng) -> V {
    let op = match r.below(45) {
        0..=8 => "infer",
        9..=14 => "back",
        15..=16 => "train",
        17 => "test",
        18..=20 => "save",
        21..=22 => "load",
        23 => "append",
        24 => "wrong",
        25..=26 => "tsave",
        27 => "tload",
        28 => "fill",
        29..=30 => "alg",
        31..=33 => "lfwd",
        34..=36 => "lbwd",
        37 => "lclear",
        38 => "lmode",
        40..=41 => "addbad",
        42 => "refill",
        43 => "misfill",
        44 => "make",
        _ => "bfwd",
    };
    let mut v = V::obj().set("op", op).set("seed", r.seed()).set("style", r.range(0, 1)).set("n", r.below(12));
    if ["save", "load", "append", "tsave", "tload"].contains(&op) && r.chance(400) {
        v.put("f", gen_soft(r));
    }
    v
}

pub fn gen(r: &mut Rng) -> V {
    let n = 2 + r.below(3);
    let proto = gen_net(r, &[0, 1, 1], 3, 0);
    let alike = r.chance(600);
    let ss: Vec<V> = (0..n)
        .map(|_| {
            let mut net = if alike { proto.clone() } else { gen_net(r, &[0, 1, 1], 3, 0) };
            if alike {
                // same shapes, other parameters
                let ls: Vec<V> = net.get("layers").arr().iter().map(|l| l.clone().set("seed", r.seed())).collect();
                net.put("layers", V::Arr(ls));
            }
            give_past(r, &mut net, true);
            let k = if r.chance(200) { 14 } else { 6 };
            let mut ops: Vec<V> = (0..1 + r.below(k)).map(|_| gen_op(r)).collect();
            if r.chance(500) {
                // a pass through the network and back with others in between
                let p = r.below(ops.len() as u64 + 1) as usize;
                for (j, o) in ["train", "infer", "back"].iter().enumerate() {
                    ops.insert((p + j).min(ops.len()), V::obj().set("op", *o).set("seed", r.seed()).set("style", 1));
                }
            }
            for (a, b) in [("save", "load"), ("tsave", "tload"), ("save", "append")] {
                if r.chance(250) {
                    // stored, and read again while the others go on
                    let p = r.below(ops.len() as u64 + 1) as usize;
                    let q = p + 1 + r.below((ops.len() - p) as u64 + 1) as usize;
                    for (at, o) in [(p, a), (q, b)] {
                        let v = V::obj().set("op", o).set("n", r.below(4));
                        ops.insert(at.min(ops.len()), if r.chance(400) { v.set("f", gen_soft(r)) } else { v });
                    }
                }
            }
            V::obj().set("net", net).set("train", r.chance(500)).set("ops", V::Arr(ops))
        })
        .collect();
    let threads = r.chance(700);
    let edges = threads && r.chance(650);
    V::obj()
        .set("ss", V::Arr(ss))
        .set("threads", threads)
        .set("same", r.chance(700))
        .set("edges", edges)
        .set("share", r.chance(400))
        .set("ent", r.seed())
        .set("sched", gen_sched(r, edges))
        .set("hot", gen_hot(r, edges))
        .set("pick", gen_pick(r))
}

/// one user of the library with objects of its own
pub struct Session<'a> {
    id: usize,
    plan: &'a V,
    shared: Option<&'a Tensor>,
    pub net: Network,
    pub own: Own,
    spec: Layer,
    pub x: Tensor,
    pub y: Tensor,
    pub t: Tensor,
    next: usize,
    log: Vec<(String, u64)>,
}

type R = Result<u64, String>;

impl<'a> Session<'a> {
    /// `flat`: no layer is a network of its own
    pub fn new(id: usize, plan: &'a V, shared: Option<&'a Tensor>, flat: bool) -> Option<Session<'a>> {
        let train = plan.b("train");
        let mut spec = Net::new(plan.get("net"));
        for l in spec.layers.iter_mut().filter(|_| flat) {
            l.pre &= !64;
        }
        let net = build(&spec, mode_of(train)).ok()?;
        let first = spec.layers.first().cloned().unwrap_or(Layer {
            kind: Kind::Soft,
            name: "own".into(),
            inp: [3, 1, 1],
            out: [3, 1, 1],
            pre: 0,
        });
        let r = lib(|| {
            let mut o = Own::make(&first)?;
            if train {
                o.d().switch_to_training();
            }
            let t = cur::tensor([3, 2, 1], &values(6, 1, id as u64 + 5));
            Ok::<_, &'static str>((o, t, cur::tensor(first.inp, &vec![0.5; size(first.inp)]), cur::tensor(first.out, &vec![0.0; size(first.out)])))
        });
        let (own, t, x, y) = r.ok()?.ok()?;
        Some(Session { id, plan, shared, net, own, spec: first, x, y, t, next: 0, log: vec![] })
    }
    fn done(&self) -> bool {
        self.next >= self.plan.get("ops").arr().len().min(24)
    }
    fn step(&mut self) {
        let o = &self.plan.get("ops").arr()[self.next];
        self.next += 1;
        let id = self.id;
        w().event(70, id as u64, || format!("== session {}: {}", id, o.text()));
        arm(&V::obj().set("max_io", o.get("f").u("max_io")).set("eintr", o.get("f").get("eintr").clone()));
        let r = lib(|| self.act(o));
        disarm();
        let h = match r {
            Ok(Ok(h)) => h,
            Ok(Err(_)) => 1,
            Err(p) => {
                violate(format!("panic: session {} {}: {}", id, o.s("op"), p));
                2
            }
        };
        w().count(&format!("{} {}", o.s("op"), if h == 1 { "refused" } else { "done" }));
        w().event(71, h, || format!("   session {} -> {:x}", id, h));
        self.log.push((o.s("op").to_string(), h));
    }
    /// runs as library code
    pub fn act(&mut self, o: &V) -> R {
        let e = |s: &'static str| s.to_string();
        let b = |s: Box<dyn std::error::Error>| s.to_string();
        let path = format!("s{}.bin", self.id);
        let tpath = format!("t{}.bin", self.id);
        match o.s("op") {
            "infer" => {
                let sh = cur::sh(self.net.get_input_shape());
                match self.shared {
                    Some(s) if o.u("n") % 2 == 0 && cur::sh(s.get_shape()) == sh => self.net.infer(s).map_err(e)?,
                    _ => self.net.infer(&cur::t(&input(sh, o))).map_err(e)?,
                }
                Ok(self.states())
            }
            "back" => {
                let sh = cur::sh(self.net.get_output_shape());
                self.net.backward(&cur::t(&input(sh, o))).map_err(e)?;
                Ok(self.params())
            }
            "train" => {
                self.net.switch_to_training();
                Ok(self.params())
            }
            "test" => {
                self.net.switch_to_inference();
                Ok(3)
            }
            "save" => {
                self.net.save_to_file(&path).map_err(b)?;
                Ok(4)
            }
            "load" => {
                let mut n = Network::new(mode_of(o.u("n") % 2 == 0));
                let r = n.load_from_file(&path).map_err(b);
                if r.is_ok() {
                    self.net = n;
                }
                r?;
                Ok(self.all())
            }
            "append" => {
                if self.net.get_layers().len() > 8 {
                    return Ok(5);
                }
                let r = self.net.load_from_file(&path).map_err(b);
                Ok(mix(r.is_ok() as u64, self.all()))
            }
            "wrong" => {
                let sh = other_shape(cur::sh(self.net.get_input_shape()), o.u("n"));
                let r = self.net.infer(&cur::t(&input(sh, o)));
                Ok(mix(r.is_ok() as u64, self.all()))
            }
            "tsave" => {
                self.t.save_to_file(&tpath).map_err(b)?;
                Ok(6)
            }
            "tload" => {
                self.t = Tensor::from_file(&tpath).map_err(b)?;
                Ok(self.tensor())
            }
            "fill" => {
                if o.u("n") % 2 == 0 {
                    self.t.fill_with_uniform(2.0, 3.0);
                } else {
                    self.t.fill_with_gaussian(2.5, 0.03);
                }
                // the values are random: only their range is comparable
                let ok = cur::elements(&self.t).iter().all(|v| (2.0..=3.0).contains(v));
                self.t.fill_with_value(o.u("n") as f32);
                Ok(8 + ok as u64)
            }
            "alg" => {
                let s = cur::sh(self.t.get_shape());
                let other = cur::tensor(s, &values(size(s), 1, o.u("seed")));
                match o.u("n") % 4 {
                    0 => Tensor::add_to_self(&mut self.t, &other),
                    1 => Tensor::multiply_elementwise_self(&mut self.t, &other),
                    2 => {
                        let mut res = cur::tensor([s[0], s[0], 1], &vec![0.0; (s[0] * s[0]) as usize]);
                        let r = Tensor::matrix_multiply_transpose_second(&self.t, &other, &mut res);
                        return Ok(mix(r.is_ok() as u64, hash_bits(&cur::elements(&res))));
                    }
                    _ => {
                        let mut mask = cur::tensor(s, &vec![0.0; size(s)]);
                        let r = Tensor::relu_self_and_store_mask(&mut self.t, &mut mask);
                        return Ok(mix(mix(r.is_ok() as u64, self.tensor()), hash_bits(&cur::elements(&mask))));
                    }
                }
                Ok(mix(self.tensor(), hash_bits(&[self.t.get_norm()])))
            }
            "lfwd" => {
                self.x = cur::t(&input(self.spec.inp, o));
                let r = self.own.d().forward(&self.x, &mut self.y).map_err(e);
                Ok(mix(r.is_ok() as u64, hash_bits(&cur::elements(&self.y))))
            }
            "lbwd" => {
                let g = cur::t(&input(self.spec.out, o));
                let mut out = cur::tensor(self.spec.inp, &vec![0.0; size(self.spec.inp)]);
                let r = self.own.d().backward(&self.x, &self.y, &g, &mut out);
                Ok(mix(mix(r.is_ok() as u64, hash_bits(&cur::elements(&out))), self.lparams()))
            }
            "addbad" => {
                // a layer that does not fit is refused and gone
                let out = cur::sh(self.net.get_output_shape());
                let q = other_shape(out, o.u("seed") % 6);
                let q = q.map(|v| v.clamp(1, 64));
                if self.net.get_layers().is_empty() || q == out {
                    return Ok(5);
                }
                let name = "odd".to_string();
                let r = match o.u("n") % 4 {
                    0 => self.net.add_layer(SoftmaxLayer::new(cur::shape(q), &name)?),
                    1 => self.net.add_layer(MaxPoolLayer::new(cur::shape([1, 1, 1]), cur::shape(q), 1, &name)?),
                    2 => self.net.add_layer(ConvolutionalLayer::new(cur::shape([1, 1, q[2]]), cur::shape(q), 1, 2, &name)?),
                    _ if out == [q[0], 1, 1] => return Ok(5),
                    _ => self.net.add_layer(FullyConnectedLayer::new(q[0], 2, &name)),
                };
                Ok(mix(r.is_ok() as u64, self.all()))
            }
            "refill" => {
                let spec = self.spec.clone();
                self.own.fill(&spec)?;
                Ok(self.lparams())
            }
            "misfill" => {
                let spec = self.spec.clone();
                let r = crate::session::misfill(&mut self.own, &spec, o.u("seed") % 36);
                Ok(mix(if r == Some(false) { 2 } else { 3 }, self.lparams()))
            }
            "make" => {
                let mut x = Own::make(&self.spec)?;
                x.d().switch_to_training();
                let mut y = cur::tensor(self.spec.out, &vec![0.0; size(self.spec.out)]);
                let r = x.d().forward(&cur::t(&input(self.spec.inp, o)), &mut y).map_err(e);
                Ok(mix(r.is_ok() as u64, hash_bits(&cur::elements(&y))))
            }
            "lclear" => {
                self.own.d().clear_gradients();
                Ok(self.lparams())
            }
            "lmode" => {
                if o.u("n") % 3 == 0 {
                    self.own.d().switch_to_inference();
                } else {
                    self.own.d().switch_to_training();
                }
                Ok(self.lparams())
            }
            "bfwd" => {
                // a layer that lives for one call, built from the stored form of the own one
                let s = self.own.d().get_serialized();
                let mut n = Network::new(mode_of(false));
                s.add_to_network(&mut n).map_err(e)?;
                n.infer(&cur::t(&input(self.spec.inp, o))).map_err(e)?;
                Ok(hash_bits(&cur::elements(n.get_output().map_err(e)?)))
            }
            _ => Ok(0),
        }
    }
    fn tensor(&self) -> u64 {
        let s = cur::sh(self.t.get_shape());
        mix(hash_bits(&cur::elements(&self.t)), hash_str(&format!("{:?}", s)))
    }
    fn states(&self) -> u64 {
        let mut h = 11;
        let mut i = 0;
        while let Ok(t) = self.net.get_intermediate_state(i) {
            h = mix(h, hash_bits(&cur::elements(t)));
            i += 1;
        }
        h
    }
    fn params(&self) -> u64 {
        let mut h = 12;
        for l in self.net.get_layers() {
            for p in param_grads(l.as_ref()).unwrap_or_default() {
                h = mix(h, hash_bits(&p));
            }
        }
        h
    }
    fn lparams(&mut self) -> u64 {
        param_grads(self.own.d()).unwrap_or_default().iter().fold(13, |h, p| mix(h, hash_bits(p)))
    }
    fn all(&self) -> u64 {
        let s = snap(&self.net);
        mix(hash_str(&format!("{:?} {:?} {:?} {:?}", s.mode, s.modes, s.inp, s.out)), self.states())
    }
    fn finish(&mut self) {
        let r = lib(|| {
            let l = fp_layers(&self.net);
            mix(mix(mix(self.all(), self.params()), self.tensor()), hash_str(&format!("{:?}", l)))
        });
        match r {
            Ok(h) => self.log.push(("final state".into(), h)),
            Err(p) => violate(format!("panic: {}", p)),
        }
    }
}

fn files(id: usize) -> u64 {
    let l = w().disk.listing();
    let mut h = 1;
    for (n, d) in l {
        if n.ends_with(&format!("/s{}.bin", id)) || n.ends_with(&format!("/t{}.bin", id)) {
            // the order inside a file depends on hash seeds, its length does not
            h = mix(mix(h, hash_str(&n)), d.len() as u64);
        }
    }
    h
}

pub fn run(plan: &V) {
    furnish(false);
    let ent = plan.u("ent");
    let ss: Vec<&V> = plan.get("ss").arr().iter().take(5).collect();
    // an input all of them may read
    let mut shared = None;
    if let (true, Some(s)) = (plan.b("share"), ss.first()) {
        let sh = Net::new(s.get("net")).inp;
        task(mix(ent, 1), || shared = lib(|| cur::tensor(sh, &values(size(sh), 1, ent))).ok());
    }
    let shared_before = shared.as_ref().map(|t| hash_bits(&cur::elements(t)));
    let sh = shared.as_ref();
    // each alone
    let mut alone: Vec<Vec<(String, u64)>> = vec![];
    for (i, s) in ss.iter().enumerate() {
        let r = solo(|| {
            let mut log = vec![];
            let l = &mut log;
            task(mix(ent, 100 + i as u64), || {
                let Some(mut x) = Session::new(i, s, sh, true) else { return };
                while !x.done() && !violated() {
                    x.step();
                }
                x.finish();
                *l = x.log;
            });
            log.push(("files".into(), files(i)));
            V::Arr(log.into_iter().map(|(a, b)| V::obj().set("o", a).set("h", format!("{:x}", b))).collect())
        });
        match r {
            Err(m) => return violate(m),
            Ok(v) => alone.push(
                v.arr().iter().map(|x| (x.s("o").to_string(), u64::from_str_radix(x.s("h"), 16).unwrap_or(0))).collect(),
            ),
        }
    }
    // together
    let logs: Mutex<Vec<Vec<(String, u64)>>> = Mutex::new(vec![vec![]; ss.len()]);
    let sched = sched_of(plan);
    if plan.b("threads") {
        EDGE_POINTS.store(plan.b("edges"), Ordering::Relaxed);
        let mut bodies: Vec<(TaskCfg, Body)> = vec![];
        for (i, s) in ss.iter().enumerate() {
            let mut cfg = TaskCfg::new(mix(ent, 100 + i as u64));
            cfg.same_pid = plan.b("same");
            let logs = &logs;
            bodies.push((
                cfg,
                Box::new(move || {
                    let Some(mut x) = Session::new(i, s, sh, false) else { return };
                    while !x.done() && !violated() {
                        x.step();
                    }
                    x.finish();
                    logs.lock().unwrap()[i] = x.log;
                }),
            ));
        }
        run_tasks(sched, bodies);
        EDGE_POINTS.store(false, Ordering::Relaxed);
        if w().switches > 1 {
            nontrivial();
        }
    } else {
        task(mix(ent, 99), || {
            let mut xs: Vec<Option<Session>> = ss.iter().enumerate().map(|(i, s)| Session::new(i, s, sh, false)).collect();
            let mut k = 0;
            loop {
                let live: Vec<usize> =
                    (0..xs.len()).filter(|&i| xs[i].as_ref().map(|x| !x.done()).unwrap_or(false)).collect();
                if live.is_empty() || violated() {
                    break;
                }
                let pick = sched.list.get(k).map(|s| s.0 as usize + s.1 as usize).unwrap_or(k);
                k += 1;
                xs[live[pick % live.len()]].as_mut().unwrap().step();
            }
            for (i, x) in xs.iter_mut().enumerate() {
                if let Some(x) = x {
                    x.finish();
                    logs.lock().unwrap()[i] = std::mem::take(&mut x.log);
                }
            }
        });
        if ss.len() > 1 {
            nontrivial();
        }
    }
    if violated() {
        return;
    }
    let mut logs = logs.into_inner().unwrap();
    for i in 0..ss.len() {
        logs[i].push(("files".into(), files(i)));
        w().add("operations compared", logs[i].len() as u64);
        let n = logs[i].len().max(alone[i].len());
        for k in 0..n {
            let (a, b) = (alone[i].get(k), logs[i].get(k));
            if a != b {
                let what = b.or(a).map(|x| x.0.clone()).unwrap_or_default();
                return violate(format!(
                    "influence: step {} ({}) of session {} gives {:x?} next to the others and {:x?} alone",
                    k,
                    what,
                    i,
                    b.map(|x| x.1),
                    a.map(|x| x.1)
                ));
            }
        }
    }
    if shared.as_ref().map(|t| hash_bits(&cur::elements(t))) != shared_before {
        violate("influence: a tensor that was only read has changed".into());
    }
}
