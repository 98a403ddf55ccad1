//! H07: histories of tensor operations against a plain array model, with files that fail, crash and restart.
use crate::bridge::{cur, Tensor};
use crate::json::V;
use crate::model::{at, forward1, size, values, Ev, Kind, Layer, Sh, Sum, U};
use crate::rng::{mix, Rng};
use crate::storage::{arm, bury, crashed, disarm, furnish, gen_crash, gen_hard, gen_soft, process};
use crate::world::*;
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::operations::convolution as conv;

const OPS: &[&str] = &[
    "set", "set", "set", "get", "get", "value", "vec", "vec", "clone", "clone", "new", "empty", "add", "add", "adds",
    "adds", "scale", "scales", "muls", "muls", "mul", "mul", "dot", "norm", "relu", "relu", "tr", "tr", "mm", "mm", "mt1",
    "mt1", "mt2", "mt2", "mmar", "mmar", "list", "list", "list", "rand", "save", "save", "load", "load", "eq", "shape",
    "conv", "conv", "cout", "cbias", "cker", "restart", "power", "soft", "pool", "origin", "fit",
];

/// operations whose cost is more than linear in the number of elements
const HEAVY: &[&str] = &["mm", "mt1", "mt2", "mmar", "restart", "power"];

fn dim(r: &mut Rng) -> i64 {
    match r.below(40) {
        0 => 0,
        1 => r.range(6, 20),
        _ => r.range(1, 5),
    }
}

pub fn gen(r: &mut Rng) -> V {
    // a few dimensions, so that shapes fit each other often
    let kind = r.below(400);
    let d: Vec<i64> = match kind {
        0..=11 => (0..3).map(|_| r.range(1, 40)).collect(),
        12..=17 => vec![r.range(100, 1000), 1, 2],
        // long and thin: sums of hundreds of products
        20..=25 => vec![r.range(65, 300), r.range(1, 4), r.range(1, 4)],
        18..=19 => vec![r.range(250, 400), r.range(250, 300), 1],
        _ => (0..3).map(|_| dim(r)).collect(),
    };
    let large = (12..=19).contains(&kind);
    let thin = (20..=25).contains(&kind);
    let k = if r.chance(500) { 1 } else { r.range(1, 3) };
    let n = 3 + r.below(4);
    let ts: Vec<V> = (0..n)
        .map(|_| {
            let sh = match r.below(12) {
                0 => vec![dim(r), dim(r), dim(r)],
                1 => vec![1, 1, 1],
                2 => vec![d[0], 1, k],
                _ if large => {
                    let mut v = d.clone();
                    let by = r.below(3) as usize;
                    if r.chance(500) {
                        v.rotate_left(by);
                    }
                    v
                }
                _ if thin => {
                    let mut v = vec![d[r.below(2) as usize], d[1 + r.below(2) as usize], k];
                    if r.chance(500) {
                        v.swap(0, 1);
                    }
                    v
                }
                _ => vec![d[r.below(3) as usize], d[r.below(3) as usize], k],
            };
            let style = if r.chance(10) { 8 } else { [0, 0, 1, 1, 1, 3, 4][r.below(7) as usize] };
            V::obj().set("sh", sh).set("style", style).set("seed", r.seed())
        })
        .collect();
    let m = if r.chance(150) && !large { 60 } else { 18 };
    let steps: Vec<V> = (0..2 + r.below(m))
        .map(|_| {
            let mut op = OPS[r.below(OPS.len() as u64) as usize];
            while large && HEAVY.contains(&op) {
                op = OPS[r.below(OPS.len() as u64) as usize];
            }
            let mut s = V::obj()
                .set("op", op)
                .set("a", r.below(n))
                .set("b", r.below(n))
                .set("c", r.below(n))
                .set("n", r.below(60))
                .set("seed", r.seed())
                .set("style", [0, 1, 1, 3, 4, if r.chance(100) { 2 } else { 0 }][r.below(6) as usize]);
            if op == "save" || op == "load" {
                let f = match r.below(10) {
                    0..=3 => V::obj(),
                    4..=5 => gen_soft(r),
                    6..=7 => gen_hard(r),
                    _ if op == "save" => gen_crash(r),
                    _ => V::obj(),
                };
                s.put("f", f);
            }
            s
        })
        .collect();
    V::obj().set("ts", V::Arr(ts)).set("steps", V::Arr(steps)).set("ent", r.seed())
}

#[derive(Clone, PartialEq, Debug)]
struct M {
    sh: Sh,
    d: Vec<f32>,
}
impl M {
    fn b(&self) -> (Sh, Vec<u32>) {
        (self.sh, self.d.iter().map(|f| f.to_bits()).collect())
    }
}

struct St {
    lib: Vec<Tensor>,
    m: Vec<M>,
    /// per file: what it may hold (reading it does not narrow that down: a power failure may still take back what an
    /// unacknowledged save did)
    files: Vec<Vec<Option<M>>>,
    useful: u64,
}

const FILES: usize = 2;

fn fname(i: usize) -> String {
    format!("tensor{}.bin", i)
}
fn spec(v: &V) -> M {
    let g = |i: usize| v.get("sh").at(i).int().clamp(0, 1024) as u32;
    let sh = [g(0), g(1), g(2)];
    M { sh, d: values(size(sh), v.i("style"), v.u("seed")) }
}
fn build(m: &M) -> Result<Tensor, String> {
    lib(|| {
        let mut t = Tensor::new(cur::shape(m.sh));
        t.fill_with_vec(m.d.clone()).map(|_| t).map_err(|e| format!("a vector of {} items is refused: {}", m.d.len(), e))
    })
    .unwrap_or_else(|p| Err(format!("panic: {}", p)))
}

pub fn run(plan: &V) {
    furnish(false);
    let ent = plan.u("ent");
    let mut st = St { lib: vec![], m: vec![], files: vec![vec![None]; FILES], useful: 0 };
    let mut ts: Vec<M> = plan.get("ts").arr().iter().take(8).map(spec).collect();
    if ts.is_empty() {
        ts.push(M { sh: [2, 2, 1], d: vec![1.0; 4] });
    }
    let steps = plan.get("steps").arr();
    let mut i = 0;
    let mut life = 0;
    while i < steps.len() && !violated() {
        life += 1;
        let next = std::sync::atomic::AtomicUsize::new(i);
        let s = &mut st;
        process(true, mix(ent, life), || {
            s.lib.clear();
            s.m = ts.clone();
            for m in &ts {
                match build(m) {
                    Ok(t) => s.lib.push(t),
                    Err(e) => return violate(format!("build: {}", e)),
                }
            }
            let mut k = next.load(std::sync::atomic::Ordering::Relaxed);
            while k < steps.len() && !violated() {
                let o = &steps[k];
                k += 1;
                next.store(k, std::sync::atomic::Ordering::Relaxed);
                if o.s("op") == "restart" || o.s("op") == "power" {
                    w().count(o.s("op"));
                    break;
                }
                w().event(90, k as u64, || format!("== {}", o.text()));
                if let Err(e) = step(s, o) {
                    return violate(format!("{}: {}", e.0, e.1));
                }
                if crashed() {
                    break;
                }
                if let Some(e) = compare(s) {
                    return violate(format!("content: after {}: {}", o.text(), e));
                }
            }
            s.lib.clear();
        });
        i = next.into_inner().max(i + 1);
        bury();
        if !violated() && steps[i.min(steps.len()) - 1].s("op") == "power" {
            w().event(20, 0, || "== power failure, machine restarts".into());
            w().count("power-loss");
            w().disk.power_loss(&mut Rng::new(steps[i - 1].u("seed")));
        }
    }
    if st.useful > 1 {
        nontrivial();
    }
}

/// every tensor against the model, element by element
fn compare(s: &mut St) -> Option<String> {
    for i in 0..s.lib.len() {
        let t = &s.lib[i];
        let r = lib(|| (cur::sh(t.get_shape()), cur::elements(t), t.total_items()));
        match r {
            Err(p) => return Some(format!("reading tensor {} panics: {}", i, p)),
            Ok((sh, d, n)) => {
                if sh != s.m[i].sh {
                    return Some(format!("tensor {} has shape {:?} instead of {:?}", i, sh, s.m[i].sh));
                }
                if n as usize != size(sh) {
                    return Some(format!("tensor {} of shape {:?} says it has {} items", i, sh, n));
                }
                if let Some(k) = (0..d.len()).find(|&k| !same(d[k], s.m[i].d[k])) {
                    return Some(format!("element {} of tensor {} is {:?} instead of {:?}", k, i, d[k], s.m[i].d[k]));
                }
            }
        }
    }
    None
}
fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

type E = (&'static str, String);

/// take over what the library computed, if it is what the operation defines up to rounding
fn adopt(s: &mut St, i: usize, want: Vec<(f64, f64)>, what: &str) -> Result<(), E> {
    let t = &s.lib[i];
    let got = lib(|| cur::elements(t)).map_err(|p| ("panic", p))?;
    if got.len() != want.len() || cur::sh(t.get_shape()) != s.m[i].sh {
        return Err(("content", format!("{} changed the shape of its result", what)));
    }
    for (k, (v, e)) in want.iter().enumerate() {
        if v.abs() + 2.0 * e < 1e30 || (*e == 0.0 && v.is_finite()) {
            let d = (got[k] as f64 - v).abs();
            if !(d <= 2.0 * e + 1e-30) {
                return Err((
                    "content",
                    format!("{}: element {} is {} instead of {} (tolerance {:.2e})", what, k, got[k], v, 2.0 * e),
                ));
            }
        }
    }
    s.useful += want.iter().any(|w| w.0 != 0.0) as u64;
    s.m[i].d = got;
    Ok(())
}
fn exact(s: &mut St, i: usize, d: Vec<f32>) {
    s.useful += 1;
    s.m[i].d = d;
}

fn step(s: &mut St, o: &V) -> Result<(), E> {
    let n = s.lib.len();
    let id = |k: &str| (o.u(k) % n as u64) as usize;
    let (a, b, c) = (id("a"), id("b"), id("c"));
    let (num, seed) = (o.u("n"), o.u("seed"));
    let mut r = Rng::new(seed);
    let (ma, mb, mc) = (s.m[a].clone(), s.m[b].clone(), s.m[c].clone());
    // operands that are also results are copied first, as a caller has to
    let (ta, tb) = (lib(|| s.lib[a].clone()), lib(|| s.lib[b].clone()));
    let (ta, tb) = (ta.map_err(|p| ("panic", p))?, tb.map_err(|p| ("panic", p))?);
    let val = values(1, o.i("style"), seed)[0];
    let op = o.s("op");
    w().count(op);
    let pan = |p: String| ("panic", format!("{}: {}", op, p));
    match op {
        "set" | "get" => {
            let pick = |d: u32, r: &mut Rng| match r.below(24) {
                0 => d,
                1 => d + 1,
                2 => u32::MAX,
                _ => r.below(d.max(1) as u64) as u32,
            };
            let x = [pick(ma.sh[0], &mut r), pick(ma.sh[1], &mut r), pick(ma.sh[2], &mut r)];
            let fits = x[0] < ma.sh[0] && x[1] < ma.sh[1] && x[2] < ma.sh[2];
            let ix = || match num % 3 {
                0 if x[1] == 0 && x[2] == 0 => TensorIndex::index_1d(x[0]),
                1 if x[2] == 0 => TensorIndex::index_2d(x[0], x[1]),
                _ => TensorIndex { i: x[0], j: x[1], k: x[2] },
            };
            if op == "set" {
                let t = &mut s.lib[a];
                lib(|| t.set_item(&ix(), val)).map_err(pan)?;
                if fits {
                    s.m[a].d[at(ma.sh, x[0], x[1], x[2])] = val;
                    s.useful += 1;
                }
            } else {
                let g = lib(|| s.lib[a].get_item(&ix())).map_err(pan)?;
                let e = if fits { ma.d[at(ma.sh, x[0], x[1], x[2])] } else { 0.0 };
                if !same(g, e) {
                    return Err(("content", format!("item {:?} of a {:?} tensor reads {} instead of {}", x, ma.sh, g, e)));
                }
            }
        }
        "value" => {
            let t = &mut s.lib[a];
            lib(|| t.fill_with_value(val)).map_err(pan)?;
            exact(s, a, vec![val; ma.d.len()]);
        }
        "vec" => {
            let len = match num % 5 {
                0 => ma.d.len() + 1,
                1 => ma.d.len().saturating_sub(1),
                _ => ma.d.len(),
            };
            let d = values(len, o.i("style"), seed);
            let t = &mut s.lib[a];
            let ok = lib(|| t.fill_with_vec(d.clone()).is_ok()).map_err(pan)?;
            if ok != (len == ma.d.len()) {
                return Err(("refusal", format!("a vector of {} items for {} elements: accepted {}", len, ma.d.len(), ok)));
            }
            if ok {
                exact(s, a, d);
            }
        }
        "clone" => {
            s.lib[c] = ta;
            s.m[c] = ma;
        }
        "new" => {
            let g = |r: &mut Rng| if r.chance(60) { 0 } else { r.below(5) as u32 + 1 };
            let x = [g(&mut r), g(&mut r), g(&mut r)];
            let (t, sh) = match num % 4 {
                0 => (lib(|| Tensor::new(TensorShape::new_1d(x[0]))), [x[0], 1, 1]),
                1 => (lib(|| Tensor::new(TensorShape::new_2d(x[0], x[1]))), [x[0], x[1], 1]),
                2 => (lib(|| Tensor::new(TensorShape::new(x[0], x[1], x[2]))), x.map(|d| d.max(1))),
                _ => (lib(|| Tensor::new(TensorShape { di: x[0], dj: x[1], dk: x[2] })), x),
            };
            s.lib[c] = t.map_err(pan)?;
            s.m[c] = M { sh, d: vec![0.0; size(sh)] };
        }
        "empty" => {
            s.lib[c] = lib(Tensor::empty).map_err(pan)?;
            s.m[c] = M { sh: [1, 1, 1], d: vec![0.0] };
        }
        "add" | "mul" => {
            let t = &mut s.lib[c];
            let plus = op == "add";
            lib(|| if plus { Tensor::add(&ta, &tb, t) } else { Tensor::multiply_elementwise(&ta, &tb, t) }).map_err(pan)?;
            if ma.sh == mb.sh && ma.sh == mc.sh {
                let d = ma.d.iter().zip(&mb.d).map(|(x, y)| if plus { x + y } else { x * y }).collect();
                exact(s, c, d);
            }
        }
        "adds" | "muls" => {
            let t = &mut s.lib[a];
            let plus = op == "adds";
            lib(|| if plus { Tensor::add_to_self(t, &tb) } else { Tensor::multiply_elementwise_self(t, &tb) }).map_err(pan)?;
            if ma.sh == mb.sh {
                let d = ma.d.iter().zip(&mb.d).map(|(x, y)| if plus { x + y } else { x * y }).collect();
                exact(s, a, d);
            }
        }
        "scale" => {
            let t = &mut s.lib[c];
            lib(|| Tensor::scale(&ta, val, t)).map_err(pan)?;
            if ma.sh == mc.sh {
                exact(s, c, ma.d.iter().map(|x| x * val).collect());
            }
        }
        "scales" => {
            let t = &mut s.lib[a];
            lib(|| Tensor::scale_self(t, val)).map_err(pan)?;
            exact(s, a, ma.d.iter().map(|x| x * val).collect());
        }
        "dot" => {
            let g = lib(|| Tensor::dot(&ta, &tb)).map_err(pan)?;
            if g.is_ok() != (ma.sh == mb.sh) {
                return Err(("refusal", format!("dot product of {:?} and {:?}: accepted {}", ma.sh, mb.sh, g.is_ok())));
            }
            if let Ok(g) = g {
                let mut x = Sum::default();
                for (p, q) in ma.d.iter().zip(&mb.d) {
                    x.add(*p as f64, *q as f64, 0.0);
                }
                near(g, x.done(), "dot product")?;
                s.useful += 1;
            }
        }
        "norm" => {
            let g = lib(|| ta.get_norm()).map_err(pan)?;
            let mut x = Sum::default();
            for p in &ma.d {
                x.add(*p as f64, *p as f64, 0.0);
            }
            let (v, _) = x.done();
            let e = (ma.d.len() as f64 + 4.0) * U * v.sqrt() + 1e-18;
            near(g, (v.sqrt(), e), "norm")?;
            s.useful += 1;
        }
        "relu" => {
            // the mask goes to c
            if a == c || ma.d.iter().any(|x| x.is_nan()) {
                return Ok(());
            }
            let (lo, hi) = (a.min(c), a.max(c));
            let (x, y) = s.lib.split_at_mut(hi);
            let (t, m) = if a < c { (&mut x[lo], &mut y[0]) } else { (&mut y[0], &mut x[lo]) };
            let ok = lib(|| Tensor::relu_self_and_store_mask(t, m).is_ok()).map_err(pan)?;
            if ok != (ma.sh == mc.sh) {
                return Err(("refusal", format!("relu of {:?} with a mask of {:?}: accepted {}", ma.sh, mc.sh, ok)));
            }
            if ok {
                exact(s, a, ma.d.iter().map(|x| if *x > 0.0 { *x } else { 0.0 }).collect());
                exact(s, c, ma.d.iter().map(|x| if *x > 0.0 { 1.0 } else { 0.0 }).collect());
            }
        }
        "tr" => {
            let t = &mut s.lib[c];
            let ok = lib(|| Tensor::transpose_ij(&ta, t).is_ok()).map_err(pan)?;
            let fits = ma.sh == [mc.sh[1], mc.sh[0], mc.sh[2]];
            if ok != fits {
                return Err(("refusal", format!("transposing {:?} into {:?}: accepted {}", ma.sh, mc.sh, ok)));
            }
            if ok {
                let mut d = mc.d.clone();
                for k in 0..ma.sh[2] {
                    for j in 0..ma.sh[1] {
                        for i in 0..ma.sh[0] {
                            d[at(mc.sh, j, i, k)] = ma.d[at(ma.sh, i, j, k)];
                        }
                    }
                }
                exact(s, c, d);
            }
        }
        "mm" | "mt1" | "mt2" | "mmar" => {
            // mm: c = a*b, mt1: c = a'*b, mt2: c = a*b', mmar: c = max(a*b + bias, 0)
            let (x, y) = match op {
                "mt1" => ([ma.sh[1], ma.sh[0], ma.sh[2]], mb.sh),
                "mt2" => (ma.sh, [mb.sh[1], mb.sh[0], mb.sh[2]]),
                _ => (ma.sh, mb.sh),
            };
            if x[0] as u64 * x[1] as u64 * y[1] as u64 * x[2] as u64 > 2_000_000 {
                return Ok(());
            }
            // a result that fits, most of the time
            if num % 4 != 0 && x[1] == y[0] && x[2] == y[2] {
                let m = M { sh: [x[0], y[1], x[2]], d: values(size([x[0], y[1], x[2]]), 1, seed) };
                s.lib[c] = build(&m).map_err(|e| ("build", e))?;
                s.m[c] = m;
            }
            let mc = s.m[c].clone();
            let bias = M { sh: if num % 7 == 0 { ma.sh } else { mc.sh }, d: vec![] };
            let bias = M { d: values(size(bias.sh), o.i("style"), seed ^ 9), ..bias };
            let tbias = build(&bias).map_err(|e| ("build", e))?;
            let fits = x[2] == y[2] && x[2] == mc.sh[2] && x[1] == y[0] && x[0] == mc.sh[0] && y[1] == mc.sh[1];
            let t = &mut s.lib[c];
            let ok = lib(|| match op {
                "mm" => {
                    Tensor::matrix_multiply(&ta, &tb, t);
                    None
                }
                "mt1" => Some(Tensor::matrix_multiply_transpose_first(&ta, &tb, t).is_ok()),
                "mt2" => Some(Tensor::matrix_multiply_transpose_second(&ta, &tb, t).is_ok()),
                _ => {
                    Tensor::matrix_multiply_add_relu(&tb, &ta, &tbias, t);
                    None
                }
            })
            .map_err(pan)?;
            if ok.is_some() && ok != Some(fits) {
                return Err(("refusal", format!("{} of {:?} and {:?} into {:?}: accepted {:?}", op, ma.sh, mb.sh, mc.sh, ok)));
            }
            if fits && (op != "mmar" || bias.sh == mc.sh) {
                let mut want = vec![(0.0, 0.0); mc.d.len()];
                for k in 0..mc.sh[2] {
                    for j in 0..mc.sh[1] {
                        for i in 0..mc.sh[0] {
                            let mut sum = Sum::default();
                            for q in 0..x[1] {
                                let p1 = if op == "mt1" { at(ma.sh, q, i, k) } else { at(ma.sh, i, q, k) };
                                let p2 = if op == "mt2" { at(mb.sh, j, q, k) } else { at(mb.sh, q, j, k) };
                                sum.add(ma.d[p1] as f64, mb.d[p2] as f64, 0.0);
                            }
                            if op == "mmar" {
                                sum.add(bias.d[at(mc.sh, i, j, k)] as f64, 1.0, 0.0);
                            }
                            let (v, e) = sum.done();
                            // max(NaN, 0) is left open
                            want[at(mc.sh, i, j, k)] = (if op == "mmar" && !v.is_nan() { v.max(0.0) } else { v }, e);
                        }
                    }
                }
                adopt(s, c, want, op)?;
            }
        }
        "list" => {
            if a == c {
                return Ok(());
            }
            // the elements of a (or as many as the list has) are added to elements of c
            let items = mc.d.len() as u64;
            let len = match num % 8 {
                0 => ma.d.len() + 1 + (num / 8) as usize,
                1..=3 => r.below(ma.d.len() as u64 + 1) as usize,
                _ => ma.d.len(),
            };
            let mut l: Vec<u32> = (0..len).map(|_| r.below(items.max(1)) as u32).collect();
            if num % 5 == 0 && !l.is_empty() {
                let k = r.below(l.len() as u64) as usize;
                l[k] = [items as u32, items as u32 + 1, u32::MAX][r.below(3) as usize];
            }
            let fits = len <= ma.d.len() && l.iter().all(|&x| (x as u64) < items);
            let t = &mut s.lib[c];
            let ok = lib(|| Tensor::add_from_index_list(&ta, t, &l).is_ok()).map_err(pan)?;
            if ok != fits {
                return Err((
                    "refusal",
                    format!("a list of {} indices for {} items, target of {}: accepted {}", len, ma.d.len(), items, ok),
                ));
            }
            if ok {
                let mut sums: Vec<Sum> = mc
                    .d
                    .iter()
                    .map(|x| {
                        let mut s = Sum::default();
                        s.add(*x as f64, 1.0, 0.0);
                        s
                    })
                    .collect();
                for (k, &x) in l.iter().enumerate() {
                    sums[x as usize].add(ma.d[k] as f64, 1.0, 0.0);
                }
                adopt(s, c, sums.into_iter().map(|s| s.done()).collect(), "add_from_index_list")?;
            }
        }
        "rand" => {
            let (lo, hi) = (val.min(1e6).max(-1e6), val.min(1e6).max(-1e6) + (num % 4) as f32);
            if !lo.is_finite() {
                return Ok(());
            }
            let t = &mut s.lib[a];
            lib(|| if num % 2 == 0 { t.fill_with_uniform(lo, hi) } else { t.fill_with_gaussian(lo, num as f32 * 0.1) }).map_err(pan)?;
            let got = lib(|| cur::elements(&s.lib[a])).map_err(pan)?;
            if let Some(x) = got.iter().find(|x| !x.is_finite() || (num % 2 == 0 && !(lo..=hi).contains(x))) {
                return Err(("content", format!("a fill gives {}", x)));
            }
            if got.len() == ma.d.len() {
                s.m[a].d = got;
            }
        }
        "eq" => {
            let g = lib(|| (ta == tb, ta != tb)).map_err(pan)?;
            let e = ma.sh == mb.sh && ma.d == mb.d;
            if g != (e, !e) {
                return Err(("content", format!("equality of tensors {} and {} is {:?} instead of {}", a, b, g, e)));
            }
        }
        "shape" => {
            let x = TensorShape { di: ma.sh[0], dj: ma.sh[1], dk: ma.sh[2] };
            let i = [r.below(6) as u32, r.below(6) as u32, r.below(4) as u32];
            let g = lib(|| {
                (x.total_size() as usize, cur::sh(x.transpose_ij()), x.get(), x.fits_index(&TensorIndex { i: i[0], j: i[1], k: i[2] }))
            })
            .map_err(pan)?;
            let fits = i[0] < ma.sh[0] && i[1] < ma.sh[1] && i[2] < ma.sh[2];
            let e = (size(ma.sh), [ma.sh[1], ma.sh[0], ma.sh[2]], (ma.sh[0], ma.sh[1], ma.sh[2]), fits);
            if g != e {
                return Err(("content", format!("shape {:?}, index {:?}: {:?} instead of {:?}", ma.sh, i, g, e)));
            }
        }
        "conv" | "cout" | "cbias" | "cker" => convolution(s, o, c)?,
        "pool" | "origin" => pooling(s, o, a, c)?,
        "soft" => {
            if num % 4 != 0 && ma.sh != mc.sh {
                let m = M { sh: ma.sh, d: values(ma.d.len(), 1, seed) };
                s.lib[c] = build(&m).map_err(|e| ("build", e))?;
                s.m[c] = m;
            }
            let mc = s.m[c].clone();
            let t = &mut s.lib[c];
            lib(|| Tensor::softmax(&ta, t)).map_err(pan)?;
            if ma.sh == mc.sh && !ma.d.is_empty() {
                let x = Ev::exact(&ma.d);
                let (_, y) = forward1(&Layer { kind: Kind::Soft, name: String::new(), inp: ma.sh, out: ma.sh, pre: 0 }, &x);
                adopt(s, c, y.v.into_iter().zip(y.e).collect(), "softmax")?;
            }
        }
        "fit" => {
            // shapes of all kinds against the definition
            let d = |r: &mut Rng| match r.below(24) {
                0 => 0,
                1 => u32::MAX,
                2 => r.below(1 << 20) as u32,
                _ => r.range(1, 9) as u32,
            };
            let (i, k) = ([d(&mut r), d(&mut r), d(&mut r)], [d(&mut r), d(&mut r), d(&mut r)]);
            let (st, ch) = (if r.chance(60) { d(&mut r) } else { r.range(1, 3) as u32 }, r.below(5) as u32);
            let ok = st > 0 && (0..2).all(|q| k[q] > 0 && k[q] <= i[q] && (i[q] - k[q]) % st == 0);
            let mut res = if ok { [(i[0] - k[0]) / st + 1, (i[1] - k[1]) / st + 1, i[2]] } else { [d(&mut r), d(&mut r), i[2]] };
            let dims = ok.then_some((res[0], res[1]));
            if r.chance(300) {
                let q = r.below(3) as usize;
                res[q] = d(&mut r);
            }
            let k = if r.chance(600) { [k[0], k[1], i[2]] } else { k };
            let same = dims == Some((res[0], res[1]));
            let e = (ok, dims, same && res[2] == i[2], same && i[2] == k[2] && ch < res[2]);
            let (si, sk, sr) = (cur::shape(i), cur::shape(k), cur::shape(res));
            let g = lib(|| {
                let f = Tensor::does_kernel_stride_fit_image(&si, &sk, st);
                (
                    f,
                    f.then(|| Tensor::get_convolution_dim_fit(&si, &sk, st)),
                    Tensor::check_max_pooling_dimensions(&si, &sk, st, &sr),
                    conv::check_convolution_dimensions(&si, &sk, st, &sr, ch).is_ok(),
                )
            })
            .map_err(pan)?;
            if g != e {
                return Err((
                    "refusal",
                    format!("image {:?} kernel {:?} stride {} result {:?} channel {}: fits {:?} instead of {:?}", i, k, st, res, ch, g, e),
                ));
            }
        }
        "save" => {
            let k = num as usize % FILES;
            let f = o.get("f");
            let before = s.files[k].clone();
            arm(f);
            let p = fname(k);
            let ok = lib(|| s.lib[a].save_to_file(&p).is_ok());
            let io = disarm();
            let dead = crashed();
            if io.hard_fired == 0 && !dead {
                w().count("save healthy");
            }
            let ok = match ok {
                Ok(ok) => ok && !dead,
                Err(_) if dead => false,
                Err(p) => return Err(pan(p)),
            };
            if !ok && !dead && io.hard_fired == 0 {
                return Err(("refusal", "saving fails on a healthy disk".into()));
            }
            if ok {
                s.files[k] = vec![Some(ma)];
            } else {
                let mut f = before;
                f.push(Some(ma));
                s.files[k] = f;
            }
        }
        "load" => {
            let k = num as usize % FILES;
            arm(o.get("f"));
            let p = fname(k);
            let g = lib(|| Tensor::from_file(&p).map_err(|e| e.to_string()));
            let io = disarm();
            match g.map_err(pan)? {
                Err(e) => {
                    if io.hard_fired == 0 && !s.files[k].contains(&None) {
                        return Err(("load", format!("{} does not load: {}", p, e)));
                    }
                }
                Ok(t) => {
                    let g = M { sh: cur::sh(t.get_shape()), d: lib(|| cur::elements(&t)).map_err(pan)? };
                    if !s.files[k].iter().flatten().any(|m| m.b() == g.b()) {
                        return Err(("load", format!("{} loads as {:?}, which was not saved there", p, g.sh)));
                    }
                    s.useful += 1;
                    s.lib[c] = t;
                    s.m[c] = g;
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn near(got: f32, want: (f64, f64), what: &str) -> Result<(), E> {
    let (v, e) = want;
    if v.abs() + 2.0 * e < 1e18 && !((got as f64 - v).abs() <= 2.0 * e + 1e-30) {
        return Err(("content", format!("{} is {} instead of {} (tolerance {:.2e})", what, got, v, 2.0 * e)));
    }
    Ok(())
}

/// max pooling of a tensor, with and without the list of where the values come from
fn pooling(s: &mut St, o: &V, a: usize, c: usize) -> Result<(), E> {
    let seed = o.u("seed");
    let mut r = Rng::new(seed);
    if a == c {
        return Ok(());
    }
    let track = o.s("op") == "origin";
    let img = s.m[a].clone();
    let mut mask = [0u32; 2];
    let mut stride = r.range(1, 3) as u32;
    for q in 0..2 {
        let k = r.range(1, (img.sh[q] as i64).clamp(1, 5)) as u32;
        // enlarge the mask until it fits
        mask[q] = if img.sh[q] >= k { img.sh[q] - (img.sh[q] - k) / stride * stride } else { k };
    }
    let wrong = if o.u("n") % 5 == 0 { 1 + r.below(4) } else { 0 };
    let mut out = [0, 1].map(|q| if img.sh[q] >= mask[q] { (img.sh[q] - mask[q]) / stride + 1 } else { 1 }).to_vec();
    out.push(img.sh[2]);
    let mut out: Sh = [out[0], out[1], out[2]];
    let mut len = size(out);
    match wrong {
        1 => out[r.below(3) as usize] += 1,
        2 => stride = 0,
        3 => mask[r.below(2) as usize] = 0,
        4 => len += 1,
        _ => {}
    }
    if wrong == 1 {
        len = size(out);
    }
    let fits = !(1..4).contains(&wrong) && (0..2).all(|q| mask[q] <= img.sh[q]) && !(track && wrong == 4);
    let res = M { sh: out, d: values(size(out), 1, seed ^ 5) };
    s.lib[c] = build(&res).map_err(|e| ("build", e))?;
    s.m[c] = res;
    let sm = cur::shape([mask[0], mask[1], r.range(1, 3) as u32]);
    let before: Vec<u32> = (0..len).map(|_| r.below(1 << 30) as u32).collect();
    let mut list = before.clone();
    let (lo, hi) = (a.min(c), a.max(c));
    let (x, y) = s.lib.split_at_mut(hi);
    let (ti, t) = if a < c { (&x[lo], &mut y[0]) } else { (&y[0], &mut x[lo]) };
    let ok = lib(|| {
        if track {
            Some(Tensor::max_pool_track_origin(ti, &sm, stride, t, &mut list).is_ok())
        } else {
            Tensor::max_pool(ti, &sm, stride, t);
            None
        }
    })
    .map_err(|p| ("panic", format!("{}: {}", o.s("op"), p)))?;
    if ok.is_some_and(|ok| ok != fits) {
        return Err(("refusal", format!("pooling {:?} mask {:?} stride {} into {:?} with a list of {}: accepted {:?}", img.sh, mask, stride, out, len, ok)));
    }
    if !fits {
        if list != before {
            return Err(("effect", "a refused pooling changes the list of origins".into()));
        }
        return Ok(());
    }
    let mut want = vec![(f64::NAN, 0.0); size(out)];
    for k in 0..out[2] {
        for j in 0..out[1] {
            for i in 0..out[0] {
                let window = || {
                    (0..mask[1]).flat_map(move |m| (0..mask[0]).map(move |l| [i * stride + l, j * stride + m, k]))
                };
                let m = window().map(|p| img.d[at(img.sh, p[0], p[1], p[2])]).fold(f32::NEG_INFINITY, |a, b| if a >= b { a } else { b });
                // what pooling does to numbers that are none is left open
                if m.is_nan() || m == f32::NEG_INFINITY || window().any(|p| img.d[at(img.sh, p[0], p[1], p[2])].is_nan()) {
                    continue;
                }
                let n = at(out, i, j, k);
                want[n] = (m as f64, 0.0);
                if m.is_infinite() {
                    want[n].0 = f64::NAN;
                }
                if track {
                    // any of the largest values may be the origin
                    let from = list[n];
                    let good = lib(|| {
                        window().any(|p| {
                            img.d[at(img.sh, p[0], p[1], p[2])] == m
                                && ti.get_data_index(&TensorIndex { i: p[0], j: p[1], k: p[2] }) == from
                        })
                    })
                    .map_err(|p| ("panic", p))?;
                    if !good {
                        return Err(("content", format!("the maximum at {:?} of a pooled {:?} is said to come from item {}", [i, j, k], img.sh, from)));
                    }
                }
            }
        }
    }
    adopt(s, c, want, o.s("op"))
}

/// the convolution and its adjoints, on operands made for the occasion; the result goes to slot c
fn convolution(s: &mut St, o: &V, c: usize) -> Result<(), E> {
    let op = o.s("op");
    let seed = o.u("seed");
    let mut r = Rng::new(seed);
    let m = if r.chance(100) { 8 } else { 3 };
    let st = r.range(1, m) as u32;
    let ker: Sh = [r.range(1, m) as u32, r.range(1, m) as u32, r.range(1, m) as u32];
    let out: Sh = [r.range(1, m) as u32, r.range(1, m) as u32, r.range(1, 4) as u32];
    let img: Sh = [(out[0] - 1) * st + ker[0], (out[1] - 1) * st + ker[1], ker[2]];
    let ch = r.below(out[2] as u64) as u32;
    let style = o.i("style");
    let make = |sh: Sh, k: u64| M { sh, d: values(size(sh), style, seed ^ k) };
    let mut image = make(img, 1);
    let kernel = make(ker, 2);
    let bias = make([1, 1, 1], 3);
    let mut grads = make(out, 4);
    let mut chan = ch;
    let mut stride = st;
    // now and then something does not fit
    let wrong = if o.u("n") % 5 == 0 { 1 + r.below(4) } else { 0 };
    match wrong {
        1 => image = make([img[0] + 1, img[1], img[2] + 1], 1),
        2 => chan = out[2] + r.below(2) as u32,
        3 => stride = if st > 1 { 0 } else { 97 },
        4 => grads = make([out[0] + 1, out[1], out[2]], 4),
        _ => {}
    }
    let (ti, tk, tb, tg) = (build(&image), build(&kernel), build(&bias), build(&grads));
    let (ti, tk, tb, tg) =
        match (ti, tk, tb, tg) {
            (Ok(a), Ok(b), Ok(c), Ok(d)) => (a, b, c, d),
            _ => return Err(("build", "operands of a convolution".into())),
        };
    // the result, holding something already
    let res = match op {
        "conv" => grads.clone(),
        "cout" => image.clone(),
        "cbias" => make([1, 1, 1], 5),
        _ => make(ker, 5),
    };
    s.lib[c] = build(&res).map_err(|e| ("build", e))?;
    s.m[c] = res.clone();
    let t = &mut s.lib[c];
    let relu = o.u("n") % 2 == 0;
    let kernels: Vec<M> = (0..out[2]).map(|k| make(ker, 10 + k as u64)).collect();
    let tks: Result<Vec<Tensor>, String> = kernels.iter().map(build).collect();
    let tks = tks.map_err(|e| ("build", e))?;
    let ok = lib(|| {
        match op {
            "conv" if relu => conv::convolution_bias_relu(&ti, &tk, &tb, stride, t, chan),
            "conv" => conv::convolution_bias(&ti, &tk, &tb, stride, t, chan),
            "cout" => conv::convolution_backprop_outgoing_gradient(&tg, &tks, stride, t),
            "cbias" => conv::convolution_backprop_bias(&tg, chan, t),
            _ => conv::convolution_backprop_kernel(&tg, &ti, stride, chan, t),
        }
        .is_ok()
    })
    .map_err(|p| ("panic", format!("{}: {}", op, p)))?;
    // which of the mistakes concern this operation (a stride does not matter to a single position)
    let strided = out[0] > 1 || out[1] > 1;
    let fits = match (op, wrong) {
        (_, 0) => true,
        ("cbias", w) => w != 2,
        ("cout", 2) => true,
        (_, 3) if stride == 97 => !strided,
        _ => false,
    };
    if ok != fits {
        return Err((
            "refusal",
            format!("{} image {:?} kernel {:?} stride {} result {:?} channel {}: accepted {}", op, image.sh, ker, stride, grads.sh, chan, ok),
        ));
    }
    if !ok {
        return Ok(());
    }
    let mut want: Vec<(f64, f64)> = res.d.iter().map(|x| (*x as f64, 0.0)).collect();
    match op {
        "conv" => {
            for j in 0..out[1] {
                for i in 0..out[0] {
                    let mut x = Sum::default();
                    x.add(bias.d[0] as f64, 1.0, 0.0);
                    for kk in 0..ker[2] {
                        for kj in 0..ker[1] {
                            for ki in 0..ker[0] {
                                x.add(
                                    kernel.d[at(ker, ki, kj, kk)] as f64,
                                    image.d[at(img, i * stride + ki, j * stride + kj, kk)] as f64,
                                    0.0,
                                );
                            }
                        }
                    }
                    let (v, e) = x.done();
                    want[at(out, i, j, chan)] = (if relu && !v.is_nan() { v.max(0.0) } else { v }, e);
                }
            }
        }
        "cbias" => {
            let mut x = Sum::default();
            x.add(res.d[0] as f64, 1.0, 0.0);
            for j in 0..grads.sh[1] {
                for i in 0..grads.sh[0] {
                    x.add(grads.d[at(grads.sh, i, j, chan)] as f64, 1.0, 0.0);
                }
            }
            want[0] = x.done();
        }
        "cker" => {
            for n in 0..ker[2] {
                for m in 0..ker[1] {
                    for l in 0..ker[0] {
                        let mut x = Sum::default();
                        x.add(res.d[at(ker, l, m, n)] as f64, 1.0, 0.0);
                        for j in 0..out[1] {
                            for i in 0..out[0] {
                                x.add(
                                    grads.d[at(out, i, j, chan)] as f64,
                                    image.d[at(img, l + i * stride, m + j * stride, n)] as f64,
                                    0.0,
                                );
                            }
                        }
                        want[at(ker, l, m, n)] = x.done();
                    }
                }
            }
        }
        _ => {
            let mut x: Vec<Sum> = (0..size(img)).map(|_| Sum::default()).collect();
            for (k, kn) in kernels.iter().enumerate() {
                for j in 0..out[1] {
                    for i in 0..out[0] {
                        let g = grads.d[at(out, i, j, k as u32)] as f64;
                        for n in 0..ker[2] {
                            for m in 0..ker[1] {
                                for l in 0..ker[0] {
                                    x[at(img, i * stride + l, j * stride + m, n)].add(g, kn.d[at(ker, l, m, n)] as f64, 0.0);
                                }
                            }
                        }
                    }
                }
            }
            want = x.into_iter().map(|x| x.done()).collect();
        }
    }

    adopt(s, c, want, op)
}
