//! R01, R02: random fills, judged by exact range checks and by statistics whose false-alarm odds are negligible
//! (every bound used below is exceeded by a correct generator with probability < 1e-11).
use crate::bridge::{cur, Tensor};
use crate::json::V;
use crate::register::{gen_hot, gen_pick, gen_sched, sched_of};
use crate::rng::{hash_str, mix, Rng};
use crate::runner::solo;
use crate::world::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

const SPECIAL: &[f32] = &[
    0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 3.5, -7.25, 10.0, 100.0, -100.0, 1e-3, 1e-10, -1e-10, 1e10, -1e10, 1e20, -1e30, 1e38,
    -1e38, 3.4028235e38, -3.4028235e38, 1e-45, 1.1754944e-38, 16777216.0, 0.1, 0.3, 1e-30,
];
fn any(r: &mut Rng) -> f32 {
    match r.below(10) {
        0..=4 => SPECIAL[r.below(SPECIAL.len() as u64) as usize],
        5..=7 => (r.unit() * 20.0 - 10.0) as f32,
        _ => loop {
            let f = f32::from_bits(r.next() as u32);
            if f.is_finite() {
                return f;
            }
        },
    }
}

fn gen_fill(prop: &str, r: &mut Rng, common: (f32, f32), large: bool) -> V {
    let sh = if large {
        let s = [[20000, 1, 1], [100, 100, 2], [50000, 1, 1], [17, 19, 61], [1, 8000, 2], [3, 3, 4000], [40, 40, 40], [70_000, 1, 1], [260, 257, 1]];
        s[r.below(s.len() as u64) as usize]
    } else if r.chance(50) {
        [[0, 3, 2], [5, 0, 1], [4, 4, 0]][r.below(3) as usize]
    } else {
        let m = [4, 9, 40][r.below(3) as usize];
        [r.range(1, m), r.range(1, m.min(12)), r.range(1, 4)]
    };
    let (a, b) = if r.chance(500) {
        common
    } else if prop == "R01" {
        let a = any(r);
        let b = match r.below(8) {
            0 => a,
            1 => f32::from_bits(a.to_bits().wrapping_add(1)),
            2 => a + a.abs() * 1e-3,
            _ => any(r),
        };
        if b.is_finite() {
            (a.min(b), a.max(b))
        } else {
            (a, a)
        }
    } else {
        let m = match r.below(4) {
            0 => 0.0,
            1 => (r.unit() * 20.0 - 10.0) as f32,
            2 => [1e10, -1e20, 1e30, 1e-20, 255.0, -1e3][r.below(6) as usize],
            _ => 1.0,
        };
        let s = match r.below(5) {
            0 => 0.0,
            1 => 1.0,
            2 => (r.unit() * 10.0) as f32,
            3 => [1e-20, 1e20, 1e30, 0.1, 1e-3, 1e5][r.below(6) as usize],
            _ => 0.1,
        };
        (m, s)
    };
    V::obj()
        .set("sh", sh.to_vec())
        .set("a", a.to_bits() as i64)
        .set("b", b.to_bits() as i64)
        .set("reuse", r.chance(300))
}

pub fn gen(prop: &str, r: &mut Rng) -> V {
    if r.below(1000) == 0 {
        return V::obj().set("mass", 2 + r.below(4)).set("n", [1_500_000, 1_000_003, 1_048_576][r.below(3) as usize]).set("ent", r.seed());
    }
    let common = if prop == "R01" {
        [(0.0, 1.0), (-1.0, 1.0), (-0.1, 0.1), (5.0, 9.0)][r.below(4) as usize]
    } else {
        [(0.0, 1.0), (0.0, 0.1), (2.0, 0.5), (-4.0, 3.0)][r.below(4) as usize]
    };
    let nt = [1, 1, 2, 3, 4][r.below(5) as usize];
    let heavy = r.chance(350);
    let tasks: Vec<V> = (0..nt)
        .map(|_| {
            let nf = 1 + r.below(if heavy { 3 } else { 8 });
            let mut t = V::obj().set(
                "fills",
                V::Arr((0..nf).map(|_| { let big = heavy && r.chance(600); gen_fill(prop, r, common, big) }).collect()),
            );
            if r.chance(400) {
                t.put("trouble", [50, 300, 700, 950][r.below(4) as usize]);
                t.put("pattern", r.seed());
            }
            if r.chance(60) {
                t.put("mode", 1 + r.below(3));
            }
            t
        })
        .collect();
    let edges = r.chance(300) && nt > 1;
    V::obj()
        .set("tasks", V::Arr(tasks))
        .set("same", r.chance(600))
        .set("edges", edges)
        .set("ent", r.seed())
        .set("procs", r.chance(150))
        .set("sched", gen_sched(r, edges))
        .set("hot", gen_hot(r, edges))
        .set("pick", gen_pick(r))
}

fn f32_of(v: &V, k: &str) -> f32 {
    let f = f32::from_bits(v.u(k) as u32);
    if f.is_finite() {
        f
    } else {
        1.0
    }
}
fn shape_of(v: &V) -> [u32; 3] {
    let g = |i: usize| v.get("sh").at(i).int().clamp(0, 70_000) as u32;
    let s = [g(0), g(1), g(2)];
    if s.iter().map(|&x| x as u64).product::<u64>() > 100_000 {
        [1000, 1, 1]
    } else {
        s
    }
}

struct Rec {
    sh: [u32; 3],
    task: usize,
    a: f32,
    b: f32,
    v: Vec<f32>,
    constant: bool,
}

/// parameters a caller may pass
fn params(prop: &str, f: &V) -> (f32, f32) {
    let (a, b) = (f32_of(f, "a"), f32_of(f, "b"));
    if prop == "R01" {
        if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    } else {
        (a.clamp(-1e30, 1e30), b.abs().min(1e30))
    }
}

fn fills(prop: &str, t: &V, task: usize, out: &Mutex<Vec<Rec>>) {
    let mut last: Option<Tensor> = None;
    // a tensor nobody fills
    let Ok(other) = lib(|| cur::tensor([2, 2, 1], &[1.0, 2.0, 3.0, 4.0])) else { return };
    for f in t.get("fills").arr().iter().take(12) {
        let (a, b) = params(prop, f);
        let sh = shape_of(f);
        let n = crate::model::size(sh);
        let t0 = last.take();
        let reuse = f.b("reuse");
        let r = lib(|| {
            let mut x = match t0 {
                Some(t) if reuse && cur::sh(t.get_shape()) == sh => t,
                _ => cur::tensor(sh, &vec![f32::NAN; n]),
            };
            // nothing a fill may leave there
            x.fill_with_value(f32::NAN);
            if prop == "R01" {
                x.fill_with_uniform(a, b);
            } else {
                x.fill_with_gaussian(a, b);
            }
            let e = cur::elements(&x);
            (x, e)
        });
        w().nontrivial = true;
        let (x, e) = match r {
            Err(p) => return violate(format!("panic: filling {:?} with ({:e}, {:e}): {}", sh, a, b, p)),
            Ok(x) => x,
        };
        let h = e.iter().fold(7, |h, v| mix(h, v.to_bits() as u64));
        w().event(90, h, || format!("== fill {:?} with ({:e}, {:e})", sh, a, b));
        if cur::sh(x.get_shape()) != sh || e.len() != n {
            return violate(format!("shape: filling {:?} gives shape {:?}", sh, cur::sh(x.get_shape())));
        }
        if let Some(i) = e.iter().position(|v| v.is_nan()) {
            return violate(format!("stale: element {} of {} was not replaced by the fill with ({:e}, {:e})", i, n, a, b));
        }
        for (i, &v) in e.iter().enumerate() {
            let bad = if prop == "R01" {
                !(a <= v && v <= b)
            } else {
                let ulp = (a.abs().max(9.0 * b) as f64) * 3e-7 + 1e-44;
                !v.is_finite() || (v as f64 - a as f64).abs() > 9.0 * b as f64 + if b == 0.0 { 0.0 } else { ulp }
            };
            if bad {
                return violate(format!("range: element {} of a fill with ({:e}, {:e}) is {:e}", i, a, b, v));
            }
        }
        out.lock().unwrap().push(Rec { sh, task, a, b, v: e, constant: t.u("mode") > 0 });
        last = Some(x);
    }
    if lib(|| cur::elements(&other)) != Ok(vec![1.0, 2.0, 3.0, 4.0]) {
        violate("other: a tensor that was not filled changed".into());
    }
}

fn erf(x: f64) -> f64 {
    let t = 1.0 / (1.0 + 0.3275911 * x.abs());
    let y = 1.0
        - (((((1.061405429 * t - 1.453152027) * t) + 1.421413741) * t - 0.284496736) * t + 0.254829592)
            * t
            * (-x * x).exp();
    if x < 0.0 {
        -y
    } else {
        y
    }
}

/// to [0,1] by the distribution function asked for, and the rounding of one value on that scale
fn unit(prop: &str, r: &Rec) -> Option<(Vec<f64>, f64)> {
    let (a, b) = (r.a as f64, r.b as f64);
    let (ulp, width) = if prop == "R01" {
        (a.abs().max(b.abs()) * 1.2e-7 + 1.5e-45, b - a)
    } else {
        ((a.abs() + 4.0 * b) * 1.2e-7 + 1.5e-45, b)
    };
    if width <= 0.0 || ulp / width > 1e-4 {
        return None;
    }
    let u = r
        .v
        .iter()
        .map(|&v| {
            if prop == "R01" {
                (v as f64 - a) / width
            } else {
                0.5 * (1.0 + erf((v as f64 - a) / width / std::f64::consts::SQRT_2))
            }
        })
        .collect();
    Some((u, ulp / width + 2e-7))
}
fn standard(r: &Rec) -> Vec<f64> {
    r.v.iter().map(|&v| (v as f64 - r.a as f64) / r.b as f64).collect()
}

fn distribution(what: &str, u: &[f64], slack: f64, constant: bool) {
    let n = u.len() as f64;
    // with constant entropy the reseeded generator may repeat itself
    let ne = if constant { n.min(3000.0) } else { n };
    if ne < 200.0 {
        return;
    }
    let mut s = u.to_vec();
    s.sort_by(|a, b| a.total_cmp(b));
    let mut d = 0f64;
    for (i, x) in s.iter().enumerate() {
        d = d.max((x - i as f64 / n).abs()).max((x - (i + 1) as f64 / n).abs());
    }
    // Dvoretzky-Kiefer-Wolfowitz with probability 2e-12
    let lim = (13.8 / ne).sqrt() + slack;
    if d > lim {
        return violate(format!("distribution: {} of {} values: empirical distribution is off by {:.4}, allowed {:.4}", what, u.len(), d, lim));
    }
    let mean = u.iter().sum::<f64>() / n - 0.5;
    if mean.abs() > 7.2 / (12.0 * ne).sqrt() + slack {
        return violate(format!("distribution: {} of {} values: mean rank is off by {:.4}", what, u.len(), mean));
    }
    if !constant {
        return extremes(what, u, slack);
    }
    // both tails
    for p in [0.05, 0.01, 0.002] {
        for low in [true, false] {
            let c = u.iter().filter(|&&x| if low { x < p } else { x > 1.0 - p }).count() as f64 / n * ne;
            let e = p * ne;
            let tol = 7.5 * e.sqrt() + 12.0 + slack * ne;
            if (c - e).abs() > tol {
                return violate(format!("distribution: {} of {} values: {:.0} in the outer {} {}, expected {:.0}", what, u.len(), c, p, if low { "bottom" } else { "top" }, e));
            }
        }
    }
}

/// number of values far out, judged by the Chernoff bound of a binomial count at odds below 1e-11
fn extremes(what: &str, u: &[f64], slack: f64) {
    let n = u.len() as f64;
    for p in [0.05, 0.01, 0.002, 5e-4, 1e-4, 2e-5] {
        let (low, high) = (u.iter().filter(|&&x| x < p).count(), u.iter().filter(|&&x| x > 1.0 - p).count());
        for (c, k, side) in [(low, 1.0, "at the bottom"), (high, 1.0, "at the top"), (low + high, 2.0, "on both sides")] {
            let (c, e) = (c as f64, k * p * n);
            // nearest expectation the tolerance allows
            let e = c.clamp((e - k * slack * n).max(1e-9), e + k * slack * n);
            let d = if c > 0.0 { c * (c / e).ln() - c + e } else { e };
            if d > 27.0 {
                return violate(format!("distribution: {} of {} values: {} in the outer {} {}, expected {:.1}", what, u.len(), c, p, side, e));
            }
        }
    }
}

/// mean of the Legendre polynomials of the ranks, and of the Hermite polynomials of standardised normal values
fn moments(what: &str, u: &[f64], z: Option<&[f64]>, slack: f64) {
    let n = u.len() as f64;
    if n < 3000.0 || slack > 1e-5 {
        return;
    }
    let mut sum = [0f64; 9];
    for x in u {
        let x = 2.0 * x - 1.0;
        let (mut a, mut b) = (1.0, x);
        for k in 1..8 {
            let c = ((2 * k + 1) as f64 * x * b - k as f64 * a) / (k + 1) as f64;
            (a, b) = (b, c);
            sum[k + 1] += c;
        }
    }
    for k in 2..9 {
        let (m, tol) = (sum[k] / n, 7.5 / ((2 * k + 1) as f64 * n).sqrt() + 40.0 * slack);
        if m.abs() > tol {
            return violate(format!("distribution: {} of {} values: moment {} of the ranks is off by {:.5}, allowed {:.5}", what, u.len(), k, m, tol));
        }
    }
    if n < 20000.0 {
        return;
    }
    let Some(z) = z else { return };
    let (mut h2, mut h3, mut h4) = (0f64, 0f64, 0f64);
    for x in z {
        let q = x * x;
        h2 += q - 1.0;
        h3 += x * (q - 3.0);
        h4 += q * (q - 6.0) + 3.0;
    }
    for (k, h, var) in [(2, h2, 2f64), (3, h3, 6.0), (4, h4, 24.0)] {
        let (m, tol) = (h / n, 7.5 * (var / n).sqrt() + 40.0 * slack);
        if m.abs() > tol {
            return violate(format!("distribution: {} of {} values: moment {} is off by {:.5}, allowed {:.5}", what, u.len(), k, m, tol));
        }
    }
}

/// values that come up more than once: at least 2^19 different ones must be about equally likely
fn resolution(what: &str, v: &[f32], slack: f64) {
    let n = v.len() as f64;
    if n < 3000.0 || slack > 1.0 / 4194304.0 {
        return;
    }
    let mut b: Vec<u32> = v.iter().map(|f| f.to_bits()).collect();
    b.sort_unstable();
    let (mut pairs, mut run) = (0u64, 0u64);
    for k in 1..b.len() {
        run = if b[k] == b[k - 1] { run + 1 } else { 0 };
        pairs += run;
    }
    let tol = n * n / 1048576.0 + 200.0;
    if pairs as f64 > tol {
        violate(format!("distribution: {} of {} values: {} pairs of equal values, expected at most {:.0}", what, v.len(), pairs, tol));
    }
}

/// large values next to large ones, whatever their sign
fn co_spread(what: &str, x: &[f64], y: &[f64]) {
    let n = x.len().min(y.len());
    if n < 3000 {
        return;
    }
    let q = |x: f64| (x - 0.5) * (x - 0.5) - 1.0 / 12.0;
    let c = (0..n).map(|i| q(x[i]) * q(y[i])).sum::<f64>() / n as f64 * 180.0;
    if c.abs() > 8.0 / (n as f64).sqrt() + 1e-3 {
        violate(format!("independence: the spread of {} correlates by {:.4} over {} values", what, c, n));
    }
}

fn correlation(what: &str, x: &[f64], y: &[f64]) {
    let n = x.len().min(y.len());
    if n < 3000 {
        return;
    }
    let c = (0..n).map(|i| (x[i] - 0.5) * (y[i] - 0.5)).sum::<f64>() / n as f64 * 12.0;
    if c.abs() > 8.0 / (n as f64).sqrt() + 1e-3 {
        violate(format!("independence: {} correlate by {:.4} over {} values", what, c, n));
    }
}

/// the Chernoff bound of a count, at odds below 1e-12
fn count_off(c: f64, e: f64) -> bool {
    (if c > 0.0 { c * (c / e).ln() - c + e } else { e }) > 28.0
}

/// few fills of very many values: what is rare, weakly correlated or periodic only shows here
fn mass(prop: &str, plan: &V) {
    // probability of an absolute value above 3, 3.5, 4, 4.5, 5
    const TAIL: [(f64, f64); 5] = [(3.0, 2.699796e-3), (3.5, 4.652582e-4), (4.0, 6.334248e-5), (4.5, 6.795346e-6), (5.0, 5.733031e-7)];
    let n = plan.u("n").clamp(1000, 2_000_000) as usize;
    let name = if prop == "R01" { "uniform fills" } else { "Gaussian fills" };
    let mut bins = [0u64; 512];
    let mut tails = [[0u64; 2]; 24];
    let (mut sum, mut sum2, mut lagged, mut total) = (0f64, 0f64, [0f64; 4], 0f64);
    let mut windows: BTreeMap<u64, (u64, usize)> = BTreeMap::new();
    for k in 0..plan.u("mass").clamp(1, 6) {
        let r = lib(|| {
            let mut x = cur::tensor([n as u32, 1, 1], &[]);
            if prop == "R01" {
                x.fill_with_uniform(-1.0, 1.0);
            } else {
                x.fill_with_gaussian(0.0, 1.0);
            }
            cur::elements(&x)
        });
        let e = match r {
            Err(p) => return violate(format!("panic: filling {} values: {}", n, p)),
            Ok(e) => e,
        };
        let h = e.iter().fold(7, |h, v| mix(h, v.to_bits() as u64));
        w().event(90, h, || format!("== fill {} values", n));
        w().nontrivial = true;
        w().add("values drawn", n as u64);
        for (i, &v) in e.iter().enumerate() {
            let v = v as f64;
            if prop == "R01" {
                if !(-1.0..=1.0).contains(&v) {
                    return violate(format!("range: element {} of a fill with (-1, 1) is {:e}", i, v));
                }
                bins[(((v + 1.0) * 256.0) as usize).min(511)] += 1;
                let far = 1.0 - v.abs();
                for t in 8..20 {
                    if far < 0.5f64.powi(t) {
                        tails[t as usize][(v > 0.0) as usize] += 1;
                    } else {
                        break;
                    }
                }
            } else {
                if !v.is_finite() {
                    return violate(format!("range: element {} of a fill with (0, 1) is {:e}", i, v));
                }
                bins[((0.5 * (1.0 + erf(v / std::f64::consts::SQRT_2)) * 512.0) as usize).min(511)] += 1;
                for (t, q) in TAIL.iter().enumerate() {
                    if v.abs() > q.0 {
                        tails[t][(v > 0.0) as usize] += 1;
                    } else {
                        break;
                    }
                }
            }
            sum += v;
            sum2 += v * v;
            for (l, s) in [1, 2, 16, 1000].iter().zip(&mut lagged) {
                if i >= *l {
                    *s += v * e[i - l] as f64;
                }
            }
        }
        // marks chosen by content find repetitions at any distance
        for i in 0..n.saturating_sub(6) {
            if mix(3, e[i].to_bits() as u64) % 48 == 0 {
                let h = e[i..i + 6].iter().fold(3, |h, v| mix(h, v.to_bits() as u64));
                if let Some((q, j)) = windows.insert(h, (k, i)) {
                    return violate(format!("repeats: 6 values of fill {} at {} come again in fill {} at {}", q, j, k, i));
                }
            }
        }
        total += n as f64;
    }
    for (i, &c) in bins.iter().enumerate() {
        if count_off(c as f64, total / 512.0) {
            return violate(format!("distribution: {} of {} values: {} in part {} of 512, expected {:.0}", name, total, c, i, total / 512.0));
        }
    }
    for (t, c) in tails.iter().enumerate() {
        let p = match prop {
            "R01" if (8..20).contains(&t) => 0.5f64.powi(t as i32 + 1),
            "R01" => continue,
            _ if t < 5 => TAIL[t].1 / 2.0,
            _ => continue,
        };
        for (c, e) in [(c[0], p * total), (c[1], p * total), (c[0] + c[1], 2.0 * p * total)] {
            if count_off(c as f64, e) {
                return violate(format!("distribution: {} of {} values: {} far out (class {}), expected {:.1}", name, total, c, t, e));
            }
        }
    }
    let var = if prop == "R01" { 1.0 / 3.0 } else { 1.0 };
    let var2 = if prop == "R01" { 4.0 / 45.0 } else { 2.0 };
    if sum.abs() > 7.5 * (var * total).sqrt() || (sum2 - var * total).abs() > 7.5f64 * (var2 * total).sqrt() {
        return violate(format!("distribution: {} of {} values: mean {:.6}, mean square {:.6}", name, total, sum / total, sum2 / total));
    }
    for (l, s) in [1, 2, 16, 1000].iter().zip(lagged) {
        if s.abs() > 7.5 * var * total.sqrt() {
            return violate(format!("independence: {} of {} values: values {} apart correlate by {:.5}", name, total, l, s / total / var));
        }
    }
}

pub fn run(prop: &str, plan: &V) {
    let ent = plan.u("ent");
    if plan.u("mass") > 0 {
        return run_tasks(Sched::default(), vec![(TaskCfg::new(mix(ent, 100)), Box::new(move || mass(prop, plan)) as Body)]);
    }
    let out: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    let mut bodies: Vec<(TaskCfg, Body)> = vec![];
    EDGE_POINTS.store(plan.b("edges"), Ordering::Relaxed);
    for (i, t) in plan.get("tasks").arr().iter().enumerate().take(6) {
        let mut cfg = TaskCfg::new(mix(ent, 100 + i as u64));
        cfg.same_pid = plan.b("same");
        cfg.entropy_trouble = t.u("trouble").min(950);
        cfg.entropy_pattern = t.u("pattern");
        cfg.entropy_mode = t.u("mode");
        let out = &out;
        bodies.push((cfg, Box::new(move || fills(prop, t, i, out))));
    }
    run_tasks(sched_of(plan), bodies);
    EDGE_POINTS.store(false, Ordering::Relaxed);
    if violated() {
        return;
    }
    let recs = out.into_inner().unwrap();
    judge(prop, &recs);
    if violated() || !plan.b("procs") {
        return;
    }
    // the same program started twice: fresh statics, other entropy, other values
    let t = V::obj().set("fills", V::Arr(vec![V::obj().set("sh", vec![64, 1, 1]).set("a", 0).set("b", 1f32.to_bits() as i64)]));
    let mut seen = vec![];
    for k in 0..2 {
        let r = solo(|| {
            let o: Mutex<Vec<Rec>> = Mutex::new(vec![]);
            let (t, o2) = (&t, &o);
            run_tasks(Sched::default(), vec![(TaskCfg::new(mix(ent, 500 + k)), Box::new(move || fills(prop, t, 0, o2)) as Body)]);
            let v = o.into_inner().unwrap();
            V::Arr(v.iter().flat_map(|r| r.v.iter().map(|x| V::from(x.to_bits() as i64))).collect())
        });
        match r {
            Err(m) => return violate(m),
            Ok(v) => {
                let h = hash_str(&v.text());
                w().event(91, h, || "== a process of its own fills a tensor".into());
                seen.push(v);
            }
        }
    }
    if seen[0] == seen[1] {
        violate("stale: two processes with different entropy get the same values".into());
    }
}

fn judge(prop: &str, recs: &[Rec]) {
    let mut per_task: BTreeMap<(usize, bool), (Vec<f64>, f64)> = BTreeMap::new();
    let mut fine: (Vec<f64>, Vec<f64>, f64) = (vec![], vec![], 0.0);
    let mut windows: BTreeMap<u64, usize> = BTreeMap::new();
    let mut whole: BTreeMap<u64, usize> = BTreeMap::new();
    let mut prev: Option<(Vec<f64>, bool)> = None;
    let name = if prop == "R01" { "uniform fill" } else { "Gaussian fill" };
    w().add("values drawn", recs.iter().map(|r| r.v.len() as u64).sum());
    for (ri, r) in recs.iter().enumerate() {
        let Some((u, slack)) = unit(prop, r) else { continue };
        distribution(name, &u, slack, r.constant);
        if !r.constant && slack < 1e-5 {
            let z = standard(r);
            let z = if prop == "R01" { &[][..] } else { &z };
            moments(name, &u, Some(z).filter(|z| !z.is_empty()), slack);
            resolution(name, &r.v, slack - 2e-7);
            fine.0.extend(&u);
            fine.1.extend(z);
            fine.2 = fine.2.max(slack);
        }
        if violated() {
            return;
        }
        let e = per_task.entry((r.task, r.constant)).or_insert((vec![], 0.0));
        e.0.extend(&u);
        e.1 = e.1.max(slack);
        if !r.constant {
            let (row, plane) = (r.sh[0] as usize, r.sh[0] as usize * r.sh[1] as usize);
            for lag in [1, 2, 3, 4, 7, 8, row, plane] {
                if u.len() > lag {
                    correlation(&format!("values {} apart in one {}", lag, name), &u, &u[lag..]);
                    co_spread(&format!("values {} apart in one {}", lag, name), &u, &u[lag..]);
                }
            }
            if let Some((p, false)) = &prev {
                correlation(&format!("two {}s", name), p, &u);
            }
            if violated() {
                return;
            }
            // short fills as a whole, long ones window by window
            if u.len() >= 5 && u.len() < 40 {
                let h = r.v.iter().fold(mix(r.a.to_bits() as u64, r.b.to_bits() as u64), |h, v| mix(h, v.to_bits() as u64));
                if let Some(q) = whole.insert(mix(h, u.len() as u64), ri) {
                    return violate(format!("repeats: fills {} and {} gave the same {} values", q, ri, u.len()));
                }
            }
            const W: usize = 10;
            let q: Vec<u64> = u.iter().map(|x| (x * 4096.0) as u64).collect();
            for i in 0..q.len().saturating_sub(W - 1) {
                let h = q[i..i + W].iter().fold(3, |h, v| mix(h, *v));
                if let Some(o) = windows.insert(h, ri) {
                    return violate(format!("repeats: {} values of fill {} come again in fill {} (position {})", W, o, ri, i));
                }
            }
        }
        prev = Some((u, r.constant));
    }
    for ((_, c), (u, slack)) in &per_task {
        distribution(&format!("{}s of one thread", name), u, *slack, *c);
        if !*c && u.len() > 1 {
            correlation("neighbouring values of a thread", u, &u[1..]);
        }
    }
    let all: Vec<f64> = per_task.iter().filter(|(k, _)| !k.1).flat_map(|(_, v)| v.0.iter().copied()).collect();
    let slack = per_task.values().map(|v| v.1).fold(0.0, f64::max);
    distribution(&format!("{}s of all threads", name), &all, slack, false);
    if !violated() {
        moments(&format!("{}s of all threads", name), &fine.0, Some(&fine.1[..]).filter(|z| !z.is_empty()), fine.2);
    }
}
