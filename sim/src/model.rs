//! Executable reference: what a network is mathematically, in f64, with a rigorous bound on the rounding error an
//! f32 evaluation in any summation order may show (zero where such an evaluation must be exact).
use crate::json::V;
use crate::rng::Rng;

pub type Sh = [u32; 3];
pub fn size(s: Sh) -> usize {
    s[0] as usize * s[1] as usize * s[2] as usize
}
pub fn at(s: Sh, i: u32, j: u32, k: u32) -> usize {
    i as usize + s[0] as usize * (j as usize + s[1] as usize * k as usize)
}

#[derive(Clone, Debug)]
pub struct T {
    pub sh: Sh,
    pub d: Vec<f32>,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Fc { w: T, b: T },
    Conv { k: Vec<T>, b: Vec<f32>, stride: u32 },
    Pool { mask: Sh, stride: u32 },
    Soft,
    /// user-defined identity layer
    Probe,
}
#[derive(Clone, Debug)]
pub struct Layer {
    pub kind: Kind,
    pub name: String,
    pub inp: Sh,
    pub out: Sh,
    /// see user.rs
    pub pre: u64,
}

// ---------------------------------------------------------------- values

/// style 0: small dyadic numbers (exact arithmetic), 1: normal, 2: any bit pattern, 3: dyadic, many zeros,
/// 4: wide magnitudes, 5: all the same, 6: all very small or all large
pub fn values(n: usize, style: i64, seed: u64) -> Vec<f32> {
    let mut r = Rng::new(seed ^ 0xdada);
    if style == 5 {
        return vec![[0.0, 0.0, 1.0, -0.5, -0.0, 0.25, 3.0, 0.0][(seed >> 5) as usize % 8]; n];
    }
    let unit = 10f64.powi(Rng::new(seed ^ 0x5ca1e).range(-14, 4) as i32);
    (0..n)
        .map(|_| match style {
            6 => (r.normal() * unit) as f32,
            1 => (r.normal() * 0.7) as f32,
            2 => match r.below(6) {
                0 => f32::from_bits(r.next() as u32),
                1 => [0.0, -0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, f32::MAX]
                    [r.below(8) as usize],
                2 => f32::from_bits(0x7fc0_0000 | (r.next() as u32 & 0x803f_ffff)),
                _ => (r.normal()) as f32,
            },
            3 => {
                if r.chance(400) {
                    0.0
                } else {
                    r.range(-6, 6) as f32 * 0.5
                }
            }
            4 => (r.normal() * 10f64.powi(r.range(-3, 2) as i32)) as f32,
            // numbers no later result may depend on
            7 => match r.below(3) {
                0 => [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, -f32::NAN][r.below(6) as usize],
                _ => r.normal() as f32,
            },
            // finite, but only just
            8 => {
                let v = (1.0 + r.unit() as f32) * 10f32.powi(r.range(28, 38) as i32);
                if seed & 64 == 0 || r.chance(300) { -v } else { v }
            }
            _ => r.range(-8, 8) as f32 * 0.25,
        })
        .collect()
}

pub fn gen_name(r: &mut Rng) -> String {
    match r.below(15) {
        0 => "".into(),
        12 => [" layer_1", "layer_1 ", "\tlayer_1\n", " ", "\r\n"][r.below(5) as usize].into(),
        13 => ["LAYER_1", "Layer_1", "layer_01", "layer_1\0", "\0", "../layer_1", "null", "\u{feff}layer_1"][r.below(8) as usize].into(),
        14 => ["e\u{301}", "\u{e9}", "\u{200d}\u{2028}", "\u{ffff}", "\u{85}x\u{a0}", "\u{7f}\u{1}"][r.below(6) as usize].into(),
        1 => "fc".into(),
        2 => "ΛÅyer \u{1F980}".into(),
        3 => "x".repeat(r.range(50, 300) as usize),
        4 => "a\n\"b\\".into(),
        _ => format!("layer_{}", r.below(5)),
    }
}

// ---------------------------------------------------------------- network specifications

/// how large things are in one plan
#[derive(Clone, Copy, PartialEq)]
pub enum Scale {
    Small,
    /// flat, up to some dozens of inputs and outputs
    Wide,
    /// images of some dozens of pixels and a few channels
    Large,
    /// one dimension of some hundreds, strides of any size
    Long,
    /// many layers
    Deep,
    /// more than 2^16 elements, and little to do with them
    Huge,
}
pub fn gen_scale(r: &mut Rng) -> Scale {
    match r.below(100) {
        0..=9 => Scale::Wide,
        10..=19 => Scale::Large,
        20..=24 => Scale::Long,
        25..=27 => Scale::Deep,
        28 if r.chance(500) => Scale::Huge,
        _ => Scale::Small,
    }
}
pub fn gen_shape(r: &mut Rng, sc: Scale, flat: bool) -> Sh {
    let one_of = |r: &mut Rng, n: i64| if r.chance(150) { n as u32 } else { 1 };
    match (sc, flat) {
        (Scale::Huge, true) => [r.range(250, 300) as u32, 1, r.range(250, 300) as u32],
        (Scale::Huge, false) => [r.range(250, 300) as u32, r.range(120, 150) as u32, r.range(2, 3) as u32],
        (Scale::Long, true) => [r.range(100, 700) as u32, 1, 1],
        (Scale::Long, false) => {
            let l = r.range(100, 700) as u32;
            match r.below(6) {
                0..=2 => [l, r.range(1, 2) as u32, r.range(1, 2) as u32],
                3..=4 => [r.range(1, 2) as u32, l, r.range(1, 2) as u32],
                _ => [r.range(1, 2) as u32, r.range(1, 2) as u32, l],
            }
        }
        (Scale::Wide, _) => [r.range(8, 48) as u32, 1, one_of(r, 2)],
        (Scale::Large, true) => [r.range(4, 20) as u32, 1, r.range(1, 5) as u32],
        (Scale::Large, false) => [r.range(3, 16) as u32, r.range(3, 14) as u32, r.range(1, 6) as u32],
        (_, true) => [r.range(1, 8) as u32, 1, one_of(r, 2)],
        (_, false) => [r.range(1, 7) as u32, r.range(1, 6) as u32, r.range(1, 3) as u32],
    }
}
/// a plan-level layer of the given kind
pub fn gen_layer(r: &mut Rng, sc: Scale, t: &str, styles: &[i64]) -> V {
    let (a, b, c, s) = match sc {
        Scale::Huge => (1, 1, 1, if t == "conv" { 7 } else { r.range(1, 3) }),
        Scale::Wide => (r.range(1, 40), r.range(1, 12), r.range(1, 6), if r.chance(500) { 1 } else { r.range(1, 12) }),
        Scale::Large => (r.range(1, 9), r.range(1, 8), r.range(1, 8), if r.chance(500) { 1 } else { r.range(1, 5) }),
        Scale::Long => (r.range(1, 12), r.range(1, 12), r.range(1, 12), if r.chance(300) { 1 } else { r.range(1, 320) }),
        _ => (r.range(1, 6), r.range(1, 4), r.range(1, 4), if r.chance(500) { 1 } else { r.range(1, 3) }),
    };
    // now and then a crowd of kernels
    let c = if t == "conv" && sc == Scale::Long && r.chance(100) { r.range(100, 400) } else { c };
    V::obj()
        .set("t", t)
        .set("a", a)
        .set("b", b)
        .set("c", c)
        .set("s", s)
        .set("style", if r.chance(50) { 5 } else { styles[r.below(styles.len() as u64) as usize] })
        .set("seed", r.seed())
}

/// a plan-level network: {"in":[..],"layers":[{..}]}, every layer interpreted relative to the incoming shape
pub fn gen_net(r: &mut Rng, styles: &[i64], max_layers: u64, probes: u64) -> V {
    let sc = gen_scale(r);
    let flat = r.chance(450);
    let sh = gen_shape(r, sc, flat);
    let n = match sc {
        Scale::Deep if r.chance(if probes == 0 { 100 } else { 30 }) => 200 + r.below(120),
        Scale::Deep if r.chance(60) => 65 + r.below(80),
        Scale::Deep => {
            let many = probes == 0 || r.chance(300);
            5 + r.below(if many { 40 } else { 4 })
        }
        Scale::Long => 1 + r.below(max_layers.min(3)),
        Scale::Huge => 1 + r.below(2),
        _ => 1 + r.below(max_layers),
    };
    let mut layers = vec![];
    let mut cur = sh;
    for i in 0..n {
        let t = if cur[1] == 1 && r.chance(600) {
            "fc"
        } else {
            match r.below(10) {
                0..=4 => "conv",
                5..=7 => "pool",
                8 => "soft",
                _ => "fc",
            }
        };
        let t = if i + 1 == n && r.chance(200) { "soft" } else { t };
        let l = gen_layer(r, sc, t, styles).set("name", gen_name(r));
        if let Some(x) = layer(&l, cur) {
            cur = x.out;
            layers.push(l);
        }
        if probes > 0 && r.chance(probes) {
            layers.push(V::obj().set("t", "probe").set("name", "probe"));
        }
    }
    let mut ls = layers;
    if probes > 0 {
        let mut v = vec![V::obj().set("t", "probe").set("name", "probe")];
        v.append(&mut ls);
        ls = v;
    }
    V::obj().set("in", sh.iter().map(|&x| x as i64).collect::<Vec<_>>()).set("layers", V::Arr(ls))
}

/// multiplications (or comparisons) of one forward pass
pub fn work(l: &Layer) -> usize {
    match &l.kind {
        Kind::Fc { w, .. } => size(w.sh),
        Kind::Conv { k, .. } => size(l.out) * k.first().map(|k| size(k.sh)).unwrap_or(1),
        Kind::Pool { mask, .. } => size(l.out) * size(*mask),
        _ => size(l.out),
    }
}

pub fn shape_of(v: &V) -> Sh {
    let g = |i: usize| v.at(i).int().clamp(1, 1024) as u32;
    [g(0), g(1), g(2)]
}

/// interpret one plan-level layer for an incoming shape
pub fn layer(v: &V, inp: Sh) -> Option<Layer> {
    layer_any(v, inp).filter(|l| work(l) <= if v.b("vast") { 2_000_000 } else if l.inp[0] * l.inp[1] * l.inp[2] > 60_000 { 130_000 } else { 40_000 })
}
fn layer_any(v: &V, inp: Sh) -> Option<Layer> {
    let name = v.s("name").to_string();
    let pre = v.u("pre");
    let p = |k: &str| v.i(k).clamp(1, 512) as u32;
    let (a, b, c, s) = (p("a"), p("b"), p("c"), p("s"));
    let (style, seed) = (v.i("style"), v.u("seed"));
    let fit = |d: u32, k: u32| {
        let k = k.min(d);
        d - (d - k) / s * s
    };
    match v.s("t") {
        "fc" => {
            if inp[1] != 1 {
                return None;
            }
            let w = T { sh: [a, inp[0], inp[2]], d: values(size([a, inp[0], inp[2]]), style, seed) };
            let b = T { sh: [a, 1, inp[2]], d: values(size([a, 1, inp[2]]), style, seed ^ 1) };
            Some(Layer { kind: Kind::Fc { w, b }, name, inp, out: [a, 1, inp[2]], pre })
        }
        "conv" => {
            let ks: Sh = [fit(inp[0], a), fit(inp[1], b), inp[2]];
            let n = c;
            let k = (0..n).map(|i| T { sh: ks, d: values(size(ks), style, seed ^ (i as u64 + 7)) }).collect();
            let b = values(n as usize, style, seed ^ 1);
            let out = [(inp[0] - ks[0]) / s + 1, (inp[1] - ks[1]) / s + 1, n];
            Some(Layer { kind: Kind::Conv { k, b, stride: s }, name, inp, out, pre })
        }
        "pool" => {
            let mask: Sh = [fit(inp[0], b), fit(inp[1], c), 1];
            let out = [(inp[0] - mask[0]) / s + 1, (inp[1] - mask[1]) / s + 1, inp[2]];
            Some(Layer { kind: Kind::Pool { mask, stride: s }, name, inp, out, pre })
        }
        "soft" => Some(Layer { kind: Kind::Soft, name, inp, out: inp, pre }),
        "probe" => Some(Layer { kind: Kind::Probe, name, inp, out: inp, pre }),
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub struct Net {
    pub inp: Sh,
    pub layers: Vec<Layer>,
}
impl Net {
    pub fn new(v: &V) -> Net {
        let inp = shape_of(v.get("in"));
        let mut cur = inp;
        let mut layers = vec![];
        for l in v.get("layers").arr() {
            if let Some(x) = layer(l, cur) {
                cur = x.out;
                layers.push(x);
            }
        }
        if layers.is_empty() {
            layers.push(Layer { kind: Kind::Soft, name: "s".into(), inp, out: inp, pre: 0 });
        }
        Net { inp, layers }
    }
    pub fn out(&self) -> Sh {
        self.layers.last().map(|l| l.out).unwrap_or(self.inp)
    }
}

// ---------------------------------------------------------------- evaluation with error bounds

#[derive(Clone, Debug)]
pub struct Ev {
    pub v: Vec<f64>,
    pub e: Vec<f64>,
    /// of a parameter's gradient: the products each entry is the sum of
    terms: Vec<Terms>,
}
/// how large the terms of a sum are together, how many they are, and their lowest bit
#[derive(Clone, Copy, Debug)]
struct Terms {
    mag: f64,
    n: f64,
    low: i32,
}
impl Ev {
    fn unknown(n: usize) -> Ev {
        Ev { v: vec![0.0; n], e: vec![f64::INFINITY; n], terms: vec![] }
    }
    /// f32 certainly holds all of this
    fn near(&self) -> bool {
        self.v.iter().zip(&self.e).all(|(v, e)| v.abs() + e <= FAR)
    }
    /// copies of finite numbers
    fn copies(&self) -> bool {
        self.v.iter().zip(&self.e).all(|(v, e)| v.is_finite() && *e == 0.0)
    }
    pub fn zero(n: usize) -> Ev {
        Ev { v: vec![0.0; n], e: vec![0.0; n], terms: vec![] }
    }
    pub fn exact(x: &[f32]) -> Ev {
        Ev { v: x.iter().map(|&f| f as f64).collect(), e: vec![0.0; x.len()], terms: vec![] }
    }
    /// how much of the comparison is informative: entries known to be non-zero
    pub fn sharp(&self) -> usize {
        self.v.iter().zip(&self.e).filter(|(v, e)| v.abs() > 4.0 * **e && v.abs() > 1e-6).count()
    }
    pub fn differs(&self, x: &[f32]) -> Option<(usize, f64, f32)> {
        if x.len() != self.v.len() {
            return Some((usize::MAX, self.v.len() as f64, x.len() as f32));
        }
        for i in 0..x.len() {
            let bound = 2.0 * self.e[i] + 1e-30;
            // beyond this f32 may have overflowed on the way, except in a mere copy
            if !(self.v[i].abs() + bound <= FAR || (self.e[i] == 0.0 && self.v[i].is_finite())) {
                continue;
            }
            let d = (x[i] as f64 - self.v[i]).abs();
            if !(d <= bound) {
                return Some((i, self.v[i], x[i]));
            }
        }
        None
    }
}

pub const U: f64 = 1.2e-7;
const FAR: f64 = 1e36;

/// a sum of products as f32 code may compute it
#[derive(Default)]
pub struct Sum {
    v: f64,
    mag: f64,
    e: f64,
    n: f64,
    low: i32,
    any: bool,
}
fn low_bit(x: f64) -> i32 {
    let b = x.to_bits();
    let ex = ((b >> 52) & 0x7ff) as i32;
    let m = b & ((1 << 52) - 1);
    if m == 0 {
        ex - 1023
    } else {
        ex - 1023 - 52 + m.trailing_zeros() as i32
    }
}
impl Sum {
    /// add a*x where x carries error e
    pub fn add(&mut self, a: f64, x: f64, e: f64) {
        let p = a * x;
        self.v += p;
        self.mag += p.abs();
        self.e += a.abs() * e;
        self.n += 1.0;
        if p != 0.0 {
            let l = low_bit(p);
            self.low = if self.any { self.low.min(l) } else { l };
            self.any = true;
        }
    }
    fn terms(&self) -> Terms {
        Terms { mag: self.mag + self.e, n: self.n, low: if self.any { self.low } else { i32::MAX } }
    }
    pub fn done(self) -> (f64, f64) {
        // every partial sum is a multiple of 2^low below 2^24 * 2^low: f32 holds it exactly
        if !(self.mag + self.e <= FAR) {
            // f32 may overflow on the way
            return (self.v, f64::INFINITY);
        }
        let exact = self.e == 0.0 && (!self.any || (self.low > -120 && self.mag < 2f64.powi(self.low + 24)));
        if exact {
            (self.v, 0.0)
        } else {
            (self.v, self.e + (self.n + 3.0) * U * (self.mag + self.e) + 1e-37)
        }
    }
}

#[derive(Clone)]
pub struct Pass {
    /// states[i] is the input of layer i
    pub states: Vec<Ev>,
    pub pre: Vec<Option<Ev>>,
}

pub fn forward(layers: &[Layer], input: &Ev) -> Pass {
    let mut p = Pass { states: vec![input.clone()], pre: vec![] };
    for l in layers {
        let x = p.states.last().unwrap();
        let (pre, y) = forward1(l, x);
        p.pre.push(pre);
        p.states.push(y);
    }
    p
}

fn relu(p: &Ev) -> Ev {
    Ev { v: p.v.iter().map(|v| v.max(0.0)).collect(), e: p.e.clone(), terms: vec![] }
}

pub fn forward1(l: &Layer, x: &Ev) -> (Option<Ev>, Ev) {
    let mut y = Ev::zero(size(l.out));
    let pool = matches!(l.kind, Kind::Pool { .. });
    if !(x.near() || (pool && x.copies())) {
        y = Ev::unknown(size(l.out));
        return (Some(y.clone()), y);
    }
    match &l.kind {
        Kind::Fc { w, b } => {
            for k in 0..l.out[2] {
                for i in 0..l.out[0] {
                    let mut s = Sum::default();
                    for j in 0..l.inp[0] {
                        let xi = at(l.inp, j, 0, k);
                        s.add(w.d[at(w.sh, i, j, k)] as f64, x.v[xi], x.e[xi]);
                    }
                    s.add(b.d[at(b.sh, i, 0, k)] as f64, 1.0, 0.0);
                    let o = at(l.out, i, 0, k);
                    (y.v[o], y.e[o]) = s.done();
                }
            }
            let r = relu(&y);
            (Some(y), r)
        }
        Kind::Conv { k: kernels, b, stride } => {
            for (c, kn) in kernels.iter().enumerate() {
                for oj in 0..l.out[1] {
                    for oi in 0..l.out[0] {
                        let mut s = Sum::default();
                        for kk in 0..kn.sh[2] {
                            for kj in 0..kn.sh[1] {
                                for ki in 0..kn.sh[0] {
                                    let xi = at(l.inp, oi * stride + ki, oj * stride + kj, kk);
                                    s.add(kn.d[at(kn.sh, ki, kj, kk)] as f64, x.v[xi], x.e[xi]);
                                }
                            }
                        }
                        s.add(b[c] as f64, 1.0, 0.0);
                        let o = at(l.out, oi, oj, c as u32);
                        (y.v[o], y.e[o]) = s.done();
                    }
                }
            }
            let r = relu(&y);
            (Some(y), r)
        }
        Kind::Pool { mask, stride } => {
            for k in 0..l.out[2] {
                for j in 0..l.out[1] {
                    for i in 0..l.out[0] {
                        let (mut m, mut e) = (f64::NEG_INFINITY, 0f64);
                        for jj in 0..mask[1] {
                            for ii in 0..mask[0] {
                                let xi = at(l.inp, i * stride + ii, j * stride + jj, k);
                                m = m.max(x.v[xi]);
                                e = e.max(x.e[xi]);
                            }
                        }
                        let o = at(l.out, i, j, k);
                        (y.v[o], y.e[o]) = (m, e);
                    }
                }
            }
            (None, y)
        }
        Kind::Soft => {
            let n = x.v.len() as f64;
            let m = x.v.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
            let amax = x.v.iter().fold(0f64, |a, v| a.max(v.abs()));
            let emax = x.e.iter().cloned().fold(0f64, f64::max);
            let z: f64 = x.v.iter().map(|v| (v - m).exp()).sum();
            for i in 0..x.v.len() {
                let p = (x.v[i] - m).exp() / z;
                let rel = ((2.0 * emax).min(50.0).exp() - 1.0) + U * (n + 10.0 + 3.0 * amax);
                y.v[i] = p;
                // exponentials may underflow before they are divided by a sum as small as e^-40
                y.e[i] = (p * rel).min(1.0) + 1e-20;
            }
            (None, y)
        }
        Kind::Probe => (None, x.clone()),
    }
}

#[derive(Clone)]
pub struct Grads {
    /// per boundary, as for states
    pub g: Vec<Ev>,
    /// per layer: one entry per parameter tensor, in the order weights, bias / kernels.., biases..
    pub params: Vec<Vec<Ev>>,
}

pub fn backward(layers: &[Layer], p: &Pass, g: &Ev) -> Grads {
    let n = layers.len();
    let mut gs = vec![Ev::zero(0); n + 1];
    let mut params = vec![vec![]; n];
    gs[n] = g.clone();
    for i in (0..n).rev() {
        let (o, q) = backward1(&layers[i], &p.states[i], p.pre[i].as_ref(), &p.states[i + 1], &gs[i + 1]);
        gs[i] = o;
        params[i] = q;
    }
    Grads { g: gs, params }
}

fn mask(pre: &Ev, g: &Ev) -> Ev {
    let mut o = Ev::zero(g.v.len());
    for i in 0..g.v.len() {
        if pre.v[i] > pre.e[i] {
            (o.v[i], o.e[i]) = (g.v[i], g.e[i]);
        } else if pre.v[i] < -pre.e[i] {
        } else {
            // at the kink: either side will do
            (o.v[i], o.e[i]) = (g.v[i] / 2.0, g.v[i].abs() / 2.0 + g.e[i]);
        }
    }
    o
}

/// product of two inexact numbers
fn mul(s: &mut Sum, a: f64, ea: f64, b: f64, eb: f64) {
    s.add(a, b, eb);
    s.e += ea * (b.abs() + eb);
}

pub fn backward1(l: &Layer, x: &Ev, pre: Option<&Ev>, y: &Ev, g: &Ev) -> (Ev, Vec<Ev>) {
    let mut o = Ev::zero(size(l.inp));
    let pool = matches!(l.kind, Kind::Pool { .. }) && x.copies() && y.copies();
    if !((pool || (x.near() && y.near())) && g.near() && pre.map(|p| p.near()).unwrap_or(true)) {
        let ps = zero_grads(std::slice::from_ref(l)).pop().unwrap();
        return (Ev::unknown(size(l.inp)), ps.into_iter().map(|p| Ev::unknown(p.v.len())).collect());
    }
    match &l.kind {
        Kind::Fc { w, b } => {
            let m = mask(pre.unwrap(), g);
            let mut gw = Ev::zero(size(w.sh));
            let mut gb = Ev::zero(size(b.sh));
            for k in 0..l.out[2] {
                for j in 0..l.inp[0] {
                    let mut s = Sum::default();
                    for i in 0..l.out[0] {
                        let oi = at(l.out, i, 0, k);
                        s.add(w.d[at(w.sh, i, j, k)] as f64, m.v[oi], m.e[oi]);
                    }
                    let xi = at(l.inp, j, 0, k);
                    (o.v[xi], o.e[xi]) = s.done();
                    for i in 0..l.out[0] {
                        let oi = at(l.out, i, 0, k);
                        let mut s = Sum::default();
                        mul(&mut s, m.v[oi], m.e[oi], x.v[xi], x.e[xi]);
                        let wi = at(w.sh, i, j, k);
                        (gw.v[wi], gw.e[wi]) = s.done();
                    }
                }
                for i in 0..l.out[0] {
                    let oi = at(l.out, i, 0, k);
                    (gb.v[oi], gb.e[oi]) = (m.v[oi], m.e[oi]);
                }
            }
            (o, vec![gw, gb])
        }
        Kind::Conv { k: kernels, b, stride } => {
            let m = mask(pre.unwrap(), g);
            let mut sums: Vec<Sum> = (0..size(l.inp)).map(|_| Sum::default()).collect();
            let mut ps = vec![];
            for (c, kn) in kernels.iter().enumerate() {
                let mut ks: Vec<Sum> = (0..size(kn.sh)).map(|_| Sum::default()).collect();
                for oj in 0..l.out[1] {
                    for oi in 0..l.out[0] {
                        let gi = at(l.out, oi, oj, c as u32);
                        for kk in 0..kn.sh[2] {
                            for kj in 0..kn.sh[1] {
                                for ki in 0..kn.sh[0] {
                                    let xi = at(l.inp, oi * stride + ki, oj * stride + kj, kk);
                                    let kid = at(kn.sh, ki, kj, kk);
                                    sums[xi].add(kn.d[kid] as f64, m.v[gi], m.e[gi]);
                                    mul(&mut ks[kid], m.v[gi], m.e[gi], x.v[xi], x.e[xi]);
                                }
                            }
                        }
                    }
                }
                let mut e = Ev::zero(ks.len());
                e.terms = ks.iter().map(|s| s.terms()).collect();
                for (i, s) in ks.into_iter().enumerate() {
                    (e.v[i], e.e[i]) = s.done();
                }
                ps.push(e);
            }
            for (i, s) in sums.into_iter().enumerate() {
                (o.v[i], o.e[i]) = s.done();
            }
            for c in 0..b.len() {
                let mut s = Sum::default();
                for oj in 0..l.out[1] {
                    for oi in 0..l.out[0] {
                        let gi = at(l.out, oi, oj, c as u32);
                        s.add(1.0, m.v[gi], m.e[gi]);
                    }
                }
                let t = s.terms();
                let (v, e) = s.done();
                ps.push(Ev { v: vec![v], e: vec![e], terms: vec![t] });
            }
            (o, ps)
        }
        Kind::Pool { mask, stride } => {
            let mut sums: Vec<Sum> = (0..size(l.inp)).map(|_| Sum::default()).collect();
            for k in 0..l.out[2] {
                for j in 0..l.out[1] {
                    for i in 0..l.out[0] {
                        let mut best = f64::NEG_INFINITY; // largest lower bound
                        let cells: Vec<usize> = (0..mask[1])
                            .flat_map(|jj| (0..mask[0]).map(move |ii| (ii, jj)))
                            .map(|(ii, jj)| at(l.inp, i * stride + ii, j * stride + jj, k))
                            .collect();
                        for &c in &cells {
                            best = best.max(x.v[c] - x.e[c]);
                        }
                        let cand: Vec<usize> = cells.into_iter().filter(|&c| x.v[c] + x.e[c] >= best).collect();
                        let oi = at(l.out, i, j, k);
                        for &c in &cand {
                            if cand.len() == 1 {
                                sums[c].add(1.0, g.v[oi], g.e[oi]);
                            } else {
                                sums[c].add(0.5, g.v[oi], g.v[oi].abs() + 2.0 * g.e[oi]);
                            }
                        }
                    }
                }
            }
            for (i, s) in sums.into_iter().enumerate() {
                (o.v[i], o.e[i]) = s.done();
            }
            (o, vec![])
        }
        Kind::Soft => {
            let n = y.v.len();
            let mut s = Sum::default();
            for j in 0..n {
                mul(&mut s, y.v[j], y.e[j], g.v[j], g.e[j]);
            }
            let mag = s.mag;
            let (sv, se) = s.done();
            let se = se + (n as f64 + 4.0) * U * mag;
            for i in 0..n {
                let (p, ep) = (y.v[i], y.e[i]);
                o.v[i] = p * (g.v[i] - sv);
                o.e[i] = (ep + 6.0 * U * p) * (g.v[i].abs() + g.e[i] + sv.abs() + se)
                    + p * (g.e[i] + se)
                    + 1e-30;
            }
            (o, vec![])
        }
        Kind::Probe => (g.clone(), vec![]),
    }
}

/// sum of gradients as accumulated in f32: whether a pass is summed first and then added, or its
/// terms are added one by one
pub fn accumulate(acc: &mut Vec<Vec<Ev>>, add: &[Vec<Ev>]) {
    for (a, b) in acc.iter_mut().zip(add) {
        for (x, y) in a.iter_mut().zip(b) {
            for i in 0..x.v.len() {
                let mut s = Sum::default();
                s.add(1.0, x.v[i], x.e[i]);
                s.add(1.0, y.v[i], y.e[i]);
                // a sum that starts at nothing rounds as the sum of the pass does
                if let Some(t) = y.terms.get(i).filter(|_| x.v[i] != 0.0 || x.e[i] != 0.0) {
                    s.mag = s.mag.max(x.v[i].abs() + t.mag);
                    s.n += t.n - 1.0;
                    if t.low != i32::MAX {
                        s.low = if s.any { s.low.min(t.low) } else { t.low };
                        s.any = true;
                    }
                }
                (x.v[i], x.e[i]) = s.done();
            }
        }
    }
}
pub fn zero_grads(layers: &[Layer]) -> Vec<Vec<Ev>> {
    layers
        .iter()
        .map(|l| match &l.kind {
            Kind::Fc { w, b } => vec![Ev::zero(w.d.len()), Ev::zero(b.d.len())],
            Kind::Conv { k, b, .. } => {
                k.iter().map(|t| Ev::zero(t.d.len())).chain(b.iter().map(|_| Ev::zero(1))).collect()
            }
            _ => vec![],
        })
        .collect()
}
