//! H01-H05: long histories on a network (or on one layer used directly) checked against the reference model.
use crate::bridge::{bits, cur, fp_layers, LFp, LibLayer, Network, NetworkRunState as Mode, SerializedLayer, Tensor};
use crate::json::V;
use crate::model::*;
use crate::model::Kind;
use crate::rng::{hash_str, mix, Rng};
use crate::user::{add_used, gen_pre, give_past, live_before, Ctl, Own, Probe};
use crate::storage::{arm, bury, crashed, disarm, furnish, gen_crash, gen_hard, gen_soft, process, task};
use crate::world::*;
use rusty_network::layer::{
    convolutional::ConvolutionalLayer, fully_connected::FullyConnectedLayer, max_pool::MaxPoolLayer,
    softmax::SoftmaxLayer,
};
use std::cell::RefCell;
use std::rc::Rc;

/// what a stored network consists of
pub fn stored(layers: &[Layer]) -> Vec<Layer> {
    layers
        .iter()
        .map(|l| {
            let mut l = l.clone();
            if let Kind::Probe = l.kind {
                l.kind = Kind::Pool { mask: [1, 1, 1], stride: 1 };
            }
            l
        })
        .collect()
}

#[cfg(feature = "grads")]
pub fn param_grads(l: &dyn LibLayer) -> Option<Vec<Vec<f32>>> {
    Some(l.sim_parameter_gradients().iter().map(cur::elements).collect())
}
#[cfg(not(feature = "grads"))]
pub fn param_grads(_: &dyn LibLayer) -> Option<Vec<Vec<f32>>> {
    None
}

// ---------------------------------------------------------------- plans

const KINDS: [&str; 5] = ["fc", "conv", "conv", "pool", "soft"];
/// a layer to be added, possibly after a life of its own
fn gen_added(r: &mut Rng, styles: &[i64]) -> V {
    let t = KINDS[r.below(5) as usize];
    let sc = gen_scale(r);
    gen_layer(r, sc, t, styles).set("name", "added").set("pre", gen_pre(r, true))
}

pub fn gen(prop: &str, r: &mut Rng) -> V {
    let exact: &[i64] = &[0, 0, 3, 1];
    let wide: &[i64] = &[0, 0, 1, 3, 4, 6];
    let styles: &[i64] = if prop == "H01" || r.chance(250) { wide } else { exact };
    let single = r.chance(match prop {
        "H01" => 200,
        "H04" => 350,
        _ => 300,
    });
    let st = |r: &mut Rng| styles[r.below(styles.len() as u64) as usize];
    let op = |o: &str| V::obj().set("op", o);
    // now and then numbers that spoil everything computed from them
    let val = |r: &mut Rng, o: &str| op(o).set("style", if r.chance(30) { [7, 7, 8][r.below(3) as usize] } else { st(r) }).set("seed", r.seed());
    let mut ops: Vec<V> = vec![];
    if single {
        let sc = gen_scale(r);
        let t = KINDS[r.below(5) as usize];
        let mut l = gen_layer(r, sc, t, styles).set("name", "alone").set("pre", gen_pre(r, false));
        let flat = t == "fc" || r.chance(200);
        let shv = |r: &mut Rng, sc: Scale| gen_shape(r, sc, flat).iter().map(|&x| x as i64).collect::<Vec<_>>();
        l.put("in", shv(r, sc));
        let rej = |r: &mut Rng| {
            let o = ["fwd_bad", "bwd_bad", "morph_bad", "wrongkind", "baddata"][r.below(5) as usize];
            let far = o == "morph_bad" && r.chance(400);
            let mut v = op(o).set("n", if far { 36 + r.seed() / 2 } else { r.below(36) as i64 });
            if o == "baddata" {
                let sc = gen_scale(r);
                let mut m = gen_layer(r, sc, t, styles).set("name", gen_name(r));
                m.put("in", shv(r, sc));
                v = v.set("l", m).set("k", r.below(8)).set("at", r.below(400));
            }
            v
        };
        let most = if r.chance(200) { 12 } else { 5 };
        for _ in 0..1 + r.below(most) {
            match r.below(14) {
                0..=2 => {
                    ops.push(val(r, "fwd"));
                    for _ in 0..1 + r.below(3) {
                        ops.push(val(r, "bwd"));
                    }
                }
                3 => ops.push(val(r, "fwd")),
                4 => {
                    ops.push(op("train"));
                    ops.push(val(r, "fwd"));
                    ops.push(val(r, "bwd"));
                }
                5 => {
                    ops.push(op("inf"));
                    ops.push(val(r, "fwd"));
                    ops.push(val(r, "bwd"));
                }
                6 => {
                    ops.push(val(r, "fwd"));
                    ops.push(op("clear"));
                    ops.push(val(r, "bwd"));
                }
                7..=8 => {
                    ops.push(val(r, "fwd"));
                    ops.push(rej(r));
                    ops.push(val(r, "bwd"));
                }
                9 => ops.push(op(if r.chance(500) { "train" } else { "inf" })),
                10 => {
                    ops.push(op("round").set("n", r.below(2)));
                    ops.push(val(r, "fwd"));
                    ops.push(val(r, "bwd"));
                }
                11 => {
                    let sc = gen_scale(r);
                    let mut m = gen_layer(r, sc, t, styles).set("name", "morphed");
                    m.put("in", shv(r, sc));
                    if r.chance(300) {
                        // other values, the same geometry
                        m = l.clone().set("name", "morphed").set("seed", r.seed());
                    }
                    ops.push(op("morph").set("l", m).set("train", r.chance(500)));
                    ops.push(val(r, "fwd"));
                    ops.push(val(r, "bwd"));
                }
                12 => {
                    ops.push(op(if r.chance(500) { "fillw" } else { "fillb" }).set("n", r.range(-8, 8)));
                    ops.push(val(r, "fwd"));
                }
                _ => {
                    ops.push(val(r, "fwd"));
                    ops.push(val(r, "fwd"));
                    ops.push(val(r, "bwd"));
                    ops.push(op("clear"));
                }
            }
        }
        return V::obj().set("kind", "layer").set("l", l).set("train", r.chance(700)).set("ops", V::Arr(ops)).set("ent", r.seed());
    }
    let net = if r.chance(60) {
        V::obj().set("in", vec![1, 1, 1]).set("layers", V::Arr(vec![]))
    } else {
        let mut net = gen_net(r, styles, 4, 500);
        give_past(r, &mut net, true);
        net
    };
    let rej = |r: &mut Rng| match r.below(9) {
        0..=1 => op("add_bad").set("n", r.below(3)).set("l", gen_added(r, styles)).set("probe", r.chance(200)),
        2..=3 => op("infer_shape").set("n", r.below(6)),
        4..=5 => op("backward_shape").set("n", r.below(6)),
        6 => op("geometry").set("n", if r.chance(400) { r.below(16) as i64 } else { 16 + r.seed() / 2 }),
        7 => op("load_bad").set("n", r.below(3)),
        _ => op("save").set("f", gen_hard(r)),
    };
    let most = if r.chance(200) { 14 } else { 6 };
    if prop != "H02" && r.chance(8) {
        ops.push(op("many").set("style", r.range(0, 1)).set("seed", r.seed()).set("n", [300, 700, 2100][r.below(3) as usize]));
    }
    for _ in 0..1 + r.below(most) {
        match r.below(20) {
            0..=3 => {
                ops.push(val(r, "infer"));
                for _ in 0..1 + r.below(3) {
                    ops.push(val(r, "backward"));
                }
            }
            4 => ops.push(val(r, "infer")),
            5..=6 => {
                ops.push(op("train"));
                if r.chance(300) {
                    ops.push(val(r, "backward"));
                }
                ops.push(val(r, "infer"));
                ops.push(val(r, "backward"));
            }
            7 => {
                ops.push(op("inf"));
                ops.push(val(r, "infer"));
                ops.push(val(r, "backward"));
            }
            8..=10 => {
                ops.push(val(r, "infer"));
                ops.push(rej(r));
                ops.push(val(r, "backward"));
            }
            11 => {
                ops.push(val(r, "infer"));
                ops.push(val(r, "infer"));
                ops.push(val(r, "backward"));
            }
            12..=13 => {
                let p = r.below(6);
                if r.chance(500) {
                    ops.push(val(r, "infer").set("fail", p + 1));
                    if r.chance(300) {
                        ops.push(val(r, "backward"));
                    }
                    ops.push(val(r, "infer"));
                    ops.push(val(r, "backward"));
                } else {
                    ops.push(val(r, "infer"));
                    ops.push(val(r, "backward").set("fail", p + 1));
                    if r.chance(500) {
                        ops.push(op("train"));
                        ops.push(val(r, "infer"));
                    }
                    ops.push(val(r, "backward"));
                }
            }
            14..=15 => {
                ops.push(op("add").set("l", gen_added(r, styles)));
                if r.chance(400) {
                    ops.push(op("add").set("l", V::obj().set("t", "probe").set("name", "probe")));
                }
                ops.push(val(r, "infer"));
                ops.push(val(r, "backward"));
            }
            16..=17 => {
                let f = match r.below(6) {
                    0 => gen_hard(r),
                    1 => gen_crash(r),
                    2 => gen_soft(r),
                    _ => V::obj(),
                };
                ops.push(op("save").set("f", f));
                let f = match r.below(6) {
                    0 => gen_hard(r),
                    1 => gen_soft(r),
                    _ => V::obj(),
                };
                if r.chance(700) {
                    ops.push(op("restart").set("train", r.chance(700)).set("f", f));
                } else {
                    ops.push(op("load").set("f", f));
                }
                ops.push(val(r, "infer"));
                ops.push(val(r, "backward"));
            }
            18 => ops.push(op(if r.chance(500) { "train" } else { "inf" })),
            _ => ops.push(rej(r)),
        }
    }
    V::obj()
        .set("kind", "net")
        .set("net", net)
        .set("train", r.chance(700))
        .set("ops", V::Arr(ops))
        .set("ent", r.seed())
}

// ---------------------------------------------------------------- shared bits

struct Last {
    pass: Pass,
    /// made in training mode, which has not been left or entered again since
    train: bool,
}

pub fn hash_bits(v: &[f32]) -> u64 {
    v.iter().fold(7, |h, f| mix(h, if f.is_nan() { 0x7fc0_0000 } else { f.to_bits() as u64 }))
}
pub fn input(sh: Sh, o: &V) -> T {
    let style = match o.i("style") {
        2 => 1,
        s => s,
    };
    T { sh, d: values(size(sh), style, o.u("seed")) }
}
/// not to be compared: only what comes after it is
fn spoilt(x: &T) -> bool {
    x.d.iter().any(|v| !v.is_finite())
}
fn junk(n: usize, seed: u64) -> Vec<f32> {
    values(n, if seed % 3 == 0 { 7 } else { 1 }, seed ^ 77)
}
pub fn show_diff(d: (usize, f64, f32), e: &Ev) -> String {
    if d.0 == usize::MAX {
        format!("{} elements instead of {}", d.2, d.1)
    } else {
        format!("element {} is {} instead of {} (tolerance {:.2e})", d.0, d.2, d.1, 2.0 * e.e[d.0])
    }
}
pub fn other_shape(s: Sh, n: u64) -> Sh {
    match n % 6 {
        0 => [s[0] + 1, s[1], s[2]],
        1 => [s[0], s[1] + 1, s[2]],
        2 => [s[0], s[1], s[2] + 1],
        3 if s[0] != s[1] => [s[1], s[0], s[2]],
        4 if s[1] != s[2] => [s[0], s[2], s[1]],
        5 if s[0] > 1 => [s[0] - 1, s[1], s[2]],
        _ => [s[0] + 2, s[1], s[2]],
    }
}
pub fn mode_of(train: bool) -> Mode {
    if train {
        Mode::Training
    } else {
        Mode::Inference
    }
}

/// a drawn geometry that does not fit, given to a layer of the kind; None if the draw fits after all
fn misfit(own: &mut Own, seed: u64) -> Option<(String, bool)> {
    let mut r = Rng::new(seed);
    let name = "bad".to_string();
    let s = cur::shape;
    let k = |sh: Sh| cur::tensor(sh, &vec![0.5; size(sh)]);
    let big = if r.chance(100) { 300 } else { 9 };
    let strides = if r.chance(300) { big } else { 5 };
    let mut img = [r.range(0, big) as u32, r.range(0, 9) as u32, r.range(1, 3) as u32];
    let mut ker = [r.range(0, 6) as u32, r.range(0, 6) as u32, img[2]];
    if r.chance(200) {
        // one direction is right
        ker[0] = img[0];
    }
    if r.chance(200) {
        ker[1] = img[1];
    }
    if r.chance(500) {
        (img, ker) = ([img[1], img[0], img[2]], [ker[1], ker[0], ker[2]]);
    }
    let stride = r.range(0, strides) as u32;
    if r.chance(60) {
        img = [[70_000, 70_000, 1], [66_000, 33_000, 2], [3, 1_500_000_000, 1], [1, 5, 1_000_000_000]][r.below(4) as usize];
        ker = [1, 1, img[2].min(3)];
    }
    let fits = |q: usize| stride > 0 && ker[q] > 0 && img[q] >= ker[q] && (img[q] - ker[q]) % stride == 0;
    let vast = img.iter().fold(1u64, |a, &x| a * x as u64) > u32::MAX as u64;
    let ok = match own {
        Own::Fc(x) => {
            let w = [r.range(0, 5) as u32, r.range(0, 4) as u32, r.range(1, 2) as u32];
            let mut b = [w[0], 1, w[2]];
            match r.below(3) {
                0 => b[1] = [0, 2, 3][r.below(3) as usize],
                1 => b[0] = if r.chance(500) || b[0] == 0 { b[0] + 1 } else { b[0] - 1 },
                _ => b[2] = if r.chance(500) { b[2] + 1 } else { b[2] - 1 },
            }
            return Some((format!("weights {:?} and bias {:?}", w, b), x.fill_from_state(k(w), k(b), &name).is_ok()));
        }
        Own::Conv(x) => {
            if ker[2] != img[2] && !vast || !vast && fits(0) && fits(1) {
                ker[2] = if r.chance(500) { img[2] + 1 } else { img[2] - 1 };
            }
            if r.chance(500) {
                match ConvolutionalLayer::new(s(ker), s(img), stride, 1 + r.below(3) as u32, &name) {
                    Ok(l) => {
                        *x = l;
                        true
                    }
                    Err(_) => false,
                }
            } else {
                let n = 1 + r.below(2) as usize;
                x.fill_from_state(vec![k(ker); n], vec![k([1, 1, 1]); n], s(img), stride, &name).is_ok()
            }
        }
        Own::Pool(x) => {
            if !vast && fits(0) && fits(1) {
                return None;
            }
            if r.chance(500) {
                match MaxPoolLayer::new(s(ker), s(img), stride, &name) {
                    Ok(l) => {
                        *x = l;
                        true
                    }
                    Err(_) => false,
                }
            } else {
                x.fill_from_state(s(img), s(ker), stride, &name).is_ok()
            }
        }
        Own::Soft(_) => return None,
    };
    Some((format!("image {:?}, kernel or mask {:?} and stride {}", img, ker, stride), ok))
}

/// Some(description) if a layer of impossible geometry was accepted; panics are caught by the caller
fn impossible(n: u64) -> Option<String> {
    if n >= 16 {
        let mut own = match n % 3 {
            0 => Own::Fc(FullyConnectedLayer::empty()),
            1 => Own::Conv(ConvolutionalLayer::empty()),
            _ => Own::Pool(MaxPoolLayer::empty()),
        };
        return misfit(&mut own, n / 3).and_then(|(what, ok)| if ok { Some(what) } else { None });
    }
    let name = "bad".to_string();
    let s = cur::shape;
    let one = || cur::tensor([1, 1, 1], &[0.5]);
    let k = |sh: Sh| cur::tensor(sh, &vec![0.5; size(sh)]);
    let conv = |ks: Vec<Tensor>, bs: Vec<Tensor>, i: Sh, st: u32| ConvolutionalLayer::empty().fill_from_state(ks, bs, s(i), st, &name).is_ok();
    let fc = |w: Sh, b: Sh| FullyConnectedLayer::empty().fill_from_state(k(w), k(b), &name).is_ok();
    let (what, ok) = match n % 16 {
        0 => ("a kernel larger than the image", ConvolutionalLayer::new(s([4, 2, 1]), s([3, 5, 1]), 1, 1, &name).is_ok()),
        1 => ("a kernel larger than the image", ConvolutionalLayer::new(s([2, 6, 1]), s([3, 5, 1]), 1, 1, &name).is_ok()),
        2 => ("a stride that does not fit the image", ConvolutionalLayer::new(s([2, 2, 1]), s([5, 4, 1]), 2, 1, &name).is_ok()),
        3 => ("a kernel of another depth than the image", ConvolutionalLayer::new(s([2, 2, 2]), s([4, 4, 3]), 1, 2, &name).is_ok()),
        4 => ("stride zero", ConvolutionalLayer::new(s([2, 2, 1]), s([4, 4, 1]), 0, 1, &name).is_ok()),
        5 => ("no kernels", ConvolutionalLayer::new(s([2, 2, 1]), s([4, 4, 1]), 1, 0, &name).is_ok()),
        6 => ("kernels of different shapes", conv(vec![k([2, 2, 1]), k([2, 1, 1])], vec![one(), one()], [4, 4, 1], 1)),
        7 => ("fewer biases than kernels", conv(vec![k([2, 2, 1]), k([2, 2, 1])], vec![one()], [4, 4, 1], 1)),
        8 => ("a bias that is not a single value", conv(vec![k([2, 2, 1])], vec![k([2, 1, 1])], [4, 4, 1], 1)),
        9 => ("a mask larger than the image", MaxPoolLayer::new(s([3, 2, 1]), s([2, 4, 1]), 1, &name).is_ok()),
        10 => ("a mask whose stride does not fit", MaxPoolLayer::new(s([2, 2, 1]), s([5, 4, 1]), 2, &name).is_ok()),
        11 => ("pooling stride zero", MaxPoolLayer::new(s([2, 2, 1]), s([4, 4, 1]), 0, &name).is_ok()),
        12 => ("weights and bias of different size", fc([3, 2, 1], [4, 1, 1])),
        13 => ("weights and bias of different depth", fc([3, 2, 2], [3, 1, 1])),
        14 => ("a bias with two columns", fc([3, 2, 1], [3, 2, 1])),
        _ => ("a mask larger than the image", MaxPoolLayer::new(s([1, 5, 1]), s([2, 4, 1]), 1, &name).is_ok()),
    };
    if ok {
        Some(what.into())
    } else {
        None
    }
}

/// everything a network shows to its user
#[derive(PartialEq, Clone, Debug)]
pub struct Snap {
    pub layers: Vec<LFp>,
    pub modes: Vec<Mode>,
    pub mode: Mode,
    pub inp: Sh,
    pub out: Sh,
    pub states: Vec<(Sh, Vec<u32>)>,
}
pub fn snap(n: &Network) -> Snap {
    let mut states = vec![];
    let mut i = 0;
    while let Ok(t) = n.get_intermediate_state(i) {
        states.push((cur::sh(t.get_shape()), bits(&cur::elements(t))));
        i += 1;
        if i > 1000 {
            break;
        }
    }
    Snap {
        layers: fp_layers(n),
        modes: n.get_layers().iter().map(|l| l.get_run_mode()).collect(),
        mode: n.get_run_state(),
        inp: cur::sh(n.get_input_shape()),
        out: cur::sh(n.get_output_shape()),
        states,
    }
}
pub fn snap_diff(a: &Snap, b: &Snap) -> &'static str {
    if a.layers != b.layers {
        "layers"
    } else if a.modes != b.modes || a.mode != b.mode {
        "mode"
    } else if a.inp != b.inp || a.out != b.out {
        "shapes"
    } else if a.states != b.states {
        "outputs"
    } else {
        "nothing"
    }
}

pub fn run(prop: &str, plan: &V) {
    if plan.s("kind") == "layer" {
        task(plan.u("ent"), || LayerRun::go(prop, plan));
    } else {
        run_net(prop, plan);
    }
}

// ---------------------------------------------------------------- a network

const FILE: &str = "session.bin";

/// what survives a restart: the plan's view of the world
struct Ses<'a> {
    prop: &'a str,
    layers: Vec<Layer>,
    mode: Mode,
    saved: Option<Vec<Layer>>,
    done: usize,
}
struct Live {
    net: Network,
    ctls: Vec<(usize, Rc<RefCell<Ctl>>)>,
    last: Option<Last>,
    /// None: not known
    acc: Vec<Option<Vec<Ev>>>,
}

fn bad(prop: &str, props: &[&str], msg: String) {
    if props.contains(&prop) {
        violate(msg);
    }
}

fn run_net(prop: &str, plan: &V) {
    furnish(false);
    let v = plan.get("net");
    let mut layers = vec![];
    let mut sh = shape_of(v.get("in"));
    for l in v.get("layers").arr() {
        if let Some(x) = layer(l, sh) {
            sh = x.out;
            layers.push(x);
        }
    }
    let mut s = Ses { prop, layers, mode: mode_of(plan.b("train")), saved: None, done: 0 };
    let ops = plan.get("ops").arr();
    let mut life = 0;
    let mut restart: Option<V> = None;
    while (s.done < ops.len() || life == 0) && !violated() {
        life += 1;
        let r = restart.take();
        let next = RefCell::new(None);
        process(true, mix(plan.u("ent"), life), || {
            *next.borrow_mut() = s.life(ops, r.as_ref());
        });
        bury();
        restart = next.into_inner();
        if s.saved.is_none() {
            let _ = w().disk.unlink(FILE);
        }
    }
}

pub fn sh_text(s: Sh) -> String {
    format!("{}x{}x{}", s[0], s[1], s[2])
}

impl Ses<'_> {
    fn bad(&self, props: &[&str], msg: String) {
        bad(self.prop, props, msg);
    }
    fn out(&self) -> Option<Sh> {
        self.layers.last().map(|l| l.out)
    }
    fn inp(&self) -> Option<Sh> {
        self.layers.first().map(|l| l.inp)
    }
    fn add_one(&self, live: &mut Live, l: &Layer) -> Result<Result<(), &'static str>, String> {
        if let Kind::Probe = l.kind {
            let c = Rc::new(RefCell::new(Ctl::default()));
            let idx = live.net.get_layers().len();
            let r = lib(|| {
                let mut p = Probe::new(l.inp, &c);
                live_before(&mut p, l);
                live.net.add_layer(p)
            });
            c.borrow_mut().seen = None;
            if let Ok(Ok(())) = r {
                live.ctls.push((idx, c));
            }
            r
        } else {
            lib(|| add_used(&mut live.net, l))
        }
    }
    fn added(&self, live: &mut Live, ls: &[Layer]) {
        live.last = None;
        for z in zero_grads(ls) {
            live.acc.push(Some(z));
        }
    }

    /// one process life; Some(op) if it ended in a restart
    fn life(&mut self, ops: &[V], how: Option<&V>) -> Option<V> {
        let mut live = Live { net: Network::new(self.mode), ctls: vec![], last: None, acc: vec![] };
        let mut from_file = false;
        if let Some(h) = how {
            self.mode = mode_of(h.b("train"));
            live.net = lib(|| Network::new(self.mode)).ok()?;
            if let Some(sv) = self.saved.clone() {
                // a probe first, then the file, then a probe
                let first = sv.first().map(|l| l.inp).unwrap_or([1, 1, 1]);
                let p = |s: Sh| Layer { kind: Kind::Probe, name: "probe".into(), inp: s, out: s, pre: 0 };
                let _ = self.add_one(&mut live, &p(first));
                arm(h.get("f"));
                let r = lib(|| live.net.load_from_file(&FILE.to_string()).map_err(|e| e.to_string()));
                let io = disarm();
                w().event(42, 0, || format!("== restarted, load: {:?}", r));
                match r {
                    Err(p) => {
                        violate(format!("panic: loading after a restart: {}", p));
                        return None;
                    }
                    Ok(Ok(())) => {
                        from_file = true;
                        w().count("op restart from file");
                    }
                    Ok(Err(e)) => {
                        if io.hard_fired == 0 {
                            self.bad(&["H01", "H02", "H05"], format!("load: refused after a restart: {}", e));
                            return None;
                        }
                        // once more, without faults; a failed load must have left nothing behind
                        match lib(|| live.net.load_from_file(&FILE.to_string()).map_err(|e| e.to_string())) {
                            Ok(Ok(())) => from_file = true,
                            o => {
                                self.bad(&["H01", "H02", "H05"], format!("load: refused after a failed one: {:?}", o));
                                return None;
                            }
                        }
                    }
                }
                let mut ls = vec![p(first)];
                ls.extend(sv.iter().cloned());
                let end = ls.last().unwrap().out;
                let _ = self.add_one(&mut live, &p(end));
                ls.push(p(end));
                self.added(&mut live, &ls);
                self.layers = ls;
            }
        }
        if !from_file {
            for l in self.layers.clone() {
                match self.add_one(&mut live, &l) {
                    Ok(Ok(())) => self.added(&mut live, &[l]),
                    Ok(Err(e)) => {
                        violate(format!("build: a fitting layer ({:?} {} -> {}) is refused: {}", l.name, sh_text(l.inp), sh_text(l.out), e));
                        return None;
                    }
                    Err(p) => {
                        violate(format!("panic: adding a layer: {}", p));
                        return None;
                    }
                }
            }
        }
        self.check_mode(&mut live, "at the start");
        while self.done < ops.len() && !violated() {
            let o = &ops[self.done];
            self.done += 1;
            w().event(43, hash_str(o.s("op")), || format!("== {}", o.text()));
            w().count(&format!("op {}", o.s("op")));
            if o.s("op") == "restart" {
                return Some(o.clone());
            }
            self.step(&mut live, o);
            if crashed() {
                // the process is gone; whether the file is old or new is not this property's business
                self.saved = None;
                return Some(V::obj().set("train", self.mode == Mode::Training));
            }
            if violated() {
                break;
            }
            self.check_mode(&mut live, o.s("op"));
            self.check_params(&mut live, o.s("op"));
        }
        None
    }

    fn check_mode(&self, live: &mut Live, when: &str) {
        let m = lib(|| {
            (live.net.get_run_state(), live.net.get_layers().iter().map(|l| l.get_run_mode()).collect::<Vec<_>>())
        });
        match m {
            Err(p) => violate(format!("panic: {}", p)),
            Ok((n, ls)) => {
                if n != self.mode {
                    self.bad(&["H02"], format!("mode: after {} the network reports {:?} instead of {:?}", when, n, self.mode));
                }
                for (i, l) in ls.iter().enumerate() {
                    if *l != self.mode {
                        self.bad(&["H02"], format!("mode: after {} layer {} is in {:?} instead of {:?}", when, i, l, self.mode));
                    }
                }
                if ls.len() != self.layers.len() {
                    self.bad(&["H02", "H05"], format!("layers: after {} there are {} layers instead of {}", when, ls.len(), self.layers.len()));
                }
                if self.prop == "H02" && self.done > 1 {
                    nontrivial();
                }
            }
        }
    }

    fn check_params(&self, live: &mut Live, when: &str) {
        if self.prop != "H04" || self.mode != Mode::Training || violated() {
            return;
        }
        let got = lib(|| live.net.get_layers().iter().map(|l| param_grads(l.as_ref())).collect::<Vec<_>>());
        let got = match got {
            Err(p) => return violate(format!("panic: {}", p)),
            Ok(g) => g,
        };
        for (i, g) in got.iter().enumerate() {
            if let (Some(g), Some(Some(a))) = (g, live.acc.get(i)) {
                cmp_params(g, a, &format!("after {} layer {}", when, i), &self.layers[i]);
            }
        }
    }

    fn snap(&self, live: &mut Live) -> Result<Snap, String> {
        lib(|| snap(&live.net))
    }

    /// an operation that must be refused and leave no trace
    fn rejected(&self, live: &mut Live, what: &str, f: impl FnOnce(&mut Network) -> Result<(), String>) {
        let a = self.snap(live);
        let r = lib(|| f(&mut live.net));
        w().event(44, 0, || format!("   {:?}", r));
        match r {
            Err(p) => return violate(format!("panic: {}: {}", what, p)),
            Ok(Ok(())) => return self.bad(&["H05"], format!("accepted: {} reports success", what)),
            Ok(Err(_)) => {}
        }
        let b = self.snap(live);
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    let d = snap_diff(&a, &b);
                    self.bad(&["H05"], format!("effect: {} was refused but changed the {}", what, d));
                }
                if self.prop == "H05" {
                    nontrivial();
                }
            }
            (Err(p), _) | (_, Err(p)) => violate(format!("panic: {}", p)),
        }
    }

    fn step(&mut self, live: &mut Live, o: &V) {
        let training = self.mode == Mode::Training;
        match o.s("op") {
            "infer" => self.infer(live, o),
            "backward" => self.backward(live, o),
            "many" => self.many(live, o),
            "train" => {
                if let Err(p) = lib(|| live.net.switch_to_training()) {
                    return violate(format!("panic: switch_to_training: {}", p));
                }
                self.mode = Mode::Training;
                if let Some(l) = &mut live.last {
                    l.train = false;
                }
                live.acc = zero_grads(&self.layers).into_iter().map(Some).collect();
            }
            "inf" => {
                if let Err(p) = lib(|| live.net.switch_to_inference()) {
                    return violate(format!("panic: switch_to_inference: {}", p));
                }
                self.mode = Mode::Inference;
                if let Some(l) = &mut live.last {
                    l.train = false;
                }
            }
            "add" => {
                if self.layers.len() >= 10 {
                    return;
                }
                let inp = self.out().unwrap_or_else(|| if o.get("l").s("t") == "fc" { [3, 1, 1] } else { [4, 3, 2] });
                if let Some(l) = layer(o.get("l"), inp) {
                    match self.add_one(live, &l) {
                        Err(p) => violate(format!("panic: adding a layer: {}", p)),
                        Ok(Err(e)) => violate(format!("build: a fitting layer ({} -> {}) is refused: {}", sh_text(l.inp), sh_text(l.out), e)),
                        Ok(Ok(())) => {
                            self.added(live, std::slice::from_ref(&l));
                            self.layers.push(l);
                            let s = lib(|| (cur::sh(live.net.get_input_shape()), cur::sh(live.net.get_output_shape())));
                            if s != Ok((self.inp().unwrap(), self.out().unwrap())) {
                                self.bad(&["H05"], format!("shapes: after adding a layer the network reports {:?}", s));
                            }
                        }
                    }
                }
            }
            "add_bad" => {
                let Some(out) = self.out() else { return };
                let shp = other_shape(out, o.u("n") % 3);
                if o.b("probe") {
                    let c = Rc::new(RefCell::new(Ctl::default()));
                    return self.rejected(live, "adding a layer whose input does not fit", |n| {
                        n.add_layer(Probe::new(shp, &c)).map_err(|e| e.to_string())
                    });
                }
                if let Some(l) = layer(o.get("l"), shp).or_else(|| layer(&V::obj().set("t", "soft"), shp)) {
                    self.rejected(live, "adding a layer whose input does not fit", |n| {
                        add_used(n, &l).map_err(|e| e.to_string())
                    });
                }
            }
            "infer_shape" => {
                let sh = match self.inp() {
                    Some(s) => other_shape(s, o.u("n")),
                    None if o.u("n") % 2 == 0 => [0, 0, 0],
                    None => [2, 1, 1],
                };
                let x = T { sh, d: values(size(sh), 0, 3) };
                self.rejected(live, "inference on a wrongly shaped input", |n| n.infer(&cur::t(&x)).map_err(|e| e.to_string()));
            }
            "backward_shape" => {
                let sh = match self.out() {
                    Some(s) => other_shape(s, o.u("n")),
                    None if o.u("n") % 2 == 0 => [0, 0, 0],
                    None => [2, 1, 1],
                };
                let x = T { sh, d: values(size(sh), 0, 3) };
                self.rejected(live, "a backward pass with a wrongly shaped gradient", |n| {
                    n.backward(&cur::t(&x)).map_err(|e| e.to_string())
                });
            }
            "geometry" => match lib(|| impossible(o.u("n"))) {
                Err(p) => violate(format!("panic: building a layer of impossible geometry: {}", p)),
                Ok(Some(w)) => self.bad(&["H05"], format!("accepted: a layer with {} is built", w)),
                Ok(None) => {
                    if self.prop == "H05" {
                        nontrivial();
                    }
                }
            },
            "save" => {
                arm(o.get("f"));
                let r = lib(|| live.net.save_to_file(&FILE.to_string()).map_err(|e| e.to_string()));
                let io = disarm();
                if crashed() {
                    return;
                }
                match r {
                    Err(p) => violate(format!("panic: save: {}", p)),
                    Ok(Ok(())) if io.hard_fired == 0 && !self.layers.is_empty() => self.saved = Some(stored(&self.layers)),
                    _ => {
                        self.saved = None;
                        let _ = w().disk.unlink(FILE);
                    }
                }
            }
            "load_bad" => {
                let p = match o.u("n") % 3 {
                    0 => "missing.bin",
                    1 => "sub",
                    _ => {
                        w().disk.put_file("/sim/work/junk.bin", b"\x05\0\0\0\0\0\0\0junk");
                        "junk.bin"
                    }
                };
                self.rejected(live, "loading from an impossible file", |n| n.load_from_file(&p.to_string()).map_err(|e| e.to_string()));
            }
            "load" => {
                if self.layers.len() > 6 {
                    return;
                }
                arm(o.get("f"));
                let r = lib(|| live.net.load_from_file(&FILE.to_string()).map_err(|e| e.to_string()));
                let io = disarm();
                w().event(45, 0, || format!("   load: {:?}", r));
                let fits = self.saved.as_ref().map(|s| self.out().map(|o| o == s[0].inp).unwrap_or(true)).unwrap_or(false);
                match r {
                    Err(p) => violate(format!("panic: load: {}", p)),
                    Ok(Ok(())) if !fits => self.bad(&["H05"], "accepted: loading layers that do not fit reports success".into()),
                    Ok(Ok(())) => {
                        let s = self.saved.clone().unwrap();
                        self.added(live, &s);
                        self.layers.extend(s);
                    }
                    Ok(Err(e)) => {
                        if fits && io.hard_fired == 0 {
                            self.bad(&["H01", "H02", "H05"], format!("load: refused: {}", e));
                        }
                    }
                }
            }
            _ => {}
        }
        let _ = training;
    }

    fn infer(&mut self, live: &mut Live, o: &V) {
        let Some(inp) = self.inp() else {
            let x = T { sh: [0, 0, 0], d: vec![] };
            return self.rejected(live, "inference on an empty network", |n| n.infer(&cur::t(&x)).map_err(|e| e.to_string()));
        };
        let x = input(inp, o);
        let fail = if o.u("fail") > 0 && !live.ctls.is_empty() {
            Some((o.u("fail") as usize - 1) % live.ctls.len())
        } else {
            None
        };
        if let Some(f) = fail {
            live.ctls[f].1.borrow_mut().fail_fwd = true;
        }
        let r = lib(|| live.net.infer(&cur::t(&x)).map_err(|e| e.to_string()));
        if let Some(f) = fail {
            live.ctls[f].1.borrow_mut().fail_fwd = false;
        }
        match r {
            Err(p) => return violate(format!("panic: infer: {}", p)),
            Ok(Err(e)) => {
                if fail.is_none() {
                    return self.bad(&["H01", "H02", "H05"], format!("refused: inference on a fitting input: {}", e));
                }
                live.last = None;
                return;
            }
            Ok(Ok(())) => {
                if fail.is_some() {
                    return self.bad(&["H05"], "accepted: inference reports success although a layer failed".into());
                }
            }
        }
        if spoilt(&x) {
            w().count("inferences on numbers that are not finite");
            live.last = None;
            return;
        }
        let p = forward(&self.layers, &Ev::exact(&x.d));
        let got = lib(|| {
            let n = &live.net;
            let mut v = vec![];
            for i in 0..self.layers.len() + 1 {
                v.push(n.get_intermediate_state(i).map(|t| (cur::sh(t.get_shape()), cur::elements(t))).map_err(|e| e.to_string()));
            }
            let extra = n.get_intermediate_state(self.layers.len() + 1).is_ok();
            (v, n.get_output().map(cur::elements).map_err(|e| e.to_string()), extra)
        });
        let (states, out, extra) = match got {
            Err(p) => return violate(format!("panic: reading results: {}", p)),
            Ok(g) => g,
        };
        if extra {
            self.bad(&["H01", "H05"], "states: there are more intermediate states than layers".into());
        }
        for (i, s) in states.iter().enumerate() {
            let want = if i == 0 { inp } else { self.layers[i - 1].out };
            match s {
                Err(e) => return self.bad(&["H01"], format!("states: intermediate state {} is refused: {}", i, e)),
                Ok((sh, d)) => {
                    if *sh != want {
                        return self.bad(&["H01"], format!("states: intermediate state {} is {} instead of {}", i, sh_text(*sh), sh_text(want)));
                    }
                    if let Some(df) = p.states[i].differs(d) {
                        return self.bad(
                            &["H01", "H05"],
                            format!(
                                "value: in {:?} mode intermediate state {} ({}): {}",
                                self.mode,
                                i,
                                if i == 0 { "input".into() } else { kind(&self.layers[i - 1]) },
                                show_diff(df, &p.states[i])
                            ),
                        );
                    }
                }
            }
        }
        match &out {
            Ok(d) => {
                if let Some(df) = p.states.last().unwrap().differs(d) {
                    return self.bad(&["H01", "H05"], format!("value: output: {}", show_diff(df, p.states.last().unwrap())));
                }
                w().event(46, hash_bits(d), || format!("   output {:?}", &d[..d.len().min(6)]));
            }
            Err(e) => return self.bad(&["H01", "H05"], format!("refused: output after an inference: {}", e)),
        }
        if self.prop == "H01" && p.states.last().unwrap().sharp() > 0 && self.layers.iter().any(|l| !matches!(l.kind, Kind::Probe)) {
            nontrivial();
        }
        w().count("inferences compared");
        live.last = Some(Last { pass: p, train: self.mode == Mode::Training });
    }

    /// the same few passes over and over: nothing may depend on how many there were
    fn many(&mut self, live: &mut Live, o: &V) {
        let w: usize = self.layers.iter().map(|l| 3 * work(l) + size(l.inp) + 60).sum();
        if w > 3000 || self.layers.is_empty() {
            return;
        }
        let n = (o.u("n") as usize).min(3_000_000 / w);
        let (seed, inp) = (o.u("seed"), self.inp().unwrap());
        let training = self.mode == Mode::Training;
        let mut seen = vec![];
        for k in 0..3 {
            let v = o.clone().set("seed", (mix(seed, k) >> 24) as i64);
            self.infer(live, &v);
            if violated() {
                return;
            }
            let Some(l) = &live.last else { return };
            let pass = l.pass.clone();
            let g = input(self.out().unwrap(), &v);
            let b = backward(&self.layers, &pass, &Ev::exact(&g.d));
            seen.push((input(inp, &v), g, pass, b));
        }
        for c in 0..n {
            let (x, g, pass, b) = &seen[(mix(seed, c as u64) >> 20) as usize % 3];
            let back = training && c % 3 == 0;
            let r = lib(|| {
                live.net.infer(&cur::t(x))?;
                let y = cur::elements(live.net.get_output()?);
                if back {
                    live.net.backward(&cur::t(g))?;
                }
                Ok::<_, &'static str>(y)
            });
            let y = match r {
                Err(p) => return violate(format!("panic: pass {} of many: {}", c, p)),
                Ok(Err(e)) => return self.bad(&["H01", "H02", "H03", "H04", "H05"], format!("refused: pass {} of many: {}", c, e)),
                Ok(Ok(y)) => y,
            };
            let e = pass.states.last().unwrap();
            if let Some(df) = e.differs(&y) {
                return self.bad(&["H01", "H05"], format!("value: output of inference {} of many: {}", c, show_diff(df, e)));
            }
            if !back {
                continue;
            }
            for (i, ctl) in &live.ctls {
                if let Some(df) = ctl.borrow().grad.as_ref().and_then(|d| b.g[i + 1].differs(d)) {
                    return self.bad(&["H03", "H05"], format!("gradient: before layer {} in pass {} of many: {}", i + 1, c, show_diff(df, &b.g[i + 1])));
                }
            }
            for (a, n) in live.acc.iter_mut().zip(&b.params) {
                if let Some(a) = a {
                    let mut x = vec![std::mem::take(a)];
                    accumulate(&mut x, std::slice::from_ref(n));
                    *a = x.pop().unwrap();
                }
            }
            live.last = Some(Last { pass: pass.clone(), train: true });
        }
        if n > 0 {
            let pass = seen[(mix(seed, n as u64 - 1) >> 20) as usize % 3].2.clone();
            live.last = Some(Last { pass, train: training });
        }
        crate::world::w().add("passes in long rows", n as u64);
    }

    fn backward(&mut self, live: &mut Live, o: &V) {
        let Some(out) = self.out() else {
            let x = T { sh: [0, 0, 0], d: vec![] };
            return self.rejected(live, "a backward pass on an empty network", |n| n.backward(&cur::t(&x)).map_err(|e| e.to_string()));
        };
        let g = input(out, o);
        if self.mode != Mode::Training {
            let r = lib(|| live.net.backward(&cur::t(&g)).map_err(|e| e.to_string()));
            match r {
                Err(p) => violate(format!("panic: backward in inference mode: {}", p)),
                Ok(Ok(())) => self.bad(&["H02", "H05"], "gate: a backward pass is accepted in inference mode".into()),
                _ => {}
            }
            return;
        }
        let fail = if o.u("fail") > 0 && !live.ctls.is_empty() {
            Some((o.u("fail") as usize - 1) % live.ctls.len())
        } else {
            None
        };
        for c in &live.ctls {
            c.1.borrow_mut().grad = None;
        }
        if let Some(f) = fail {
            live.ctls[f].1.borrow_mut().fail_bwd = true;
        }
        let r = lib(|| live.net.backward(&cur::t(&g)).map_err(|e| e.to_string()));
        if let Some(f) = fail {
            live.ctls[f].1.borrow_mut().fail_bwd = false;
        }
        w().event(47, 0, || format!("   {:?}", r));
        let known = matches!(&live.last, Some(l) if l.train);
        match r {
            Err(p) => return violate(format!("panic: backward: {}", p)),
            Ok(Err(e)) => {
                live.acc = vec![None; self.layers.len()];
                if fail.is_none() && known {
                    self.bad(&["H02", "H03", "H04", "H05"], format!("refused: a backward pass after an inference in training mode: {}", e));
                }
                return;
            }
            Ok(Ok(())) => {
                if fail.is_some() {
                    return self.bad(&["H05"], "accepted: a backward pass reports success although a layer failed".into());
                }
            }
        }
        if !known || spoilt(&g) {
            live.acc = vec![None; self.layers.len()];
            return;
        }
        let p = &live.last.as_ref().unwrap().pass;
        let b = backward(&self.layers, p, &Ev::exact(&g.d));
        for (i, c) in &live.ctls {
            let c = c.borrow();
            match &c.grad {
                None => return self.bad(&["H03", "H05"], format!("gradient: layer {} was not reached by the backward pass", i)),
                Some(d) => {
                    let e = &b.g[i + 1];
                    if let Some(df) = e.differs(d) {
                        let next = self.layers.get(i + 1).map(kind).unwrap_or("output".into());
                        return self.bad(&["H03", "H05"], format!("gradient: before layer {} ({}): {}", i + 1, next, show_diff(df, e)));
                    }
                    if self.prop == "H03" && e.sharp() > 0 && i + 1 < self.layers.len() {
                        nontrivial();
                    }
                    w().event(48, hash_bits(d), || format!("   gradient before layer {}: {:?}", i + 1, &d[..d.len().min(6)]));
                }
            }
        }
        w().count("backward passes compared");
        for (a, n) in live.acc.iter_mut().zip(&b.params) {
            if let Some(a) = a {
                let mut x = vec![std::mem::take(a)];
                accumulate(&mut x, std::slice::from_ref(n));
                *a = x.pop().unwrap();
                if self.prop == "H04" && a.iter().any(|e| e.sharp() > 0) {
                    nontrivial();
                }
            }
        }
    }
}

fn kind(l: &Layer) -> String {
    match l.kind {
        Kind::Fc { .. } => "dense",
        Kind::Conv { .. } => "convolution",
        Kind::Pool { .. } => "pooling",
        Kind::Soft => "softmax",
        Kind::Probe => "user layer",
    }
    .into()
}

fn cmp_params(got: &[Vec<f32>], want: &[Ev], when: &str, l: &Layer) {
    if got.len() != want.len() {
        return violate(format!("parameters: {} ({}): {} gradient tensors instead of {}", when, kind(l), got.len(), want.len()));
    }
    for (j, (g, e)) in got.iter().zip(want).enumerate() {
        if let Some(d) = e.differs(g) {
            return violate(format!("parameters: {} ({}) gradient tensor {}: {}", when, kind(l), j, show_diff(d, e)));
        }
    }
}

// ---------------------------------------------------------------- one layer, used directly

/// try to give the live object an impossible geometry; true if it was accepted
pub fn misfill(own: &mut Own, spec: &Layer, n: u64) -> Option<bool> {
    let name = "bad".to_string();
    let s = cur::shape;
    let k = |sh: Sh| cur::tensor(sh, &vec![0.5; size(sh)]);
    if n >= 36 {
        return misfit(own, n).map(|m| m.1);
    }
    // everything but one detail fits the layer as it is
    if n >= 12 {
        let n = n - 12;
        return Some(match (own, &spec.kind) {
            (Own::Fc(x), Kind::Fc { w, b }) => {
                let mut q = b.sh;
                q[(n % 3) as usize] += 1 + (n / 3 % 2) as u32;
                x.fill_from_state(k(w.sh), k(q), &name).is_ok()
            }
            (Own::Conv(x), Kind::Conv { k: ks, stride, .. }) => {
                let (m, sh) = (ks.len(), ks[0].sh);
                let mut kernels = vec![k(sh); m];
                let mut biases = vec![k([1, 1, 1]); m];
                let (mut inp, mut st) = (spec.inp, *stride);
                match n % 8 {
                    0 => biases[m - 1] = k([2, 1, 1]),
                    1 => biases[m / 2] = k([1, 1, 2]),
                    2 => biases.push(k([1, 1, 1])),
                    3 => drop(biases.pop()),
                    4 => kernels.push(k([sh[0] + 1, sh[1], sh[2]])),
                    5 => inp[2] += 1,
                    6 => st = 0,
                    _ => inp = [sh[0].saturating_sub(1), inp[1], inp[2]],
                }
                if n % 8 == 4 {
                    biases.push(k([1, 1, 1]));
                }
                x.fill_from_state(kernels, biases, s(inp), st, &name).is_ok()
            }
            (Own::Pool(x), Kind::Pool { mask, stride }) => match n % 4 {
                0 => x.fill_from_state(s(spec.inp), s(*mask), 0, &name).is_ok(),
                1 => x.fill_from_state(s(spec.inp), s([spec.inp[0] + 1, mask[1], 1]), *stride, &name).is_ok(),
                2 => x.fill_from_state(s([mask[0] - 1, spec.inp[1], spec.inp[2]]), s(*mask), *stride, &name).is_ok(),
                _ => x.fill_from_state(s(spec.inp), s([mask[0], spec.inp[1] + 1, 1]), *stride, &name).is_ok(),
            },
            _ => return None,
        });
    }
    Some(match own {
        Own::Fc(x) => match n % 3 {
            0 => x.fill_from_state(k([3, 2, 1]), k([2, 1, 1]), &name).is_ok(),
            1 => x.fill_from_state(k([3, 2, 2]), k([3, 1, 1]), &name).is_ok(),
            _ => x.fill_from_state(k([3, 2, 1]), k([3, 2, 1]), &name).is_ok(),
        },
        Own::Conv(x) => match n % 6 {
            0 => x.fill_from_state(vec![k([5, 2, 1])], vec![k([1, 1, 1])], s([4, 4, 1]), 1, &name).is_ok(),
            1 => x.fill_from_state(vec![k([2, 2, 1])], vec![k([1, 1, 1])], s([4, 4, 1]), 0, &name).is_ok(),
            2 => x.fill_from_state(vec![], vec![], s([4, 4, 1]), 1, &name).is_ok(),
            3 => x.fill_from_state(vec![k([2, 2, 1]), k([2, 1, 1])], vec![k([1, 1, 1]), k([1, 1, 1])], s([4, 4, 1]), 1, &name).is_ok(),
            4 => x.fill_from_state(vec![k([2, 2, 1])], vec![], s([4, 4, 1]), 1, &name).is_ok(),
            _ => x.fill_from_state(vec![k([2, 2, 2])], vec![k([1, 1, 1])], s([4, 4, 1]), 1, &name).is_ok(),
        },
        Own::Pool(x) => match n % 3 {
            0 => x.fill_from_state(s([4, 4, 1]), s([5, 1, 1]), 1, &name).is_ok(),
            1 => x.fill_from_state(s([4, 4, 1]), s([2, 2, 1]), 0, &name).is_ok(),
            _ => x.fill_from_state(s([5, 4, 1]), s([2, 2, 1]), 2, &name).is_ok(),
        },
        Own::Soft(_) => return None,
    })
}

fn kind_word(l: &Layer) -> &'static str {
    match l.kind {
        Kind::Fc { .. } => "fc",
        Kind::Conv { .. } => "conv",
        Kind::Pool { .. } => "pool",
        _ => "soft",
    }
}

/// take one entry away or cut it short: no reader can make sense of what is left
fn spoil(x: &mut SerializedLayer, n: u64, k: u64, at: u64) -> Option<()> {
    fn go<K: serde::Serialize + std::hash::Hash + Eq>(m: &mut std::collections::HashMap<K, Vec<u8>>, n: u64, k: u64, at: u64) -> Option<()> {
        let mut keys: Vec<Vec<u8>> = m.keys().filter_map(|k| bincode::serialize(k).ok()).collect();
        keys.sort();
        let key = keys.get(k as usize % keys.len().max(1))?.clone();
        let is = |k: &K| bincode::serialize(k).map(|b| b == key).unwrap_or(false);
        if n % 3 == 0 {
            m.retain(|k, _| !is(k));
            return Some(());
        }
        let b = m.iter_mut().find(|(k, _)| is(k))?.1;
        if b.is_empty() {
            return None;
        }
        let at = if n % 3 == 1 { at as usize % b.len() } else { b.len() - 1 };
        b.truncate(at);
        Some(())
    }
    match x {
        SerializedLayer::SerialConvolutionalLayer(m) => go(m, n, k, at),
        SerializedLayer::SerialFullyConnectedLayer(m) => go(m, n, k, at),
        SerializedLayer::SerialMaxPoolLayer(m) => go(m, n, k, at),
        SerializedLayer::SerialSoftMaxLayer(m) => go(m, n, k, at),
    }
}

fn ser(x: &dyn LibLayer) -> LFp {
    use std::collections::BTreeMap;
    fn col<K: serde::Serialize>(it: impl IntoIterator<Item = (K, Vec<u8>)>) -> BTreeMap<Vec<u8>, Vec<u8>> {
        it.into_iter().map(|(k, v)| (bincode::serialize(&k).unwrap_or_default(), v)).collect()
    }
    let (kind, data) = match x.get_serialized() {
        SerializedLayer::SerialConvolutionalLayer(m) => ("conv", col(m)),
        SerializedLayer::SerialFullyConnectedLayer(m) => ("fc", col(m)),
        SerializedLayer::SerialMaxPoolLayer(m) => ("pool", col(m)),
        SerializedLayer::SerialSoftMaxLayer(m) => ("soft", col(m)),
    };
    LFp { kind, name: x.get_name(), inp: cur::sh(x.get_input_shape()), out: cur::sh(x.get_output_shape()), data }
}

struct LayerRun<'a> {
    prop: &'a str,
    x: Own,
    spec: Layer,
    mode: Mode,
    last: Option<(T, Pass, bool)>,
    input: Option<Tensor>,
    output: Option<Tensor>,
    acc: Option<Vec<Ev>>,
}

fn spec_of(v: &V) -> Layer {
    let inp = shape_of(v.get("in"));
    layer(v, inp).or_else(|| layer(v, [inp[0], 1, inp[2]])).unwrap_or(Layer { kind: Kind::Soft, name: "s".into(), inp, out: inp, pre: 0 })
}

impl LayerRun<'_> {
    fn bad(&self, props: &[&str], msg: String) {
        bad(self.prop, props, msg);
    }
    fn go(prop: &str, plan: &V) {
        let spec = spec_of(plan.get("l"));
        let mode = mode_of(plan.b("train"));
        let made = lib(|| {
            let mut x = Own::make(&spec)?;
            match mode {
                Mode::Training => x.d().switch_to_training(),
                Mode::Inference => x.d().switch_to_inference(),
            }
            Ok::<Own, &'static str>(x)
        });
        let x = match made {
            Err(p) => return violate(format!("panic: building a layer: {}", p)),
            Ok(Err(e)) => return violate(format!("build: a layer of fitting geometry ({} -> {}) is refused: {}", sh_text(spec.inp), sh_text(spec.out), e)),
            Ok(Ok(x)) => x,
        };
        let acc = if mode == Mode::Training { zero_grads(std::slice::from_ref(&spec)).pop() } else { None };
        let mut r = LayerRun { prop, x, spec, mode, last: None, input: None, output: None, acc };
        for o in plan.get("ops").arr() {
            w().event(50, hash_str(o.s("op")), || format!("== {}", o.text()));
            w().count(&format!("op layer {}", o.s("op")));
            r.step(o);
            if violated() {
                return;
            }
            r.after(o.s("op"));
            if violated() {
                return;
            }
        }
    }
    fn after(&mut self, when: &str) {
        let g = lib(|| {
            let d = self.x.d();
            (d.get_run_mode(), cur::sh(d.get_input_shape()), cur::sh(d.get_output_shape()), param_grads(d))
        });
        match g {
            Err(p) => violate(format!("panic: after {}: {}", when, p)),
            Ok((m, i, o, g)) => {
                if m != self.mode {
                    self.bad(&["H02"], format!("mode: after {} the layer is in {:?} instead of {:?}", when, m, self.mode));
                }
                if self.prop == "H02" {
                    nontrivial();
                }
                if (i, o) != (self.spec.inp, self.spec.out) {
                    self.bad(
                        &["H05"],
                        format!("shapes: after {} the layer reports {} -> {} instead of {} -> {}", when, sh_text(i), sh_text(o), sh_text(self.spec.inp), sh_text(self.spec.out)),
                    );
                }
                if self.prop == "H04" && self.mode == Mode::Training {
                    if let (Some(g), Some(a)) = (g, &self.acc) {
                        cmp_params(&g, a, &format!("after {}", when), &self.spec);
                    }
                }
            }
        }
    }
    fn refused(&mut self, what: &str, f: impl FnOnce(&mut Own) -> Option<bool>) {
        let a = lib(|| ser(self.x.d()));
        match lib(|| f(&mut self.x)) {
            Err(p) => return violate(format!("panic: {}: {}", what, p)),
            Ok(None) => return,
            Ok(Some(true)) => return self.bad(&["H05"], format!("accepted: {} reports success", what)),
            Ok(Some(false)) => {}
        }
        if a != lib(|| ser(self.x.d())) {
            self.bad(&["H05"], format!("effect: {} was refused but changed the layer", what));
        }
        if self.prop == "H05" {
            nontrivial();
        }
    }
    fn step(&mut self, o: &V) {
        match o.s("op") {
            "fwd" => self.fwd(o),
            "bwd" => self.bwd(o),
            "train" | "inf" => {
                let t = o.s("op") == "train";
                if let Err(p) = lib(|| if t { self.x.d().switch_to_training() } else { self.x.d().switch_to_inference() }) {
                    return violate(format!("panic: switching mode: {}", p));
                }
                self.mode = mode_of(t);
                if let Some(l) = &mut self.last {
                    l.2 = false;
                }
                self.acc = if t { zero_grads(std::slice::from_ref(&self.spec)).pop() } else { None };
            }
            "clear" => {
                if let Err(p) = lib(|| self.x.d().clear_gradients()) {
                    return violate(format!("panic: clear_gradients: {}", p));
                }
                self.acc = if self.mode == Mode::Training { zero_grads(std::slice::from_ref(&self.spec)).pop() } else { None };
            }
            "fwd_bad" => {
                let n = o.u("n");
                let (i, u) = if n % 2 == 0 {
                    (other_shape(self.spec.inp, n / 2), self.spec.out)
                } else {
                    (self.spec.inp, other_shape(self.spec.out, n / 2))
                };
                self.refused("a forward pass with wrong shapes", |x| {
                    let ti = cur::tensor(i, &values(size(i), 0, 1));
                    let mut to = cur::tensor(u, &values(size(u), 0, 2));
                    Some(x.d().forward(&ti, &mut to).is_ok())
                });
            }
            "bwd_bad" => {
                let n = o.u("n");
                let m = n / 4;
                let (mut i, mut u, mut inc, mut out) = (self.spec.inp, self.spec.out, self.spec.out, self.spec.inp);
                match (n % 4, &self.spec.kind) {
                    (0, _) => inc = other_shape(inc, m),
                    (1, _) => out = other_shape(out, m),
                    (2, Kind::Fc { .. } | Kind::Conv { .. }) => i = other_shape(i, m),
                    (3, Kind::Soft) => u = other_shape(u, m),
                    _ => inc = other_shape(inc, m + 1),
                }
                self.refused("a backward pass with wrong shapes", |x| {
                    let z = |s: Sh| cur::tensor(s, &values(size(s), 0, 1));
                    Some(x.d().backward(&z(i), &z(u), &z(inc), &mut z(out)).is_ok())
                });
            }
            "morph_bad" => {
                let n = o.u("n");
                let spec = self.spec.clone();
                self.refused("filling a layer with an impossible geometry", |x| misfill(x, &spec, n));
            }
            "wrongkind" => {
                self.refused("loading another kind of layer", |x| {
                    let nm = "o".to_string();
                    let other = match x {
                        Own::Soft(_) => MaxPoolLayer::new(cur::shape([1, 1, 1]), cur::shape([2, 2, 1]), 1, &nm).ok()?.get_serialized(),
                        _ => SoftmaxLayer::new(cur::shape([2, 2, 1]), &nm).ok()?.get_serialized(),
                    };
                    Some(x.d().load_from_serialized(&other).is_ok())
                });
            }
            "baddata" => {
                // another layer's data of the same kind, one entry of it missing or cut short
                let mut v = o.get("l").clone();
                v.put("t", kind_word(&self.spec));
                let other = spec_of(&v);
                if std::mem::discriminant(&other.kind) != std::mem::discriminant(&self.spec.kind) {
                    return;
                }
                let (n, k, at) = (o.u("n"), o.u("k"), o.u("at"));
                self.refused("loading data that lacks an entry or the end of one", |x| {
                    let mut y = Own::make(&other).ok()?;
                    let mut data = y.d().get_serialized();
                    spoil(&mut data, n, k, at)?;
                    Some(x.d().load_from_serialized(&data).is_ok())
                });
            }
            "round" => {
                let fresh = o.u("n") % 2 == 0;
                let mode = self.mode;
                let spec = self.spec.clone();
                let r = lib(|| {
                    let s = self.x.d().get_serialized();
                    if fresh {
                        let mut y = Own::empty(&spec);
                        y.d().load_from_serialized(&s)?;
                        match mode {
                            Mode::Training => y.d().switch_to_training(),
                            Mode::Inference => y.d().switch_to_inference(),
                        }
                        self.x = y;
                    } else {
                        self.x.d().load_from_serialized(&s)?;
                    }
                    Ok::<(), &'static str>(())
                });
                match r {
                    Err(p) => return violate(format!("panic: reloading a layer: {}", p)),
                    Ok(Err(e)) => return self.bad(&["H01", "H02", "H05"], format!("refused: reloading a layer from its own data: {}", e)),
                    _ => {}
                }
                self.last = None;
                self.acc = if mode == Mode::Training { zero_grads(std::slice::from_ref(&spec)).pop() } else { None };
            }
            "morph" => {
                let mut v = o.get("l").clone();
                v.put("t", kind_word(&self.spec));
                let spec = spec_of(&v);
                if std::mem::discriminant(&spec.kind) != std::mem::discriminant(&self.spec.kind) {
                    return;
                }
                match lib(|| self.x.fill(&spec)) {
                    Err(p) => return violate(format!("panic: refilling a layer: {}", p)),
                    Ok(Err(e)) => return self.bad(&["H01", "H02", "H05"], format!("refused: refilling a layer with a fitting geometry: {}", e)),
                    _ => {}
                }
                self.spec = spec;
                self.last = None;
                self.acc = if self.mode == Mode::Training { zero_grads(std::slice::from_ref(&self.spec)).pop() } else { None };
                if o.b("train") {
                    self.step(&V::obj().set("op", "train"));
                }
            }
            "fillw" | "fillb" => {
                let v = o.i("n").clamp(-100, 100) as f32 * 0.25;
                let wts = o.s("op") == "fillw";
                if let Own::Fc(x) = &mut self.x {
                    let r = lib(|| if wts { x.fill_weights_with_value(v) } else { x.fill_bias_with_value(v) });
                    if let Err(p) = r {
                        return violate(format!("panic: {}: {}", o.s("op"), p));
                    }
                    if let Kind::Fc { w, b } = &mut self.spec.kind {
                        for d in if wts { &mut w.d } else { &mut b.d } {
                            *d = v;
                        }
                    }
                    // a pending backward pass would now mix two sets of parameters
                    self.last = None;
                }
            }
            _ => {}
        }
    }
    fn fwd(&mut self, o: &V) {
        let x = input(self.spec.inp, o);
        let junk = junk(size(self.spec.out), o.u("seed"));
        let r = lib(|| {
            let t = cur::t(&x);
            let mut y = cur::tensor(self.spec.out, &junk);
            self.x.d().forward(&t, &mut y)?;
            let e = (cur::sh(y.get_shape()), cur::elements(&y), cur::elements(&t));
            Ok::<_, &'static str>((t, y, e))
        });
        let (t, y, e) = match r {
            Err(p) => return violate(format!("panic: forward: {}", p)),
            Ok(Err(e)) => return self.bad(&["H01", "H02", "H05"], format!("refused: forward on a fitting input: {}", e)),
            Ok(Ok(v)) => v,
        };
        if spoilt(&x) {
            w().count("inferences on numbers that are not finite");
            self.input = Some(t);
            self.output = Some(y);
            self.last = None;
            return;
        }
        let p = forward(std::slice::from_ref(&self.spec), &Ev::exact(&x.d));
        if e.0 != self.spec.out {
            return self.bad(&["H01"], format!("states: forward changed the output's shape to {}", sh_text(e.0)));
        }
        if bits(&e.2) != bits(&x.d) {
            return self.bad(&["H01"], "value: forward changed its input".into());
        }
        if let Some(df) = p.states[1].differs(&e.1) {
            return self.bad(&["H01", "H05"], format!("value: {} in {:?} mode: {}", kind(&self.spec), self.mode, show_diff(df, &p.states[1])));
        }
        w().event(51, hash_bits(&e.1), || format!("   output {:?}", &e.1[..e.1.len().min(6)]));
        w().count("inferences compared");
        if self.prop == "H01" && p.states[1].sharp() > 0 {
            nontrivial();
        }
        self.input = Some(t);
        self.output = Some(y);
        self.last = Some((x, p, self.mode == Mode::Training));
    }
    fn bwd(&mut self, o: &V) {
        let g = input(self.spec.out, o);
        let junk = junk(size(self.spec.inp), o.u("seed"));
        let zero = |s: Sh| T { sh: s, d: vec![0.0; size(s)] };
        let (zi, zo) = (zero(self.spec.inp), zero(self.spec.out));
        let fits = self.last.is_some();
        let r = lib(|| {
            let mut out = cur::tensor(self.spec.inp, &junk);
            let ti = if fits { self.input.clone().unwrap() } else { cur::t(&zi) };
            let to = if fits { self.output.clone().unwrap() } else { cur::t(&zo) };
            self.x.d().backward(&ti, &to, &cur::t(&g), &mut out)?;
            Ok::<_, &'static str>(cur::elements(&out))
        });
        let known = matches!(&self.last, Some((_, _, true)));
        let got = match r {
            Err(p) => return violate(format!("panic: backward in {:?} mode: {}", self.mode, p)),
            Ok(Err(e)) => {
                if self.mode == Mode::Training && known {
                    self.bad(&["H02", "H03", "H04", "H05"], format!("refused: a backward pass after a forward pass in training mode: {}", e));
                } else if self.mode == Mode::Training {
                    self.acc = None;
                }
                return;
            }
            Ok(Ok(d)) => d,
        };
        if self.mode != Mode::Training {
            return self.bad(&["H02", "H05"], format!("gate: a backward pass on a {} layer is accepted in inference mode", kind(&self.spec)));
        }
        if !known || spoilt(&g) {
            self.acc = None;
            return;
        }
        let (_, p, _) = self.last.as_ref().unwrap();
        let b = backward(std::slice::from_ref(&self.spec), p, &Ev::exact(&g.d));
        if let Some(df) = b.g[0].differs(&got) {
            return self.bad(&["H03", "H05"], format!("gradient: {}: {}", kind(&self.spec), show_diff(df, &b.g[0])));
        }
        w().event(52, hash_bits(&got), || format!("   gradient {:?}", &got[..got.len().min(6)]));
        w().count("backward passes compared");
        if self.prop == "H03" && b.g[0].sharp() > 0 {
            nontrivial();
        }
        if let Some(a) = &mut self.acc {
            let mut x = vec![std::mem::take(a)];
            accumulate(&mut x, &b.params);
            *a = x.pop().unwrap();
            if self.prop == "H04" && a.iter().any(|e| e.sharp() > 0) {
                nontrivial();
            }
        }
    }
}
