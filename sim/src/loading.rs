//! S06 (failed loads), S07 (damaged files) and S08 (files of the earlier release).
use crate::bridge::{build, cur, load, odiff, old, LibLayer, Network, NetworkRunState as Mode, Obj, Out};
use crate::json::V;
use crate::model::*;
use crate::model::Kind;
use crate::rng::{mix, Rng};
use crate::session::{hash_bits, input, mode_of, other_shape, param_grads, sh_text, show_diff, snap, snap_diff, Snap};
use crate::user::{Ctl, Probe};
use crate::storage::{arm, bury, disarm, furnish, gen_hard, gen_obj, gen_soft, task};
use crate::world::*;
use rusty_network::tensor::helper::TensorIndex;
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- damage

const SPECIAL: &[u32] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 16, 64, 255, 256, 1000, 4096, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 46341, 0x10_0000,
    0x100_0000, 0x1000_0000, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff,
];

fn gen_damage(r: &mut Rng, net: bool) -> V {
    let at = match r.below(4) {
        0 => r.below(48),
        1 => r.below(200),
        _ => r.below(4096),
    };
    let d = match r.below(if net { 20 } else { 10 }) {
        0 => "trunc",
        1 => "flip",
        2 => "set",
        3..=4 => "u32",
        5 => ["zero", "dup", "del", "swap"][r.below(4) as usize],
        6 => "tail",
        7 => "ins",
        8 => "add",
        9 => "craft",
        _ => "blob",
    };
    let top = if r.chance(500) { 8 } else { 64 };
    V::obj()
        .set("d", d)
        .set("at", at)
        .set("v", if r.chance(500) { r.below(SPECIAL.len() as u64) } else { r.below(4) })
        .set("n", 1 + r.below(top))
        .set("how", r.below(14))
        .set("seed", r.seed())
}

fn u32_at(b: &[u8], p: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(p..p + 4)?.try_into().ok()?))
}
fn u64_at(b: &[u8], p: usize) -> Option<u64> {
    Some(u64::from_le_bytes(b.get(p..p + 8)?.try_into().ok()?))
}
fn put32(b: &mut [u8], p: usize, v: u32) {
    if p + 4 <= b.len() {
        b[p..p + 4].copy_from_slice(&v.to_le_bytes());
    }
}

/// the known framing of a stored network: layers of keyed blobs
struct Img {
    layers: Vec<(u32, Vec<(u32, Vec<u8>)>)>,
}
impl Img {
    fn parse(b: &[u8]) -> Option<Img> {
        let mut p = 8;
        let n = u64_at(b, 0)?;
        let mut layers = vec![];
        for _ in 0..n {
            let var = u32_at(b, p)?;
            let m = u64_at(b, p + 4)?;
            p += 12;
            let mut es = vec![];
            for _ in 0..m {
                let k = u32_at(b, p)?;
                let l = u64_at(b, p + 4)? as usize;
                p += 12;
                es.push((k, b.get(p..p.checked_add(l)?)?.to_vec()));
                p += l;
            }
            es.sort();
            layers.push((var, es));
        }
        if p == b.len() {
            Some(Img { layers })
        } else {
            None
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = (self.layers.len() as u64).to_le_bytes().to_vec();
        for (v, es) in &self.layers {
            b.extend(v.to_le_bytes());
            b.extend((es.len() as u64).to_le_bytes());
            for (k, d) in es {
                b.extend(k.to_le_bytes());
                b.extend((d.len() as u64).to_le_bytes());
                b.extend(d);
            }
        }
        b
    }
}
fn tensor_like(b: &[u8]) -> bool {
    b.len() >= 32 && (b.len() - 32) % 4 == 0 && u64_at(b, 24) == Some((b.len() as u64 - 32) / 4)
}
fn tensor_blob(st: Sh, sh: Sh, n: usize) -> Vec<u8> {
    let mut b = vec![];
    for x in st.iter().chain(&sh) {
        b.extend(x.to_le_bytes());
    }
    b.extend((n as u64).to_le_bytes());
    for i in 0..n {
        b.extend((i as f32 * 0.25 - 1.0).to_le_bytes());
    }
    b
}
fn natural(sh: Sh) -> Sh {
    [1, sh[0], sh[0].wrapping_mul(sh[1])]
}
fn spec(r: &mut Rng) -> u32 {
    if r.chance(500) {
        r.below(5) as u32
    } else {
        SPECIAL[r.below(SPECIAL.len() as u64) as usize]
    }
}
/// a tensor image whose parts may contradict each other
fn craft_tensor(r: &mut Rng, was: &[u8]) -> Vec<u8> {
    let sh = [u32_at(was, 12).unwrap_or(1), u32_at(was, 16).unwrap_or(1), u32_at(was, 20).unwrap_or(1)];
    let len = u64_at(was, 24).unwrap_or(0).min(4096) as usize;
    match r.below(9) {
        // another consistent tensor
        0..=1 => {
            let s = [r.below(5) as u32, r.below(4) as u32, r.below(3) as u32];
            tensor_blob(natural(s), s, size(s))
        }
        // product wraps around to the number of elements there
        2 => {
            let s: [u32; 3] = [[0x1_0000u32, 0x1_0000, 1], [0x8000_0000, 2, 1], [0x1_0001, 0xffff, 1], [1 << 11, 1 << 11, 1 << 10], [0x4000_0000, 4, 1]][r.below(5) as usize];
            let n = (s[0].wrapping_mul(s[1]).wrapping_mul(s[2]) as usize).min(8);
            tensor_blob(natural(s), s, n)
        }
        // shape permuted, data kept
        3 => tensor_blob(natural([sh[1], sh[0], sh[2]]), [sh[1], sh[0], sh[2]], len),
        4 => tensor_blob([u32_at(was, 0).unwrap_or(1), u32_at(was, 4).unwrap_or(1), u32_at(was, 8).unwrap_or(1)], [sh[1], sh[2], sh[0]], len),
        // strides
        5 => {
            let mut st = natural(sh);
            st[r.below(3) as usize] = spec(r);
            tensor_blob(st, sh, len)
        }
        6 => tensor_blob(natural(sh), sh, len.saturating_sub(1 + r.below(2) as usize)),
        7 => tensor_blob(natural(sh), sh, len + 1 + r.below(3) as usize),
        _ => {
            let mut s = sh;
            s[r.below(3) as usize] = spec(r);
            tensor_blob(if r.chance(500) { natural(s) } else { natural(sh) }, s, len)
        }
    }
}
fn tensors_of(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let n = u64_at(b, 0)?;
    let mut p = 8;
    let mut v = vec![];
    for _ in 0..n {
        let l = 32 + u64_at(b, p + 24).filter(|n| *n < 1 << 32)? as usize * 4;
        v.push(b.get(p..p.checked_add(l)?)?.to_vec());
        p += l;
    }
    if p == b.len() && n > 0 {
        Some(v)
    } else {
        None
    }
}
fn craft(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    if b.len() == 4 {
        return spec(r).to_le_bytes().to_vec();
    }
    if b.len() == 12 {
        let mut o = b.to_vec();
        match r.below(4) {
            0 => (0..3).for_each(|i| put32(&mut o, i * 4, spec(r))),
            1 => put32(&mut o, 0, SPECIAL[r.below(SPECIAL.len() as u64) as usize]),
            2 => {
                let s = [[0x1_0000u32, 0x1_0000, 1], [0x8000, 0x8000, 4], [0x1_0000, 0x1_0000, 0x1_0000], [5000, 5000, 1]][r.below(4) as usize];
                (0..3).for_each(|i| put32(&mut o, i * 4, s[i]));
            }
            _ => put32(&mut o, r.below(3) as usize * 4, spec(r)),
        }
        return o;
    }
    if tensor_like(b) {
        return craft_tensor(r, b);
    }
    if let Some(mut ts) = tensors_of(b) {
        match r.below(6) {
            0 => {
                ts.pop();
            }
            1 => ts.push(ts[0].clone()),
            2 => ts.clear(),
            3 => ts.swap(0, r.below(2).min(0) as usize),
            _ => {
                let i = r.below(ts.len() as u64) as usize;
                ts[i] = craft_tensor(r, &ts[i].clone());
                if r.chance(400) {
                    let t = ts[i].clone();
                    ts.iter_mut().for_each(|x| *x = t.clone());
                }
            }
        }
        let mut o = (ts.len() as u64).to_le_bytes().to_vec();
        ts.iter().for_each(|t| o.extend(t));
        return o;
    }
    // a name
    let mut o = b.to_vec();
    if r.chance(500) {
        if let Some(x) = o.last_mut() {
            *x = 0xff;
        }
    } else if o.len() >= 8 {
        o[r.below(8) as usize] = r.next() as u8;
    }
    o
}

fn blob_op(img: &mut Img, op: &V) {
    let mut r = Rng::new(op.u("seed"));
    if img.layers.is_empty() {
        return;
    }
    let l = op.u("at") as usize % img.layers.len();
    let n = img.layers.len();
    let e = if img.layers[l].1.is_empty() { 0 } else { r.below(img.layers[l].1.len() as u64) as usize };
    if op.u("how") < 9 && img.layers[l].1.is_empty() {
        return;
    }
    match op.u("how") {
        0..=4 => {
            let b = &mut img.layers[l].1[e].1;
            *b = craft(&mut r, b);
        }
        5 => {
            let b = &mut img.layers[l].1[e].1;
            if b.len() >= 4 {
                let p = r.below(b.len() as u64 / 4) as usize * 4;
                put32(b, p, SPECIAL[op.u("v") as usize % SPECIAL.len()]);
            }
        }
        6 => {
            let b = &mut img.layers[l].1[e].1;
            let k = r.below(b.len() as u64 + 1) as usize;
            b.truncate(k);
        }
        7 => {
            let k = op.u("n") as usize;
            img.layers[l].1[e].1.extend(std::iter::repeat_n(r.next() as u8, k));
        }
        8 => {
            let m = r.below(n as u64) as usize;
            if !img.layers[m].1.is_empty() {
                let f = r.below(img.layers[m].1.len() as u64) as usize;
                let a = img.layers[l].1[e].1.clone();
                let b = std::mem::replace(&mut img.layers[m].1[f].1, a);
                img.layers[l].1[e].1 = b;
            }
        }
        9 => {
            if !img.layers[l].1.is_empty() {
                img.layers[l].1.remove(e);
            }
        }
        10 => img.layers[l].0 = r.below(6) as u32,
        11 => {
            let x = img.layers[l].clone();
            match r.below(3) {
                0 => img.layers.push(x),
                1 => {
                    img.layers.remove(l);
                }
                _ => img.layers.swap(l, n - 1),
            }
        }
        12 => {
            if !img.layers[l].1.is_empty() {
                img.layers[l].1[e].0 = r.below(6) as u32;
            }
        }
        _ => {
            if !img.layers[l].1.is_empty() {
                let x = img.layers[l].1[e].clone();
                img.layers[l].1.push(x);
            }
        }
    }
}

fn damage(mut b: Vec<u8>, op: &V, other: &[u8]) -> Vec<u8> {
    let mut r = Rng::new(op.u("seed"));
    let n = op.u("n").min(64) as usize;
    let len = b.len();
    if len == 0 && op.s("d") != "ins" && op.s("d") != "tail" {
        return b;
    }
    let at = op.u("at") as usize % len.max(1);
    match op.s("d") {
        "trunc" => b.truncate(at),
        "flip" => b[at] ^= 1 << (n % 8),
        "set" => b[at] = r.next() as u8,
        "u32" => put32(&mut b, at / 4 * 4, SPECIAL[op.u("v") as usize % SPECIAL.len()]),
        "add" => {
            let p = at / 4 * 4;
            if let Some(x) = u32_at(&b, p) {
                put32(&mut b, p, x.wrapping_add(if n % 2 == 0 { 1 } else { u32::MAX }));
            }
        }
        "zero" => b[at..(at + n).min(len)].fill(0),
        "dup" => {
            let x = b[at..(at + n).min(len)].to_vec();
            b.splice(at..at, x);
        }
        "del" => {
            b.drain(at..(at + n).min(len));
        }
        "swap" => {
            if at + 2 * n <= len {
                let (x, y) = b[at..at + 2 * n].split_at_mut(n);
                x.swap_with_slice(y);
            }
        }
        "tail" => {
            b.truncate(at);
            let k = (op.u("v") as usize * 7 + at) % (other.len() + 1);
            b.extend(&other[k..]);
        }
        "ins" => {
            let x: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            b.splice(at..at, x);
        }
        "craft" => {
            if tensor_like(&b) {
                b = craft_tensor(&mut r, &b);
            }
        }
        "blob" => {
            if let Some(mut i) = Img::parse(&b) {
                blob_op(&mut i, op);
                b = i.bytes();
            }
        }
        _ => {}
    }
    b
}

// ---------------------------------------------------------------- S07

pub fn gen_s07(r: &mut Rng) -> V {
    let obj = gen_obj(r, false);
    let net = obj.s("k") == "net";
    let n = 1 + if r.chance(300) { r.below(3) } else { 0 };
    V::obj()
        .set("obj", obj)
        .set("other", gen_obj(r, false))
        .set("ops", (0..n).map(|_| gen_damage(r, net)).collect::<Vec<_>>())
        .set("train", r.chance(500))
        .set("onto", r.chance(150))
        .set("f", if r.chance(200) { gen_soft(r) } else { V::obj() })
        .set("ent", r.seed())
}

fn saved_bytes(v: &V) -> Option<Vec<u8>> {
    let o = Obj::make(v).ok()?;
    let _ = w().disk.unlink("/sim/other/scratch");
    if !o.save("/sim/other/scratch").ok() {
        return None;
    }
    let b = w().disk.content("/sim/other/scratch");
    let _ = w().disk.unlink("/sim/other/scratch");
    b
}

pub fn run_s07(plan: &V) {
    furnish(false);
    let ent = plan.u("ent");
    let net = plan.get("obj").s("k") != "ten";
    let ok = RefCell::new(false);
    task(ent, || {
        let (Some(b), Some(o)) = (saved_bytes(plan.get("obj")), saved_bytes(plan.get("other"))) else {
            return;
        };
        let mut d = b.clone();
        for op in plan.get("ops").arr() {
            d = damage(d, op, &o);
            w().count(&format!("damage-{}", op.s("d")));
        }
        if d != b {
            nontrivial();
        }
        w().disk.put_file("/sim/work/damaged.bin", &d);
        *ok.borrow_mut() = true;
    });
    bury();
    if !*ok.borrow() || violated() {
        return;
    }
    let train = plan.b("train");
    task(mix(ent, 1), || {
        if net && plan.b("onto") {
            return onto(plan, train);
        }
        arm(plan.get("f"));
        let r = load(net, "damaged.bin", train);
        disarm();
        w().event(80, r.is_ok() as u64, || {
            format!("== load: {}", match &r {
                Ok(_) => "ok".into(),
                Err(e) => e.text(),
            })
        });
        match r {
            Err(Out::Panic(m)) => violate(format!("panic: loading a damaged file: {}", m)),
            Err(_) => w().count("damaged files refused"),
            Ok(Obj::Ten(t)) => {
                w().count("damaged files accepted");
                well_formed_tensor(t)
            }
            Ok(Obj::Net(n)) => {
                w().count("damaged files accepted");
                well_formed(n)
            }
        }
    });
}

/// a damaged file behind layers that are already there
fn onto(plan: &V, train: bool) {
    let net = Net::new(plan.get("obj").get("net"));
    let first = Layer { kind: Kind::Soft, name: "front".into(), inp: net.inp, out: net.inp, pre: 0 };
    let Ok(mut n) = build(&Net { inp: net.inp, layers: vec![first] }, mode_of(train)) else { return };
    arm(plan.get("f"));
    let r = lib(|| n.load_from_file(&"damaged.bin".to_string()).map_err(|e| e.to_string()));
    disarm();
    w().event(81, 0, || format!("== load onto a network: {:?}", r));
    match r {
        Err(p) => violate(format!("panic: loading a damaged file: {}", p)),
        Ok(_) => well_formed(n),
    }
}

fn well_formed_tensor(mut t: crate::bridge::Tensor) {
    let s = cur::sh(t.get_shape());
    if s.iter().map(|&x| x as u128).product::<u128>() > 2_000_000 {
        return violate(format!("malformed: a small file loads as a tensor of shape {}", sh_text(s)));
    }
    let r = lib(|| {
        let n = size(s);
        if t.total_items() as usize != n {
            return Err(format!("total_items is {} for shape {}", t.total_items(), sh_text(s)));
        }
        let _ = t.get_norm();
        let _ = cur::elements(&t);
        // every element is a place of its own
        let mut x = 0f32;
        for k in 0..if n == 0 { 0 } else { s[2] } {
            for j in 0..s[1] {
                for i in 0..s[0] {
                    x += 1.0;
                    t.set_item(&TensorIndex { i, j, k }, x);
                }
            }
        }
        let e = cur::elements(&t);
        for (i, v) in e.iter().enumerate() {
            if *v != (i + 1) as f32 {
                return Err(format!("element {} reads as {} after {} was stored there", i, v, i + 1));
            }
        }
        t.fill_with_value(1.0);
        let q = (t.get_norm() as f64).powi(2);
        if (q - n as f64).abs() > 0.01 + 1e-3 * n as f64 {
            return Err(format!("it holds {:.2} elements instead of {}", q, n));
        }
        if t.fill_with_vec(vec![0.5; n]).is_err() || t.fill_with_vec(vec![0.5; n + 1]).is_ok() {
            return Err("it cannot be filled with as many elements as its shape says".into());
        }
        Ok(())
    });
    match r {
        Err(p) => return violate(format!("panic: using a tensor loaded from a damaged file: {}", p)),
        Ok(Err(e)) => return violate(format!("malformed: a tensor loaded from a damaged file: {}", e)),
        _ => {}
    }
    let mut o = Obj::Ten(t);
    resave(&mut o, false);
}

fn resave(o: &mut Obj, train: bool) {
    let a = match o.fp(1) {
        Ok(a) => a,
        Err(e) => return violate(format!("malformed: an object loaded from a damaged file: {}", e)),
    };
    match o.save("again.bin") {
        Out::Ok => {}
        e => return violate(format!("malformed: an object loaded from a damaged file cannot be saved: {}", e.text())),
    }
    match load(o.is_net(), "again.bin", train) {
        Err(e) => violate(format!("malformed: an object loaded from a damaged file cannot be saved and reloaded: {}", e.text())),
        Ok(mut x) => match x.fp_like(1, &a) {
            Ok(b) if a == b => {}
            Ok(b) => violate(format!("malformed: an object loaded from a damaged file changes when saved and reloaded: {}", odiff(&a, &b))),
            Err(e) => violate(format!("malformed: reloaded object: {}", e)),
        },
    }
}

const PRACTICAL: u64 = 20_000;

fn well_formed(mut n: Network) {
    let shapes = lib(|| {
        let v: Vec<(Sh, Sh)> = n
            .get_layers()
            .iter()
            .map(|l| (cur::sh(l.get_input_shape()), cur::sh(l.get_output_shape())))
            .collect();
        (v, cur::sh(n.get_input_shape()), cur::sh(n.get_output_shape()))
    });
    let (ls, inp, out) = match shapes {
        Ok(x) => x,
        Err(p) => return violate(format!("panic: shapes of a network loaded from a damaged file: {}", p)),
    };
    if ls.is_empty() {
        return;
    }
    w().count("damaged networks exercised");
    for i in 1..ls.len() {
        if ls[i - 1].1 != ls[i].0 {
            return violate(format!("malformed: layer {} gives {} but layer {} takes {}", i - 1, sh_text(ls[i - 1].1), i, sh_text(ls[i].0)));
        }
    }
    if inp != ls[0].0 || out != ls[ls.len() - 1].1 {
        return violate(format!("malformed: the network reports {} -> {}, its layers {} -> {}", sh_text(inp), sh_text(out), sh_text(ls[0].0), sh_text(ls[ls.len() - 1].1)));
    }
    let big = ls.iter().flat_map(|l| [l.0, l.1]).chain([inp]).any(|s| s.iter().map(|&x| x as u128).product::<u128>() > PRACTICAL as u128);
    if big {
        w().count("damaged networks too large to exercise");
        return;
    }
    let first = n.get_run_state();
    let modes = if first == Mode::Training { [Mode::Training, Mode::Inference, Mode::Training] } else { [Mode::Inference, Mode::Training, Mode::Inference] };
    for (i, m) in modes.into_iter().enumerate() {
        let r = lib(|| {
            if i > 0 {
                match m {
                    Mode::Training => n.switch_to_training(),
                    Mode::Inference => n.switch_to_inference(),
                }
            }
            let x = cur::tensor(inp, &values(size(inp), 1, 17 + i as u64));
            n.infer(&x).map_err(|e| format!("inference in {:?} mode: {}", m, e))?;
            let y = n.get_output().map_err(|e| format!("output: {}", e))?;
            if cur::sh(y.get_shape()) != out {
                return Err(format!("the output is {} instead of {}", sh_text(cur::sh(y.get_shape())), sh_text(out)));
            }
            let _ = cur::elements(y);
            if m == Mode::Training {
                let g = cur::tensor(out, &values(size(out), 1, 18));
                n.backward(&g).map_err(|e| format!("backward pass: {}", e))?;
            }
            Ok::<(), String>(())
        });
        match r {
            Err(p) => return violate(format!("panic: using a network loaded from a damaged file: {}", p)),
            Ok(Err(e)) => return violate(format!("malformed: a network loaded from a damaged file fails: {}", e)),
            _ => {}
        }
    }
    resave(&mut Obj::Net(n), first == Mode::Training);
}

// ---------------------------------------------------------------- S06

pub fn gen_s06(r: &mut Rng) -> V {
    let net = if r.chance(150) {
        V::obj().set("in", vec![1, 1, 1]).set("layers", V::Arr(vec![]))
    } else {
        gen_net(r, &[0, 1], 3, 400)
    };
    let val = |r: &mut Rng, o: &str| V::obj().set("op", o).set("style", r.below(2)).set("seed", r.seed());
    let hist = |r: &mut Rng, n: u64| {
        let mut v = vec![];
        for _ in 0..r.below(n + 1) {
            match r.below(7) {
                0..=2 => v.push(val(r, "infer")),
                3 => {
                    v.push(val(r, "infer"));
                    v.push(val(r, "backward"));
                }
                4 => v.push(V::obj().set("op", if r.chance(600) { "train" } else { "inf" })),
                _ => {
                    v.push(V::obj().set("op", "train"));
                    v.push(val(r, "infer"));
                }
            }
        }
        v
    };
    let load = |r: &mut Rng| {
        let src = ["missing", "dir", "empty", "garbage", "tensor", "misfit", "misfit", "half", "half", "half", "damaged", "damaged", "trunc", "trunc", "fit", "fit", "fit"]
            [r.below(17) as usize];
        let n = r.below(3);
        V::obj()
            .set("op", "load")
            .set("src", src)
            .set("n", r.below(1000))
            .set("file", gen_net(r, &[0, 1], 3, 0))
            .set("ops", (0..n + 1).map(|_| gen_damage(r, true)).collect::<Vec<_>>())
            .set("f", match r.below(10) {
                0..=3 => gen_hard(r),
                4 => gen_soft(r),
                _ => V::obj(),
            })
    };
    let mut ops = hist(r, 4);
    for _ in 0..1 + r.below(2) {
        ops.push(load(r));
        if r.chance(800) {
            ops.push(val(r, "backward"));
        }
        let h = hist(r, 2);
        ops.extend(h);
    }
    ops.push(val(r, "infer"));
    ops.push(val(r, "backward"));
    V::obj().set("net", net).set("train", r.chance(600)).set("ops", V::Arr(ops)).set("ent", r.seed())
}

struct Twin {
    net: Network,
    ctls: Vec<Rc<RefCell<Ctl>>>,
}
impl Twin {
    fn new(layers: &[Layer], mode: Mode) -> Result<Twin, String> {
        let mut t = Twin { net: Network::new(mode), ctls: vec![] };
        for l in layers {
            t.add(l)?;
        }
        Ok(t)
    }
    fn add(&mut self, l: &Layer) -> Result<(), String> {
        let r = if let Kind::Probe = l.kind {
            let c = Rc::new(RefCell::new(Ctl::default()));
            self.ctls.push(c.clone());
            lib(|| self.net.add_layer(Probe::new(l.inp, &c)))
        } else {
            lib(|| cur::add(&mut self.net, l))
        };
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(e.into()),
            Err(p) => Err(p),
        }
    }
    fn snap(&self) -> Result<Snap, String> {
        lib(|| snap(&self.net))
    }
    /// outcome of one operation, with everything the probes saw
    fn op(&mut self, o: &V) -> String {
        for c in &self.ctls {
            let mut c = c.borrow_mut();
            c.grad = None;
            c.seen = None;
        }
        let r = match o.s("op") {
            "train" => lib(|| self.net.switch_to_training()).map(|_| "done".to_string()),
            "inf" => lib(|| self.net.switch_to_inference()).map(|_| "done".to_string()),
            "infer" => {
                let s = cur::sh(self.net.get_input_shape());
                let x = input(s, o);
                lib(|| self.net.infer(&cur::t(&x))).map(|r| format!("{:?}", r))
            }
            "backward" => {
                let s = cur::sh(self.net.get_output_shape());
                let x = input(s, o);
                lib(|| self.net.backward(&cur::t(&x))).map(|r| format!("{:?}", r))
            }
            _ => Ok("".into()),
        };
        let grads = lib(|| self.net.get_layers().iter().map(|l| param_grads(l.as_ref())).collect::<Vec<_>>());
        let mut h = 0;
        let mut see = |v: &[f32]| h = mix(h, hash_bits(v) ^ 0x77);
        for c in &self.ctls {
            let c = c.borrow();
            see(c.seen.as_deref().unwrap_or(&[0.5]));
            see(c.grad.as_deref().unwrap_or(&[0.5]));
        }
        if let Ok(g) = &grads {
            g.iter().flatten().flatten().for_each(|v| see(v));
        }
        match r {
            Ok(s) => format!("{} {:016x}", s, h),
            Err(p) => format!("PANIC {}", p),
        }
    }
}

pub fn run_s06(plan: &V) {
    furnish(false);
    let mut layers = vec![];
    let v = plan.get("net");
    let mut sh = shape_of(v.get("in"));
    for l in v.get("layers").arr() {
        if let Some(x) = layer(l, sh) {
            sh = x.out;
            layers.push(x);
        }
    }
    task(plan.u("ent"), || {
        let mode = mode_of(plan.b("train"));
        let (mut a, mut b) = match (Twin::new(&layers, mode), Twin::new(&layers, mode)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return violate(format!("build: a fitting network is refused: {}", e)),
        };
        let mut loads = 0;
        for (i, o) in plan.get("ops").arr().iter().enumerate() {
            w().event(82, i as u64, || format!("== {}", o.text()));
            w().count(&format!("op {}", o.s("op")));
            if o.s("op") == "load" {
                loads += 1;
                s06_load(&mut a, &mut b, &mut layers, o);
            } else {
                let (x, y) = (a.op(o), b.op(o));
                w().event(83, crate::rng::hash_str(&x), || format!("   {}", x));
                if x != y && loads > 0 {
                    return violate(format!("later: after the load, {} gives {} instead of {}", o.s("op"), x, y));
                }
            }
            if violated() {
                return;
            }
            match (a.snap(), b.snap()) {
                (Ok(x), Ok(y)) => {
                    if x != y && loads > 0 {
                        return violate(format!("later: after the load and {} the {} differ from a network that never saw it", o.s("op"), snap_diff(&x, &y)));
                    }
                }
                (Err(p), _) | (_, Err(p)) => return violate(format!("panic: {}", p)),
            }
        }
    });
}

/// adapt a file's plan so that its network takes `inp`
fn fitting(v: &V, inp: Option<Sh>) -> Net {
    let mut v = v.clone();
    if let Some(s) = inp {
        v.put("in", s.iter().map(|&x| x as i64).collect::<Vec<_>>());
    }
    Net::new(&v)
}

fn net_bytes(n: &Net) -> Option<Vec<u8>> {
    let o = Obj::Net(build(n, Mode::Inference).ok()?);
    let _ = w().disk.unlink("/sim/other/scratch");
    if !o.save("/sim/other/scratch").ok() {
        return None;
    }
    let b = w().disk.content("/sim/other/scratch");
    let _ = w().disk.unlink("/sim/other/scratch");
    b
}

fn s06_load(a: &mut Twin, b: &mut Twin, layers: &mut Vec<Layer>, o: &V) {
    let out = layers.last().map(|l| l.out);
    let n = o.u("n");
    let file = fitting(o.get("file"), out);
    let path = "file.bin";
    let _ = w().disk.unlink(path);
    // must: Some(true) = has to fail, Some(false) = has to succeed
    let mut must = Some(true);
    let mut from = path;
    let mut bytes = None;
    match o.s("src") {
        "missing" => from = "missing.bin",
        "dir" => from = "sub",
        "empty" => bytes = Some(vec![]),
        "garbage" => bytes = Some((0..n).map(|i| (mix(n, i) >> 9) as u8 | 1).collect()),
        "tensor" => {
            let sh = [1 + n as u32 % 4, 1 + n as u32 % 3, 1];
            bytes = saved_bytes(&V::obj().set("k", "ten").set("sh", sh.iter().map(|&x| x as i64).collect::<Vec<_>>()));
        }
        "misfit" => match out {
            Some(s) => {
                let f = fitting(o.get("file"), Some(other_shape(s, n)));
                bytes = net_bytes(&f);
            }
            None => must = None,
        },
        "half" => {
            // the first layers fit, a later one does not
            let m = fitting(o.get("file"), Some(other_shape(file.out(), n)));
            let (x, y) = (net_bytes(&file), net_bytes(&m));
            if let (Some(x), Some(y)) = (x, y) {
                let c = u64_at(&x, 0).unwrap_or(0).wrapping_add(u64_at(&y, 0).unwrap_or(0));
                if x.len() >= 8 && y.len() >= 8 {
                    let mut z = c.to_le_bytes().to_vec();
                    z.extend(&x[8..]);
                    z.extend(&y[8..]);
                    bytes = Some(z);
                }
            }
        }
        "damaged" => {
            must = None;
            bytes = net_bytes(&file).map(|mut x| {
                for d in o.get("ops").arr() {
                    x = damage(x, d, b"other");
                }
                x
            });
        }
        "trunc" => {
            bytes = net_bytes(&file).map(|mut x| {
                let k = n as usize % x.len().max(1);
                x.truncate(k);
                x
            })
        }
        _ => {
            must = Some(false);
            bytes = net_bytes(&file);
        }
    }
    if let Some(x) = bytes {
        w().disk.put_file("/sim/work/file.bin", &x);
    } else if from == path {
        must = Some(true);
    }
    let before = match a.snap() {
        Ok(s) => s,
        Err(p) => return violate(format!("panic: {}", p)),
    };
    arm(o.get("f"));
    let r = lib(|| a.net.load_from_file(&from.to_string()).map_err(|e| e.to_string()));
    let io = disarm();
    w().event(84, 0, || format!("   load: {:?}", r));
    match r {
        Err(p) => violate(format!("panic: load: {}", p)),
        Ok(Err(e)) => {
            w().count("loads failed");
            if must == Some(false) && io.hard_fired == 0 {
                return violate(format!("refused: a file that fits is not appended: {}", e));
            }
            match a.snap() {
                Err(p) => violate(format!("panic: after a failed load: {}", p)),
                Ok(s) => {
                    if s != before {
                        return violate(format!("effect: the failed load ({}) changed the network's {}", e, snap_diff(&s, &before)));
                    }
                    nontrivial();
                }
            }
        }
        Ok(Ok(())) => {
            w().count("loads succeeded");
            if must == Some(true) && io.hard_fired == 0 {
                return violate(format!("accepted: loading ({}) reports success", o.s("src")));
            }
            let after = match a.snap() {
                Err(p) => return violate(format!("panic: after a load: {}", p)),
                Ok(s) => s,
            };
            if after.layers.len() < before.layers.len() || after.layers[..before.layers.len()] != before.layers[..] {
                return violate("append: the load disturbed the layers that were there".into());
            }
            if must == Some(false) {
                for l in &file.layers {
                    if let Err(e) = b.add(l) {
                        return violate(format!("build: {}", e));
                    }
                }
                layers.extend(file.layers.iter().cloned());
                match b.snap() {
                    Ok(s) if s.layers == after.layers && s.modes == after.modes && s.inp == after.inp && s.out == after.out => nontrivial(),
                    Ok(s) => return violate(format!("append: the load gives other {} than adding the layers one by one", snap_diff(&s, &after))),
                    Err(p) => return violate(format!("panic: {}", p)),
                }
                // what an append does to cached outputs and pending passes is not specified: start afresh
                for t in [a, b] {
                    let s = cur::sh(t.net.get_input_shape());
                    let x = T { sh: s, d: values(size(s), 0, 9) };
                    let r = lib(|| t.net.infer(&cur::t(&x)));
                    if r != Ok(Ok(())) {
                        return violate(format!("later: inference after an append: {:?}", r));
                    }
                }
            } else {
                // damage that leaves a loadable file: the twin cannot follow
                *b = match Twin::new(&[], before.mode) {
                    Ok(t) => t,
                    Err(_) => return,
                };
                follow(a, b, layers);
            }
        }
    }
}

/// both start over as empty networks of the same mode
fn follow(a: &mut Twin, b: &mut Twin, layers: &mut Vec<Layer>) {
    let m = a.net.get_run_state();
    layers.clear();
    if let (Ok(x), Ok(y)) = (Twin::new(&[], m), Twin::new(&[], m)) {
        *a = x;
        *b = y;
    }
}

// ---------------------------------------------------------------- S08

pub fn gen_s08(r: &mut Rng) -> V {
    let mut obj = gen_obj(r, false);
    if obj.s("k") == "ten" {
        obj.put("style", [0, 1, 2, 2][r.below(4) as usize]);
    } else if r.chance(300) {
        let mut n = gen_net(r, &[0, 1, 4], 6, 0);
        n.put("in", vec![r.range(1, 10), r.range(1, 10), r.range(1, 4)]);
        obj.put("net", n);
    }
    V::obj()
        .set("obj", obj)
        .set("path", r.below(crate::storage::PATHS.len() as u64))
        .set("pre", r.below(3))
        .set("end", r.below(4))
        .set("power", r.seed())
        .set("train", r.chance(300))
        .set("f", if r.chance(400) { gen_soft(r) } else { V::obj() })
        .set("f2", if r.chance(400) { gen_soft(r) } else { V::obj() })
        .set("x", r.seed())
        .set("ent", r.seed())
}

pub fn run_s08(plan: &V) {
    furnish(false);
    let ent = plan.u("ent");
    let v = plan.get("obj");
    let path = crate::storage::path_of(plan.u("path"));
    let is_net = v.s("k") != "ten";
    let mut net = Net::new(v.get("net"));
    // the earlier release cannot hold dense layers of depth in a network
    if let Some(p) = net.layers.iter().position(|l| matches!(l.kind, Kind::Fc { .. }) && l.inp[2] != 1) {
        net.layers.truncate(p);
        if net.layers.is_empty() {
            net.layers.push(Layer { kind: Kind::Soft, name: "only".into(), inp: net.inp, out: net.inp, pre: 0 });
        }
    }
    let g = |i: usize| v.get("sh").at(i).int().clamp(0, 64) as u32;
    let sh = [g(0), g(1), g(2)];
    let data = values(size(sh), v.i("style"), v.u("seed"));
    let saved = RefCell::new(None);
    match plan.u("pre") {
        1 => w().disk.put_file("/sim/work/net.bin", &[9; 5000]),
        _ => {}
    }
    task(ent, || {
        let p = path.clone();
        arm(plan.get("f"));
        let r = lib(|| {
            if is_net {
                let mut n = rusty_network_base::network::Network::new(rusty_network_base::network::NetworkRunState::Inference);
                for l in &net.layers {
                    old::add(&mut n, l).map_err(|e| e.to_string())?;
                }
                n.save_to_file(&p).map_err(|e| e.to_string())
            } else {
                old::tensor(sh, &data).save_to_file(&p).map_err(|e| e.to_string())
            }
        });
        disarm();
        w().event(90, 0, || format!("== earlier release saves to {:?}: {:?}", p, r));
        if let Ok(Ok(())) = r {
            *saved.borrow_mut() = w().disk.content(&path);
        }
    });
    bury();
    let Some(b) = saved.into_inner() else { return };
    match plan.u("end") {
        0 => {
            w().disk.sync_all();
            w().disk.power_loss(&mut Rng::new(plan.u("power")));
            w().count("power-loss");
        }
        1 => {
            w().disk.power_loss(&mut Rng::new(plan.u("power")));
            w().count("power-loss");
        }
        _ => w().count("restart"),
    }
    if w().disk.content(&path).as_ref() != Some(&b) {
        w().count("file lost before the upgrade");
        return;
    }
    nontrivial();
    let h = crate::rng::hash_str(&format!("{:?}", b));
    w().event(91, h, || "== upgrade".into());
    task(mix(ent, 1), || {
        arm(plan.get("f2"));
        let r = load(is_net, &path, plan.b("train"));
        disarm();
        let o = match r {
            Ok(o) => o,
            Err(e) => return violate(format!("load: a file of the earlier release: {}", e.text())),
        };
        match o {
            Obj::Ten(t) => {
                let r = lib(|| (cur::sh(t.get_shape()), cur::elements(&t)));
                match r {
                    Err(p) => violate(format!("panic: {}", p)),
                    Ok((s, d)) => {
                        if s != sh {
                            return violate(format!("mismatch: a tensor of shape {} loads as {}", sh_text(sh), sh_text(s)));
                        }
                        let f = |d: &[f32]| d.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                        if f(&d) != f(&data) {
                            violate("mismatch: a tensor's elements differ after the upgrade".into());
                        }
                    }
                }
            }
            Obj::Net(mut n) => s08_net(&mut n, &net, plan.u("x")),
        }
    });
}

fn s08_net(n: &mut Network, net: &Net, seed: u64) {
    let got = lib(|| {
        let ls = n.get_layers();
        let v: Vec<_> = ls.iter().map(|l: &Box<dyn LibLayer>| (l.get_name(), cur::sh(l.get_input_shape()), cur::sh(l.get_output_shape()))).collect();
        (v, crate::bridge::fp_layers(n).iter().map(|l| l.kind).collect::<Vec<_>>())
    });
    let (ls, kinds) = match got {
        Ok(x) => x,
        Err(p) => return violate(format!("panic: {}", p)),
    };
    if ls.len() != net.layers.len() {
        return violate(format!("mismatch: {} layers load as {}", net.layers.len(), ls.len()));
    }
    for (i, l) in net.layers.iter().enumerate() {
        let want = match l.kind {
            Kind::Fc { .. } => "fc",
            Kind::Conv { .. } => "conv",
            Kind::Pool { .. } => "pool",
            _ => "soft",
        };
        if ls[i] != (l.name.clone(), l.inp, l.out) || kinds[i] != want {
            return violate(format!("mismatch: layer {} ({} {:?} {} -> {}) loads as {} {:?}", i, want, l.name, sh_text(l.inp), sh_text(l.out), kinds[i], ls[i]));
        }
    }
    for k in 0..2 {
        let x = T { sh: net.inp, d: values(size(net.inp), k, seed ^ k as u64) };
        let p = forward(&net.layers, &Ev::exact(&x.d));
        let r = lib(|| {
            n.infer(&cur::t(&x)).map_err(|e| e.to_string())?;
            n.get_output().map(|t| (cur::sh(t.get_shape()), cur::elements(t))).map_err(|e| e.to_string())
        });
        match r {
            Err(p) => return violate(format!("panic: inference after the upgrade: {}", p)),
            Ok(Err(e)) => return violate(format!("mismatch: inference after the upgrade fails: {}", e)),
            Ok(Ok((s, d))) => {
                if s != net.out() {
                    return violate(format!("mismatch: the output is {} instead of {}", sh_text(s), sh_text(net.out())));
                }
                let want = p.states.last().unwrap();
                if let Some(df) = want.differs(&d) {
                    return violate(format!("mismatch: inference after the upgrade: {}", show_diff(df, want)));
                }
                w().event(92, hash_bits(&d), || format!("   output {:?}", &d[..d.len().min(6)]));
            }
        }
    }

}
