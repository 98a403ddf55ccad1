//! From specifications to objects of the library (current tree) and of the earlier release, and back to
//! comparable fingerprints.
use crate::model::{size, values, Kind, Layer, Net, Sh, T};
use crate::json::V;
use crate::world::lib;
use std::collections::BTreeMap;

macro_rules! bridge {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use super::*;
            use $k::layer::{
                convolutional::ConvolutionalLayer, fully_connected::FullyConnectedLayer, max_pool::MaxPoolLayer,
                softmax::SoftmaxLayer,
            };
            use $k::network::Network;
            use $k::tensor::helper::{TensorIndex, TensorShape};
            use $k::tensor::Tensor;

            pub fn shape(s: Sh) -> TensorShape {
                TensorShape { di: s[0], dj: s[1], dk: s[2] }
            }
            pub fn sh(s: TensorShape) -> Sh {
                [s.di, s.dj, s.dk]
            }
            pub fn tensor(s: Sh, d: &[f32]) -> Tensor {
                let mut t = Tensor::new(shape(s));
                let _ = t.fill_with_vec(d.to_vec());
                t
            }
            pub fn t(t: &T) -> Tensor {
                tensor(t.sh, &t.d)
            }
            /// every element, read through the public accessor
            pub fn elements(t: &Tensor) -> Vec<f32> {
                let s = t.get_shape();
                let mut v = Vec::with_capacity(size(sh(s)));
                if size(sh(s)) == 0 {
                    // the other dimensions may be huge
                    return v;
                }
                for k in 0..s.dk {
                    for j in 0..s.dj {
                        for i in 0..s.di {
                            v.push(t.get_item(&TensorIndex { i, j, k }));
                        }
                    }
                }
                v
            }
            pub fn add(net: &mut Network, l: &Layer) -> Result<(), &'static str> {
                match &l.kind {
                    Kind::Fc { w, b } => {
                        let mut x = FullyConnectedLayer::empty();
                        x.fill_from_state(t(w), t(b), &l.name)?;
                        net.add_layer(x)
                    }
                    Kind::Conv { k, b, stride } => {
                        let mut x = ConvolutionalLayer::empty();
                        x.fill_from_state(
                            k.iter().map(t).collect(),
                            b.iter().map(|&f| tensor([1, 1, 1], &[f])).collect(),
                            shape(l.inp),
                            *stride,
                            &l.name,
                        )?;
                        net.add_layer(x)
                    }
                    Kind::Pool { mask, stride } => {
                        net.add_layer(MaxPoolLayer::new(shape(*mask), shape(l.inp), *stride, &l.name)?)
                    }
                    Kind::Soft => net.add_layer(SoftmaxLayer::new(shape(l.inp), &l.name)?),
                    Kind::Probe => Ok(()),
                }
            }
        }
    };
}
bridge!(cur, rusty_network);
bridge!(old, rusty_network_base);

pub use rusty_network::layer::{Layer as LibLayer, SerializedLayer};
pub use rusty_network::network::{Network, NetworkRunState};
pub use rusty_network::tensor::Tensor;

pub fn build(net: &Net, mode: NetworkRunState) -> Result<Network, String> {
    lib(|| {
        let mut n = Network::new(mode);
        for l in &net.layers {
            crate::user::add_used(&mut n, l).map_err(|e| format!("add_layer: {}", e))?;
        }
        Ok(n)
    })
    .unwrap_or_else(|p| Err(format!("PANIC {}", p)))
}

fn col<K: serde::Serialize>(it: impl IntoIterator<Item = (K, Vec<u8>)>) -> BTreeMap<Vec<u8>, Vec<u8>> {
    it.into_iter().map(|(k, v)| (bincode::serialize(&k).unwrap_or_default(), v)).collect()
}

#[derive(Clone, PartialEq, Debug)]
pub struct LFp {
    pub kind: &'static str,
    pub name: String,
    pub inp: Sh,
    pub out: Sh,
    pub data: BTreeMap<Vec<u8>, Vec<u8>>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Fp {
    /// the mode in which the outputs were computed: the two modes may round differently
    pub train: bool,
    pub inp: Sh,
    pub out: Sh,
    pub layers: Vec<LFp>,
    /// bits of the outputs for the probe inputs, or the error
    pub outs: Vec<Result<Vec<u32>, String>>,
}

pub fn fp_layers(n: &Network) -> Vec<LFp> {
    n.get_layers()
        .iter()
        .map(|l| {
            let (kind, data) = match l.get_serialized() {
                SerializedLayer::SerialConvolutionalLayer(m) => ("conv", col(m)),
                SerializedLayer::SerialFullyConnectedLayer(m) => ("fc", col(m)),
                SerializedLayer::SerialMaxPoolLayer(m) => ("pool", col(m)),
                SerializedLayer::SerialSoftMaxLayer(m) => ("soft", col(m)),
                #[allow(unreachable_patterns)]
                _ => ("other", BTreeMap::new()),
            };
            LFp { kind, name: l.get_name(), inp: cur::sh(l.get_input_shape()), out: cur::sh(l.get_output_shape()), data }
        })
        .collect()
}

/// NaN payloads are not part of "the same result"
pub fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|f| if f.is_nan() { 0x7fc0_0000 } else { f.to_bits() }).collect()
}

pub fn probe_inputs(inp: Sh, n: u64) -> Vec<T> {
    (0..n).map(|i| T { sh: inp, d: values(size(inp), (i % 2) as i64, 1000 + i) }).collect()
}

/// structure, parameters and behaviour; panics inside the library come back as Err
pub fn fp(n: &mut Network, probes: u64) -> Result<Fp, String> {
    lib(|| {
        let inp = cur::sh(n.get_input_shape());
        let out = cur::sh(n.get_output_shape());
        let layers = fp_layers(n);
        let mut outs = vec![];
        if size(inp) > 0 {
            for p in probe_inputs(inp, probes) {
                let r = n.infer(&cur::t(&p)).map_err(|e| e.to_string());
                outs.push(match r {
                    Ok(()) => n.get_output().map(|t| bits(&cur::elements(t))).map_err(|e| e.to_string()),
                    Err(e) => Err(e),
                });
            }
        }
        Fp { train: n.get_run_state() == NetworkRunState::Training, inp, out, layers, outs }
    })
    .map_err(|p| format!("panic: {}", p))
}

pub fn diff(a: &Fp, b: &Fp) -> String {
    if a.train != b.train {
        return "the mode differs".into();
    }
    if a.inp != b.inp || a.out != b.out {
        return format!("network shapes {:?}->{:?} against {:?}->{:?}", a.inp, a.out, b.inp, b.out);
    }
    if a.layers.len() != b.layers.len() {
        return format!("{} layers against {}", a.layers.len(), b.layers.len());
    }
    for (i, (x, y)) in a.layers.iter().zip(&b.layers).enumerate() {
        if (x.kind, &x.name, x.inp, x.out) != (y.kind, &y.name, y.inp, y.out) {
            return format!(
                "layer {}: {} {:?} {:?}->{:?} against {} {:?} {:?}->{:?}",
                i, x.kind, x.name, x.inp, x.out, y.kind, y.name, y.inp, y.out
            );
        }
        if x.data != y.data {
            return format!("parameters of layer {} ({}) differ", i, x.kind);
        }
    }
    if a.outs != b.outs {
        return "inference results differ".into();
    }
    "equal".into()
}

/// A storable object: a network or a tensor
pub enum Obj {
    Net(Network),
    Ten(Tensor),
}
#[derive(Clone, PartialEq, Debug)]
pub enum OFp {
    Net(Fp),
    Ten(Sh, Vec<u32>),
}
/// the outcome of a library call
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok,
    Err(String),
    Panic(String),
}
impl OFp {
    /// one and the same to save
    pub fn stores_as(&self, o: &OFp) -> bool {
        match (self, o) {
            (OFp::Net(a), OFp::Net(b)) => (a.inp, a.out) == (b.inp, b.out) && a.layers == b.layers,
            _ => self == o,
        }
    }
}
impl Out {
    pub fn ok(&self) -> bool {
        *self == Out::Ok
    }
    pub fn text(&self) -> String {
        match self {
            Out::Ok => "ok".into(),
            Out::Err(e) => format!("error ({})", e),
            Out::Panic(p) => format!("PANIC ({})", p),
        }
    }
}

impl Obj {
    /// {"k":"ten","sh":[..],"style","seed"} or {"k":"net","net":{..},"train":bool,"hist":n}
    pub fn make(v: &V) -> Result<Obj, String> {
        if v.s("k") == "ten" {
            let g = |i: usize| v.get("sh").at(i).int().clamp(0, 1024) as u32;
            let s = [g(0), g(1), g(2)];
            let d = values(size(s), v.i("style"), v.u("seed"));
            return lib(|| Obj::Ten(cur::tensor(s, &d)));
        }
        let mode = if v.b("train") { NetworkRunState::Training } else { NetworkRunState::Inference };
        if v.b("bare") {
            return lib(|| Obj::Net(Network::new(mode)));
        }
        let net = Net::new(v.get("net"));
        let mut n = build(&net, mode)?;
        // some use before the object is stored: none of it may matter
        for h in 0..v.u("hist").min(4) {
            let _ = lib(|| {
                let x = T { sh: net.inp, d: values(size(net.inp), 1, h) };
                let _ = n.infer(&cur::t(&x));
                if v.b("train") {
                    let g = T { sh: net.out(), d: values(size(net.out()), 1, h ^ 5) };
                    let _ = n.backward(&cur::t(&g));
                }
            });
        }
        Ok(Obj::Net(n))
    }
    pub fn fp(&mut self, probes: u64) -> Result<OFp, String> {
        match self {
            Obj::Net(n) => fp(n, probes).map(OFp::Net),
            Obj::Ten(t) => lib(|| {
                let e = cur::elements(t);
                OFp::Ten(cur::sh(t.get_shape()), e.iter().map(|f| f.to_bits()).collect())
            })
            .map_err(|p| format!("panic: {}", p)),
        }
    }
    /// the fingerprint of a loaded object, in the mode of the other one
    pub fn fp_like(&mut self, probes: u64, like: &OFp) -> Result<OFp, String> {
        if let (Obj::Net(n), OFp::Net(f)) = (&mut *self, like) {
            lib(|| {
                if (n.get_run_state() == NetworkRunState::Training) != f.train {
                    if f.train {
                        n.switch_to_training()
                    } else {
                        n.switch_to_inference()
                    }
                }
            })
            .map_err(|p| format!("panic: {}", p))?;
        }
        self.fp(probes)
    }
    pub fn save(&self, path: &str) -> Out {
        let p = path.to_string();
        let r = lib(|| match self {
            Obj::Net(n) => n.save_to_file(&p).map_err(|e| e.to_string()),
            Obj::Ten(t) => t.save_to_file(&p).map_err(|e| e.to_string()),
        });
        match r {
            Ok(Ok(())) => Out::Ok,
            Ok(Err(e)) => Out::Err(e),
            Err(p) => Out::Panic(p),
        }
    }
    pub fn is_net(&self) -> bool {
        matches!(self, Obj::Net(_))
    }
}
pub fn load(net: bool, path: &str, train: bool) -> Result<Obj, Out> {
    let p = path.to_string();
    let mode = if train { NetworkRunState::Training } else { NetworkRunState::Inference };
    let r = lib(|| {
        if net {
            let mut n = Network::new(mode);
            n.load_from_file(&p).map_err(|e| e.to_string())?;
            Ok(Obj::Net(n))
        } else {
            Tensor::from_file(&p).map(Obj::Ten).map_err(|e| e.to_string())
        }
    });
    match r {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(Out::Err(e)),
        Err(p) => Err(Out::Panic(p)),
    }
}
pub fn odiff(a: &OFp, b: &OFp) -> String {
    match (a, b) {
        (OFp::Net(x), OFp::Net(y)) => diff(x, y),
        (OFp::Ten(s, x), OFp::Ten(t, y)) => {
            if s != t {
                format!("shape {:?} against {:?}", s, t)
            } else if x != y {
                let i = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(0);
                format!("element {}: bits {:08x} against {:08x}", i, x.get(i).unwrap_or(&0), y.get(i).unwrap_or(&0))
            } else {
                "equal".into()
            }
        }
        _ => "kinds differ".into(),
    }
}
