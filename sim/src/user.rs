//! Layers as a user of the library makes them: with a past of their own, and of the user's own kinds.
use crate::bridge::{cur, LibLayer, Network, NetworkRunState as Mode, SerializedLayer, Tensor};
use crate::json::V;
use crate::model::*;
use crate::model::Kind;
use crate::rng::Rng;
use crate::world::*;
use rusty_network::layer::{
    convolutional::ConvolutionalLayer, fully_connected::FullyConnectedLayer, max_pool::MaxPoolLayer,
    softmax::SoftmaxLayer,
};
use std::cell::RefCell;
use std::rc::Rc;

/// what a layer went through before it is used. bit 0: training mode, 1: a forward pass, 2: a backward pass,
/// 3: back to inference mode, 4: was another layer before, 5: has been stored, 6: is part of a user-defined layer
/// with a network of its own, 7: made by `new` and the fill functions where that is possible
pub fn gen_pre(r: &mut Rng, nested: bool) -> i64 {
    if r.chance(500) {
        return 0;
    }
    let life = if r.chance(500) { r.range(0, 15) } else { 0 };
    let past = if r.chance(500) { r.range(0, 3) << 4 } else { 0 };
    let nest = if nested && r.chance(250) { 64 } else { 0 };
    life | past | nest | if r.chance(400) { 128 } else { 0 }
}
pub fn give_past(r: &mut Rng, net: &mut V, nested: bool) {
    if r.chance(300) {
        let ls = net.get("layers").arr().iter().map(|l| l.clone().set("pre", gen_pre(r, nested))).collect();
        net.put("layers", V::Arr(ls));
    }
}

pub fn live_before(x: &mut dyn LibLayer, l: &Layer) {
    let z = |s: Sh, n: u64| cur::tensor(s, &values(size(s), 1, n));
    if l.pre & 1 != 0 {
        x.switch_to_training();
    }
    if l.pre & 2 != 0 {
        let _ = x.forward(&z(l.inp, 5), &mut z(l.out, 6));
    }
    if l.pre & 4 != 0 {
        let _ = x.backward(&z(l.inp, 5), &z(l.out, 7), &z(l.out, 8), &mut z(l.inp, 9));
    }
    if l.pre & 8 != 0 {
        x.switch_to_inference();
    }
}
/// runs as library code
pub fn add_used(n: &mut Network, l: &Layer) -> Result<(), &'static str> {
    if l.pre == 0 {
        return cur::add(n, l);
    }
    if let Kind::Probe = l.kind {
        return Ok(());
    }
    if l.pre & 64 != 0 {
        return n.add_layer(Composite::new(l)?);
    }
    match Own::make(l)? {
        Own::Fc(x) => n.add_layer(x),
        Own::Conv(x) => n.add_layer(x),
        Own::Pool(x) => n.add_layer(x),
        Own::Soft(x) => n.add_layer(x),
    }
}

/// a user-defined layer that is a network itself
struct Composite {
    net: Network,
    tap: Rc<RefCell<Ctl>>,
    inp: Sh,
    out: Sh,
}
impl Composite {
    fn new(l: &Layer) -> Result<Composite, &'static str> {
        let tap = Rc::new(RefCell::new(Ctl::default()));
        let mut net = Network::new(Mode::Inference);
        net.add_layer(Probe::new(l.inp, &tap))?;
        let inner = Layer { pre: l.pre & !64, ..l.clone() };
        add_used(&mut net, &inner)?;
        Ok(Composite { net, tap, inp: l.inp, out: l.out })
    }
    fn inner(&self) -> &dyn LibLayer {
        self.net.get_layers()[1].as_ref()
    }
}
impl LibLayer for Composite {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        self.net.infer(input)?;
        output.fill_with_vec(cur::elements(self.net.get_output()?))
    }
    fn backward(&mut self, _i: &Tensor, _o: &Tensor, inc: &Tensor, out: &mut Tensor) -> Result<(), &'static str> {
        self.tap.borrow_mut().grad = None;
        self.net.backward(inc)?;
        let g = self.tap.borrow_mut().grad.take();
        out.fill_with_vec(g.ok_or("the gradient did not reach the first layer")?)
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.net.switch_to_training();
    }
    fn switch_to_inference(&mut self) {
        self.net.switch_to_inference();
    }
    fn get_run_mode(&self) -> Mode {
        self.net.get_run_state()
    }
    fn get_input_shape(&self) -> rusty_network::tensor::helper::TensorShape {
        cur::shape(self.inp)
    }
    fn get_output_shape(&self) -> rusty_network::tensor::helper::TensorShape {
        cur::shape(self.out)
    }
    fn get_name(&self) -> String {
        self.inner().get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.inner().get_serialized()
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("a composite is not stored")
    }
    #[cfg(feature = "grads")]
    fn sim_parameter_gradients(&self) -> Vec<Tensor> {
        self.inner().sim_parameter_gradients()
    }
}

#[derive(Default)]
pub struct Ctl {
    pub fail_fwd: bool,
    pub fail_bwd: bool,
    pub grad: Option<Vec<f32>>,
    pub seen: Option<Vec<f32>>,
}
/// an identity layer that records what passes through it and fails on demand
pub struct Probe {
    sh: Sh,
    mode: Mode,
    ctl: Rc<RefCell<Ctl>>,
}
impl Probe {
    pub fn new(sh: Sh, ctl: &Rc<RefCell<Ctl>>) -> Probe {
        Probe { sh, mode: Mode::Inference, ctl: ctl.clone() }
    }
}
impl LibLayer for Probe {
    fn forward(&mut self, input: &Tensor, output: &mut Tensor) -> Result<(), &'static str> {
        let d = cur::elements(input);
        let fail = unlib(|| {
            w().event(60, 0, || "probe: forward".into());
            let mut c = self.ctl.borrow_mut();
            c.seen = Some(d.clone());
            c.fail_fwd
        });
        if fail {
            output.fill_with_value(1.0e9);
            unlib(|| w().count("layer-fail-forward"));
            return Err("this layer refuses");
        }
        output.fill_with_vec(d)
    }
    fn backward(&mut self, _i: &Tensor, _o: &Tensor, inc: &Tensor, out: &mut Tensor) -> Result<(), &'static str> {
        let d = cur::elements(inc);
        let fail = unlib(|| {
            w().event(61, 0, || "probe: backward".into());
            let mut c = self.ctl.borrow_mut();
            c.grad = Some(d.clone());
            c.fail_bwd
        });
        if fail {
            out.fill_with_value(-1.0e9);
            unlib(|| w().count("layer-fail-backward"));
            return Err("this layer refuses");
        }
        out.fill_with_vec(d)
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.mode = Mode::Training;
    }
    fn switch_to_inference(&mut self) {
        self.mode = Mode::Inference;
    }
    fn get_run_mode(&self) -> Mode {
        self.mode
    }
    fn get_input_shape(&self) -> rusty_network::tensor::helper::TensorShape {
        cur::shape(self.sh)
    }
    fn get_output_shape(&self) -> rusty_network::tensor::helper::TensorShape {
        cur::shape(self.sh)
    }
    fn get_name(&self) -> String {
        "probe".into()
    }
    fn get_serialized(&self) -> SerializedLayer {
        // stored as the identity: pooling over single elements
        MaxPoolLayer::new(cur::shape([1, 1, 1]), cur::shape(self.sh), 1, &"probe".to_string()).unwrap().get_serialized()
    }
    fn load_from_serialized(&mut self, _: &SerializedLayer) -> Result<(), &'static str> {
        Err("a probe is not stored")
    }
}
pub enum Own {
    Fc(FullyConnectedLayer),
    Conv(ConvolutionalLayer),
    Pool(MaxPoolLayer),
    Soft(SoftmaxLayer),
}
impl Own {
    pub fn d(&mut self) -> &mut dyn LibLayer {
        match self {
            Own::Fc(x) => x,
            Own::Conv(x) => x,
            Own::Pool(x) => x,
            Own::Soft(x) => x,
        }
    }
    pub fn empty(l: &Layer) -> Own {
        match l.kind {
            Kind::Fc { .. } => Own::Fc(FullyConnectedLayer::empty()),
            Kind::Conv { .. } => Own::Conv(ConvolutionalLayer::empty()),
            Kind::Pool { .. } => Own::Pool(MaxPoolLayer::empty()),
            _ => Own::Soft(SoftmaxLayer::empty()),
        }
    }
    pub fn fill(&mut self, l: &Layer) -> Result<(), &'static str> {
        match (self, &l.kind) {
            (Own::Fc(x), Kind::Fc { w, b }) => x.fill_from_state(cur::t(w), cur::t(b), &l.name),
            (Own::Conv(x), Kind::Conv { k, b, stride }) => x.fill_from_state(
                k.iter().map(cur::t).collect(),
                b.iter().map(|&f| cur::tensor([1, 1, 1], &[f])).collect(),
                cur::shape(l.inp),
                *stride,
                &l.name,
            ),
            (Own::Pool(x), Kind::Pool { mask, stride }) => {
                x.fill_from_state(cur::shape(l.inp), cur::shape(*mask), *stride, &l.name)
            }
            (Own::Soft(x), _) => x.fill_from_state(cur::shape(l.inp), &l.name),
            _ => Err("harness: kinds differ"),
        }
    }

    /// the layer as specified, after the past it is said to have
    pub fn make(l: &Layer) -> Result<Own, &'static str> {
        let mut x = Own::empty(l);
        if l.pre & 16 != 0 {
            // it was something else before, and stored as that
            let k = |sh: Sh| cur::tensor(sh, &values(size(sh), 1, 21));
            let (s, name) = (cur::shape, "before".to_string());
            match &mut x {
                Own::Fc(x) => x.fill_from_state(k([2, 3, 1]), k([2, 1, 1]), &name)?,
                Own::Conv(x) => x.fill_from_state(vec![k([2, 1, 1])], vec![k([1, 1, 1])], s([3, 2, 1]), 1, &name)?,
                Own::Pool(x) => x.fill_from_state(s([4, 2, 1]), s([2, 2, 1]), 2, &name)?,
                Own::Soft(x) => x.fill_from_state(s([2, 2, 1]), &name)?,
            }
            let _ = x.d().get_serialized();
        }
        if l.pre & 128 == 0 || !x.by_value(l)? {
            x.fill(l)?;
        }
        if l.pre & 32 != 0 {
            let _ = x.d().get_serialized();
        }
        live_before(x.d(), l);
        Ok(x)
    }
    /// through the constructors that take no parameters, if these parameters can be given that way
    fn by_value(&mut self, l: &Layer) -> Result<bool, &'static str> {
        let same = |d: &[f32]| d.iter().all(|f| f.to_bits() == d[0].to_bits());
        let zero = |d: &[f32]| d.iter().all(|f| f.to_bits() == 0);
        match (self, &l.kind) {
            (Own::Fc(x), Kind::Fc { w, b }) if l.inp[2] == 1 && same(&w.d) && same(&b.d) => {
                *x = FullyConnectedLayer::new(l.inp[0], l.out[0], &l.name);
                if l.pre & 32 != 0 {
                    let _ = x.get_serialized();
                }
                x.fill_weights_with_value(w.d[0]);
                x.fill_bias_with_value(b.d[0]);
            }
            (Own::Conv(x), Kind::Conv { k, b, stride }) if zero(b) && k.iter().all(|k| zero(&k.d)) => {
                *x = ConvolutionalLayer::new(cur::shape(k[0].sh), cur::shape(l.inp), *stride, k.len() as u32, &l.name)?;
            }
            (Own::Pool(x), Kind::Pool { mask, stride }) => {
                *x = MaxPoolLayer::new(cur::shape(*mask), cur::shape(l.inp), *stride, &l.name)?;
            }
            (Own::Soft(x), Kind::Soft) => *x = SoftmaxLayer::new(cur::shape(l.inp), &l.name)?,
            _ => return Ok(false),
        }
        Ok(true)
    }
}
