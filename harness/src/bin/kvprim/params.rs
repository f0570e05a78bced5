//! Parameter values, hints and `UGen::param`.
use knaster_core::typenum::*;
use knaster_core::*;
use kv::*;

#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, num_derive::FromPrimitive, num_derive::ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
enum E1 {
    A = 0,
    #[default]
    Bee,
    C,
}
#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, num_derive::FromPrimitive, num_derive::ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
enum E2 {
    #[default]
    Only = 0,
}
use knaster_core::num_traits;

fn gen_f(src: &mut Src) -> f64 {
    match src.below(9) {
        0 => 0.0,
        1 => -1.0,
        2 => f64::MAX,
        3 => f64::MIN_POSITIVE,
        4 => f64::INFINITY,
        5 => -0.0,
        6 => src.f(-1e6, 1e6),
        7 => src.below(1000) as f64,
        _ => src.f(0.0, 1.0),
    }
}
fn gen_u(src: &mut Src) -> usize {
    match src.below(4) {
        0 => src.idx(8),
        1 => usize::MAX - src.idx(3),
        _ => src.below(1 << 40) as usize,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Is {
    F(f64),
    T,
    I(usize),
    B(bool),
    S(Option<f32>, bool),
}
fn is(v: ParameterValue) -> Is {
    match v {
        ParameterValue::Float(x) => Is::F(x),
        ParameterValue::Trigger => Is::T,
        ParameterValue::Integer(x) => Is::I(x.0),
        ParameterValue::Bool(b) => Is::B(b),
        ParameterValue::Smoothing(s, r) => Is::S(match s { ParameterSmoothing::None => None, ParameterSmoothing::Linear(x) => Some(x) }, matches!(r, Rate::AudioRate)),
    }
}
fn gen_value(src: &mut Src) -> (ParameterValue, Is) {
    match src.below(10) {
        0 | 1 => { let x = gen_f(src); (x.into(), Is::F(x)) }
        2 => { let x = gen_f(src) as f32; (x.into(), Is::F(x as f64)) }
        3 => (PTrigger.into(), Is::T),
        4 => { let x = gen_u(src); (x.into(), Is::I(x)) }
        5 => { let b = src.bool(); (b.into(), Is::B(b)) }
        6 => { let d = src.pickc(&[Done::None, Done::FreeSelf, Done::FreeParent]); (d.into(), Is::I(d as usize)) }
        7 => { let d = src.pickc(&[E1::A, E1::Bee, E1::C]); (d.into(), Is::I(d as usize)) }
        8 => { let s = src.f(0.0, 2.0) as f32; (ParameterSmoothing::Linear(s).into(), Is::S(Some(s), false)) }
        _ => { let a = src.bool(); ((ParameterSmoothing::None, if a { Rate::AudioRate } else { Rate::BlockRate }).into(), Is::S(None, a)) }
    }
}
fn ty(t: ParameterType) -> u8 {
    match t {
        ParameterType::Float => 0,
        ParameterType::Trigger => 1,
        ParameterType::Integer => 2,
        ParameterType::Bool => 3,
    }
}
fn ty_of(i: Is) -> u8 {
    match i {
        Is::F(_) | Is::S(..) => 0,
        Is::T => 1,
        Is::I(_) => 2,
        Is::B(_) => 3,
    }
}
pub fn values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (v, m) = gen_value(src);
    ctx.note(|| format!("{v:?} from {m:?}"));
    ctx.nontrivial_if(true);
    check!(is(v) == m, "conversion into a parameter value", "{m:?} became {v:?}");
    check!(v.float() == if let Is::F(x) = m { Some(x) } else { None }, "value as float", "{v:?}: {:?}", v.float());
    check!(v.f::<f64>() == if let Is::F(x) = m { Some(x) } else { None }, "value as float", "{v:?}: {:?}", v.f::<f64>());
    check!(v.f::<f32>() == if let Is::F(x) = m { Some(x as f32) } else { None }, "value as f32", "{v:?}: {:?}", v.f::<f32>());
    check!(v.integer().map(|x| x.0) == if let Is::I(x) = m { Some(x) } else { None }, "value as integer", "{v:?}: {:?}", v.integer());
    check!(v.bool() == if let Is::B(x) = m { Some(x) } else { None }, "value as bool", "{v:?}: {:?}", v.bool());
    check!(ty(v.ty()) == ty_of(m), "type of a value", "{v:?}");
    // enums through integers and back
    let k = if src.bool() { src.idx(5) } else { gen_u(src) };
    let want = [E1::A, E1::Bee, E1::C].get(k).copied().unwrap_or_default();
    check!(E1::from(PInteger(k)) == want, "enum from an integer", "{k}: {:?}, expected {want:?}", E1::from(PInteger(k)));
    let d = [Done::None, Done::FreeSelf, Done::FreeParent].get(k).copied().unwrap_or_default();
    check!(Done::from(PInteger(k)) == d, "done action from an integer", "{k}: {:?}, expected {d:?}", Done::from(PInteger(k)));
    check!(E1::pinteger_descriptions(PInteger(k)) == ["A", "Bee", "C"].get(k).copied(), "description of an integer value", "{k}: {:?}", E1::pinteger_descriptions(PInteger(k)));
    check!(usize::from(PInteger(k)) == k && PInteger::from(k).0 == k, "integer", "{k}");
    check!(matches!(Param::from(k), Param::Index(i) if i == k) && matches!(Param::from("x"), Param::Desc("x")), "parameter selector", "{k}");
    Ok(())
}
pub fn hints(src: &mut Src, ctx: &mut Ctx) -> Res {
    use FloatParameterRange as R;
    let mut h = PFloatHint::new();
    check!(h == PFloatHint { default: None, range: None, kind: None, is_logarithmic: None }, "empty hint", "{h:?}");
    let mut m = h;
    let n = src.range(0, 5);
    for _ in 0..n {
        let (a, b) = (gen_f(src), gen_f(src));
        let op = src.below(12);
        ctx.note(|| format!("op {op} {a} {b}"));
        match op {
            0 => { h = h.default(a); m.default = Some(a); }
            1 => { h = h.minmax(a, b); m.range = Some(R::Range(a, b)); }
            2 => { h = h.infinite(); m.range = Some(R::Infinite); }
            3 => { h = h.unipolar(); m.range = Some(R::Range(0.0, 1.0)); }
            4 => { h = h.positive_infinite(); m.range = Some(R::PositiveInfinite); }
            5 => { h = h.negative_infinite(); m.range = Some(R::NegativeInfinite); }
            6 => { h = h.nyquist(); m.range = Some(R::Nyquist); }
            7 => { let x = src.bool(); h = h.logarithmic(x); m.is_logarithmic = Some(x); }
            8 => { let k = src.pickc(&[FloatParameterKind::Amplitude, FloatParameterKind::Frequency, FloatParameterKind::Q, FloatParameterKind::Seconds]); h = h.kind(k); m.kind = Some(k); }
            9 => { h = h.range(a..=b); m.range = Some(R::Range(a, b)); }
            10 => { h = h.range(a..); m.range = Some(R::Range(a, f64::MAX)); }
            _ => { if src.bool() { h = h.range(..=b) } else { h = h.range(..b) }; m.range = Some(R::Range(f64::MIN, b)); }
        }
        check!(h == m, "float hint", "{h:?}, expected {m:?}");
    }
    ctx.nontrivial_if(n > 1);
    let ph = ParameterHint::new_float(|_| h);
    check!(ph.float_hint() == Some(&m) && ph.integer_hint().is_none() && ty(ph.ty()) == 0, "float hint inside a parameter hint", "{ph:?}");
    let (a, b) = (gen_u(src), gen_u(src));
    let ih = ParameterHint::new_integer((PInteger(a), PInteger(b)), |h| h);
    let i = ih.integer_hint();
    check!(i.is_some_and(|i| (i.range.0.0, i.range.1.0) == (a, b) && i.default.is_none() && i.description(PInteger(a)).is_none() && i.descriptions().is_none()) && ih.float_hint().is_none() && ty(ih.ty()) == 2, "integer hint", "{ih:?}");
    check!(ty(ParameterHint::Trigger.ty()) == 1 && ty(ParameterHint::boolean().ty()) == 3 && ParameterHint::Trigger.float_hint().is_none() && ParameterHint::Bool.integer_hint().is_none(), "hint types", "trigger, bool");
    for (x, r) in [(ParameterHint::infinite_float(), R::Infinite), (ParameterHint::positive_infinite_float(), R::PositiveInfinite), (ParameterHint::negative_infinite_float(), R::NegativeInfinite), (ParameterHint::one(), R::Range(0.0, 1.0))] {
        check!(x.float_hint() == Some(&PFloatHint { range: Some(r), ..PFloatHint::new() }), "ready-made hint", "{x:?}, expected range {r:?}");
    }
    fn en<T: PIntegerConvertible + Default>(names: &[&str], def: usize) -> Res {
        let h = ParameterHint::from_pinteger_enum::<T>();
        let i = h.integer_hint().unwrap();
        check!(i.default.map(|x| x.0) == Some(def), "default of an enum hint", "{i:?}");
        let d: Vec<(usize, String)> = i.descriptions().unwrap().into_iter().map(|(i, s)| (i.0, s)).collect();
        let want: Vec<(usize, String)> = names.iter().enumerate().map(|(i, s)| (i, s.to_string())).collect();
        check!(d == want, "descriptions of an enum hint", "{d:?}, expected {want:?}");
        for (k, s) in names.iter().enumerate() {
            check!(i.description(PInteger(k)) == Some(*s), "description of an enum value", "{k}");
        }
        check!(i.range.0.0 == 0 && i.range.1.0 >= names.len() - 1 && i.description(PInteger(names.len())).is_none(), "range of an enum hint", "{i:?}");
        Ok(())
    }
    en::<E1>(&["A", "Bee", "C"], 1)?;
    en::<E2>(&["Only"], 0)?;
    en::<Done>(&["None", "FreeSelf", "FreeParent"], 0)
}

/// Writes down what reaches it.
#[derive(Default)]
struct Rec {
    calls: Vec<(usize, Is)>,
}
const TYPES: [u8; 6] = [0, 1, 2, 3, 0, 2];
const NAMES: [&str; 6] = ["gain", "t_restart", "mode", "on", "freq", "count"];
impl UGen for Rec {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U0;
    type Parameters = U6;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, U0>) -> Frame<f32, U0> {
        [].into()
    }
    fn param_descriptions() -> numeric_array::NumericArray<&'static str, U6> {
        NAMES.into()
    }
    fn param_hints() -> numeric_array::NumericArray<ParameterHint, U6> {
        [ParameterHint::one(), ParameterHint::Trigger, ParameterHint::from_pinteger_enum::<E1>(), ParameterHint::Bool, ParameterHint::new_float(|h| h.nyquist()), ParameterHint::new_integer((PInteger(0), PInteger(9)), |h| h)].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, i: usize, v: ParameterValue) {
        self.calls.push((i, is(v)));
    }
}
pub fn set(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = AudioCtx::new(48000, 64, log::ArLogSender::non_rt());
    let mut u = Rec::default();
    let mut want = vec![];
    let (mut ok, mut no) = (0, 0);
    check!(Rec::param_types().iter().zip(TYPES).all(|(a, b)| ty(*a) == b), "parameter types from hints", "differ from the hints");
    for _ in 0..src.range(1, 8) {
        let i = match src.below(6) { 0 => 6, 1 => gen_u(src).max(6), _ => src.idx(6) };
        let (v, m) = gen_value(src);
        let name = src.bool();
        let (r, exp) = if name {
            let n = NAMES.get(i).copied().unwrap_or(["", "Gain", "gai", "freq "][i % 4]);
            ctx.note(|| format!("{n:?} = {v:?}"));
            (u.param(&mut c, n, v), if i < 6 { if TYPES[i] == ty_of(m) { "ok" } else { "type" } } else { "name" })
        } else {
            ctx.note(|| format!("{i} = {v:?}"));
            (u.param(&mut c, i, v), if i < 6 { if TYPES[i] == ty_of(m) { "ok" } else { "type" } } else { "index" })
        };
        let got = match &r {
            Ok(()) => "ok",
            Err(ParameterError::DescriptionNotFound(_)) => "name",
            Err(ParameterError::ParameterIndexOutOfBounds) => "index",
            Err(ParameterError::WrongParameterType) => "type",
            Err(_) => "other",
        };
        check!(got == exp, "setting a parameter: result", "parameter {i} (by name: {name}) = {v:?}: {r:?}, expected {exp}");
        if exp == "ok" {
            want.push((i, m));
            ok += 1;
        } else {
            no += 1;
        }
    }
    check!(u.calls == want, "setting a parameter: effect", "{:?}, expected {want:?}", u.calls);
    ctx.nontrivial_if(ok > 0 && no > 0);
    Ok(())
}
