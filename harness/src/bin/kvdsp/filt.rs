//! P22: filters.
use crate::dynu::*;
use crate::osc::f64_of;
use crate::zoo::{TRIG, fl, int};

use knaster_core::*;
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::svf::*;
use kv::*;
use std::f64::consts::{PI, TAU};

fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
fn setup(src: &mut Src) -> (u32, usize, usize, How) {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000, 96000]);
    let total = src.range(1, 200);
    let bs = src.pickc(&[16, 1, 8, 64, 33, 128]);
    let h = how(src, total);
    (sr, total, bs, h)
}
fn cast<F: Float>(v: f64) -> f64 {
    Float::to_f64(F::new(v))
}

/// One pole filters: a smoothed copy of the input, or what is left without it.
fn onepole_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, total, bs, h) = setup(src);
    let s = sr as f64;
    let freq = |src: &mut Src| match src.weighted(&[3, 3, 1]) {
        0 => src.f(0., s / 2.),
        1 => src.flog(s / 1e5, s / 2.),
        _ => src.pickc(&[0., s / 4., s / 2.]),
    };
    let f0 = freq(src).max(1e-3);
    let high = src.bool();
    let input: Vec<F> = signal(src, total);
    let ch = chgs(src, total, 5, 1, &|src, _| fl(freq(src)));
    let name = if high { "OnePoleHpf" } else { "OnePoleLpf" };
    ctx.class(name);
    ctx.note(|| {
        format!(
            "{name} {f0} Hz, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}, input {input:?}"
        )
    });
    let u: Box<dyn Dyn<F>> = if high {
        Box::new(OnePoleHpf::<F>::new())
    } else {
        Box::new(OnePoleLpf::<F>::new(F::new(f0)))
    };
    let r = render(u, sr, bs, total, &[input.clone()], &ch, &h);
    // Part of the last value that is left after a frame. The highpass passes on its input until it
    // is given a frequency.
    let left = |f: f64| (-TAU * f / s).exp();
    let (mut b, mut y, mut k, mut top) = (if high { 1. } else { left(f0) }, 0., 0, 0f64);
    let unit = if is32::<F>() { 4e-7 } else { 1e-14 };
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            b = left(f64_of(ch[k].val));
            k += 1;
        }
        let x = Float::to_f64(input[n]);
        y += (1. - b) * (x - y);
        top = top.max(x.abs());
        let want = if high { x - y } else { y };
        let got = r.out[0][n];
        check!(
            (got - want).abs() <= unit * (n + 2) as f64 * top,
            format!("{name}: wrong sample"),
            "frame {n}: {got}, expected {want}"
        );
    }
    ctx.class_if(ch.iter().any(|c| c.at > 0), "frequency changed");
    ctx.nontrivial_if(total > 2 && top > 0.);
    // the filter on its own, with reset
    let mut op = OnePole::<F>::new();
    let (mut y, mut b, mut log) = (0., 0., vec![]);
    for i in 0..20 {
        match src.weighted(&[5, 1, 1]) {
            0 => {}
            1 => {
                let f = freq(src);
                log.push(format!("{i}: {f} Hz"));
                if src.bool() {
                    op.set_freq_lowpass(F::new(f), F::new(s));
                } else {
                    op.set_freq_highpass(F::new(f), F::new(s));
                }
                b = left(f);
            }
            _ => {
                log.push(format!("{i}: reset"));
                op.reset();
                y = 0.;
            }
        }
        let x = cast::<F>(src.sample());
        y += (1. - b) * (x - y);
        let lp = src.bool();
        let (got, want) = if lp {
            (op.process_lp(F::new(x)), y)
        } else {
            (op.process_hp(F::new(x)), x - y)
        };
        let got = Float::to_f64(got);
        check!(
            (got - want).abs() <= unit * 40.,
            "OnePole: wrong sample",
            "{log:?}, sample {i}: {got}, expected {want}"
        );
    }
    Ok(())
}
pub fn onepole(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        onepole_t::<f64>(src, ctx)
    } else {
        onepole_t::<f32>(src, ctx)
    }
}

const TYPES: [SvfFilterType; 9] = [
    SvfFilterType::Low,
    SvfFilterType::High,
    SvfFilterType::Band,
    SvfFilterType::Notch,
    SvfFilterType::Peak,
    SvfFilterType::All,
    SvfFilterType::Bell,
    SvfFilterType::LowShelf,
    SvfFilterType::HighShelf,
];
/// Two integrators with the trapezoidal rule (as by Zavalishin), and the mix of their high, band
/// and low pass outputs for each filter.
#[derive(Clone, Copy, Debug)]
struct Svf {
    ty: usize,
    f: f64,
    q: f64,
    db: f64,
    s1: f64,
    s2: f64,
}
impl Svf {
    /// frequency factor, damping, and the mix
    fn design(&self, s: f64) -> (f64, f64, [f64; 3]) {
        let a = 10f64.powf(self.db / 40.);
        let g = (PI * self.f / s).tan();
        let k = 1. / self.q;
        match self.ty {
            0 => (g, k, [0., 0., 1.]),
            1 => (g, k, [1., 0., 0.]),
            2 => (g, k, [0., 1., 0.]),
            3 => (g, k, [1., 0., 1.]),
            4 => (g, k, [1., 0., -1.]),
            5 => (g, k, [1., -k, 1.]),
            6 => (g, k / a, [1., k * a, 1.]),
            7 => (g / a.sqrt(), k, [1., k * a, a * a]),
            _ => (g * a.sqrt(), k, [a * a, k * a, 1.]),
        }
    }
    fn frame(&mut self, x: f64, s: f64) -> f64 {
        let (g, k, m) = self.design(s);
        let hp = (x - (g + k) * self.s1 - self.s2) / (1. + g * (g + k));
        let bp = g * hp + self.s1;
        let lp = g * bp + self.s2;
        self.s1 = g * hp + bp;
        self.s2 = g * bp + lp;
        m[0] * hp + m[1] * bp + m[2] * lp
    }
    /// Amplification of a frequency, of the analog filter at the frequency it is warped to.
    fn gain(&self, f: f64, s: f64) -> f64 {
        let (g, k, m) = self.design(s);
        let w = (PI * f / s).tan() / g;
        // high, band, low over the denominator with s = jw
        let den = (1. - w * w).hypot(k * w);
        (m[2] - m[0] * w * w).hypot(m[1] * w) / den
    }
}
fn svf_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, total, bs, h) = setup(src);
    let s = sr as f64;
    let fmax = if is32::<F>() { 0.45 } else { 0.49 };
    let freq = |src: &mut Src| match src.weighted(&[2, 3]) {
        0 => src.f(0.01, fmax) * s,
        _ => src.flog(0.0005, fmax) * s,
    };
    let q = |src: &mut Src| match src.weighted(&[2, 1]) {
        0 => src.flog(0.1, 20.),
        _ => src.pickc(&[0.5, 1., std::f64::consts::FRAC_1_SQRT_2]),
    };
    let gain = |src: &mut Src| match src.weighted(&[3, 1]) {
        0 => src.f(-24., 24.),
        _ => 0.,
    };
    let mut m = Svf {
        ty: src.idx(9),
        f: freq(src),
        q: q(src),
        db: gain(src),
        s1: 0.,
        s2: 0.,
    };
    let input: Vec<F> = signal(src, total);
    let ch = chgs(src, total, 5, 5, &|src, i| match i {
        0 => fl(freq(src)),
        1 => fl(q(src)),
        2 => fl(gain(src)),
        // unknown types are the first one
        3 => int(src.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 300]).to_owned()),
        _ => TRIG,
    });
    ctx.note(|| {
        format!("{m:?}, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}, input {input:?}")
    });
    let u = SvfFilter::<F>::new(TYPES[m.ty], F::new(m.f), F::new(m.q), F::new(m.db));
    let r = render(Box::new(u), sr, bs, total, &[input.clone()], &ch, &h);
    let (mut k, mut top, mut amp) = (0, 0f64, 1f64);
    let unit = if is32::<F>() { 1e-6 } else { 1e-14 };
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            match ch[k].idx {
                0 => m.f = f64_of(ch[k].val),
                1 => m.q = f64_of(ch[k].val),
                2 => m.db = f64_of(ch[k].val),
                3 => {
                    let ParameterValue::Integer(i) = ch[k].val else {
                        unreachable!()
                    };
                    m.ty = if i.0 < 9 { i.0 } else { 0 };
                }
                _ => {}
            }
            k += 1;
        }
        ctx.class(TNAMES[m.ty]);
        let x = Float::to_f64(input[n]);
        let want = m.frame(x, s);
        let (g, kk, mix) = m.design(s);
        top = top.max(x.abs()).max(m.s1.abs()).max(m.s2.abs());
        amp = amp.max(mix.iter().map(|m| m.abs()).fold(1. + kk, f64::max));
        let got = r.out[0][n];
        let tol = unit * (n + 4) as f64 * top * amp * (4. + g + 1. / g.min(1.) / 50.);
        check!(
            (got - want).abs() <= tol,
            format!("SvfFilter: wrong sample of {}", TNAMES[m.ty]),
            "frame {n}: {got}, expected {want} (tolerance {tol:e})"
        );
    }
    ctx.class_if(ch.iter().any(|c| c.at > 0), "changed while running");
    ctx.nontrivial_if(total > 2 && top > 0.);
    Ok(())
}
const TNAMES: [&str; 9] = [
    "Low",
    "High",
    "Band",
    "Notch",
    "Peak",
    "All",
    "Bell",
    "LowShelf",
    "HighShelf",
];
pub fn svf(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(2, 3) {
        svf_t::<f64>(src, ctx)
    } else {
        svf_t::<f32>(src, ctx)
    }
}

/// The amplification of a frequency, measured, is that of the filter's name.
pub fn response(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000]);
    let s = sr as f64;
    let m = Svf {
        ty: src.idx(9),
        f: src.flog(0.02, 0.45) * s,
        q: src.flog(0.3, 5.),
        db: src.f(-18., 18.),
        s1: 0.,
        s2: 0.,
    };
    let mut f = src.flog(0.005, 0.49) * s;
    if src.chance(1, 3) {
        f = m.f;
    }
    ctx.note(|| format!("{m:?}, {sr} Hz, gain at {f} Hz"));
    ctx.class(TNAMES[m.ty]);
    let mut u = SvfFilter::<f64>::new(TYPES[m.ty], m.f, m.q, m.db);
    UGen::init(&mut u, sr, 64);
    let (g, k, _) = m.design(s);
    // frames until nothing is left, from the poles mapped by the trapezoidal rule
    let pole = if k < 2. {
        ((1. - k * g + g * g) / (1. + k * g + g * g)).sqrt()
    } else {
        let d = (k * k / 4. - 1.).sqrt();
        let z = |p: f64| ((1. - p * g) / (1. + p * g)).abs();
        z(k / 2. + d).max(z(k / 2. - d))
    };
    let n = (-30. / pole.max(1e-9).ln()) as usize + 20;
    let (mut re, mut im) = (0., 0.);
    for i in 0..n {
        let y = u.process_sample((i == 0) as u8 as f64);
        let p = TAU * f / s * i as f64;
        re += y * p.cos();
        im -= y * p.sin();
    }
    let got = re.hypot(im);
    // The amplification every description of these filters gives, at some frequencies
    let amp = 10f64.powf(m.db / 20.);
    let at_cutoff = match m.ty {
        0 | 1 => Some(m.q),
        2 => Some(m.q),
        3 => Some(0.),
        4 => Some(2. * m.q),
        5 => Some(1.),
        6 => Some(amp),
        _ => Some(amp.sqrt()),
    };
    let want = m.gain(f, s);
    check!(
        (got - want).abs() < 1e-6 * (1. + want),
        format!("SvfFilter: wrong frequency response of {}", TNAMES[m.ty]),
        "{got} at {f} Hz, expected {want} ({n} frames)"
    );
    if let (true, Some(c)) = (f == m.f, at_cutoff) {
        ctx.class("at the cutoff frequency");
        check!(
            (got - c).abs() < 1e-6 * (1. + c),
            format!("SvfFilter: wrong gain at the cutoff of {}", TNAMES[m.ty]),
            "{got} at {f} Hz, expected {c}"
        );
    }
    ctx.nontrivial_if(n > 10);
    Ok(())
}
