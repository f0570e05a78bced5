//! P19: oscillators, noise and wavetables.
use crate::dynu::*;
use crate::zoo::{TRIG, fl, int};

use knaster_core::*;
use knaster_core_dsp::dsp::wavetable::*;
use knaster_core_dsp::dsp::xorrng::XOrShift32Rng;
use knaster_core_dsp::noise::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::polyblep::{PolyBlep, Waveform};
use kv::*;
use std::f64::consts::{PI, TAU};

fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
fn frac(x: f64) -> f64 {
    x - x.floor()
}
fn blocks(src: &mut Src) -> (usize, How, usize) {
    let total = src.range(2, 300);
    let bs = src.pickc(&[16, 1, 8, 64, 33, 128]);
    (bs, how(src, total), total)
}
fn rates(src: &mut Src) -> u32 {
    src.pickc(&[48000, 44100, 1000, 96000, 22050, 12345])
}

/// The sine oscillators and the phasor.
fn sine<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = rates(src);
    let (bs, h, total) = blocks(src);
    let kind = src.idx(3);
    let s = sr as f64;
    let fmax = if kind == 0 { s / 2. } else { s };
    let freq = |src: &mut Src| match src.weighted(&[3, 3, 1, 1]) {
        0 => src.f(0., fmax),
        1 => src.flog(s / 1e4, fmax),
        2 => 0.,
        _ => s / src.pickc(&[2., 4., 8., 16.]),
    };
    let f0 = freq(src);
    let np = if kind == 1 { 1 } else { 3 };
    let ch = chgs(src, total, 6, np, &|src, i| match i {
        0 => fl(freq(src)),
        1 => fl(if src.chance(1, 4) {
            src.pickc(&[0., 0.25, 0.5, 1.])
        } else {
            src.f(0., 1.)
        }),
        _ => TRIG,
    });
    let name = ["SinWt", "Phasor", "SinNumeric"][kind];
    ctx.class(name);
    ctx.note(|| format!("{name} {f0} Hz, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}"));
    // the frequency given to it before it is initialised is the one it starts with
    let early = kind < 2 && src.chance(1, 4);
    ctx.class_if(early, "frequency set before init");
    let f1 = if early { freq(src) } else { f0 };
    let u: Box<dyn Dyn<F>> = match kind {
        0 => {
            let mut u = SinWt::<F>::new(F::new(f1));
            if early {
                u.freq(f0);
            }
            Box::new(u)
        }
        1 => {
            let mut u = Phasor::<F>::new(f1);
            if early {
                u.freq(f0);
            }
            Box::new(u)
        }
        _ => Box::new(SinNumeric::<F>::new(F::new(f0))),
    };
    let r = render(u, sr, bs, total, &[], &ch, &h);
    let (mut freq, mut phase, mut off) = (f0, 0f64, 0f64);
    // bound on the error of the phase, in cycles
    let mut err = if kind == 1 { 1e-12 } else { 1e-9 };
    let mut k = 0;
    let mut cycles = 0.;
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            match ch[k].idx {
                0 => freq = f64_of(ch[k].val),
                1 => off = f64_of(ch[k].val),
                _ => {
                    phase = 0.;
                    err = 1e-9;
                }
            }
            k += 1;
        }
        let y = r.out[0][n];
        let round = if is32::<F>() { 4e-7 } else { 1e-14 };
        match kind {
            1 => {
                let d = frac(y - phase + 0.5) - 0.5;
                check!(
                    d.abs() <= err + round && (0. ..=1.).contains(&y),
                    "Phasor: wrong value",
                    "frame {n}: {y}, expected {}",
                    phase
                );
            }
            0 => {
                // the table has 2^14 points, read without interpolation; the phase has 30 bits
                let lo = phase + off;
                let tol = (err + 1.1 / 16384.) * TAU + 4e-7;
                let want = (TAU * lo).sin();
                check!(
                    (y - want).abs() <= tol,
                    "SinWt: wrong value",
                    "frame {n}: {y}, expected {want} (phase {})",
                    frac(lo)
                );
            }
            _ => {
                let want = (TAU * (phase + off)).sin();
                let tol = (err + 3. * round) * TAU + round;
                check!(
                    (y - want).abs() <= tol,
                    "SinNumeric: wrong value",
                    "frame {n}: {y}, expected {want} (phase {})",
                    frac(phase + off)
                );
            }
        }
        phase = frac(phase + freq / s);
        cycles += freq / s;
        err += match kind {
            0 => 1. / (1u64 << 30) as f64 + if is32::<F>() { 1e-7 * freq / s } else { 0. },
            1 => 2e-16 * 2.,
            _ => {
                if is32::<F>() {
                    2.5e-7
                } else {
                    1e-15
                }
            }
        };
    }
    ctx.class_if(
        ch.iter().any(|c| c.idx == 0 && c.at > 0),
        "frequency changed",
    );
    ctx.class_if(ch.iter().any(|c| c.idx == 1), "phase offset");
    ctx.nontrivial_if(cycles > 0.5);
    Ok(())
}
pub fn f64_of(v: ParameterValue) -> f64 {
    match v {
        ParameterValue::Float(f) => f,
        _ => unreachable!(),
    }
}
fn usize_of(v: ParameterValue) -> usize {
    match v {
        ParameterValue::Integer(i) => i.0,
        _ => unreachable!(),
    }
}
pub fn sines(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        sine::<f64>(src, ctx)
    } else {
        sine::<f32>(src, ctx)
    }
}

/// A waveform: its value at a phase, and where it jumps (by how much) and bends (by how much its
/// slope changes).
struct Naive {
    y: Box<dyn Fn(f64) -> f64>,
    jumps: Vec<(f64, f64)>,
    bends: Vec<(f64, f64)>,
}
fn tri(t: f64) -> f64 {
    if t < 0.25 {
        4. * t
    } else if t < 0.75 {
        2. - 4. * t
    } else {
        4. * t - 4.
    }
}
fn naive(w: usize, pw: f64) -> Naive {
    let sq = |x: f64| if frac(x) < 0.5 { 1. } else { -1. };
    let n = |y: Box<dyn Fn(f64) -> f64>, jumps: &[(f64, f64)], bends: &[(f64, f64)]| Naive {
        y,
        jumps: jumps.to_vec(),
        bends: bends.to_vec(),
    };
    match w {
        // Sawtooth, rising through 0 at phase 0
        0 => n(Box::new(|t| 2. * frac(t + 0.5) - 1.), &[(0.5, -2.)], &[]),
        1 => n(Box::new(|t| (TAU * t).sin()), &[], &[]),
        2 => n(Box::new(|t| (TAU * t).cos()), &[], &[]),
        3 => n(Box::new(tri), &[], &[(0.25, -8.), (0.75, 8.)]),
        4 => n(Box::new(sq), &[(0., 2.), (0.5, -2.)], &[]),
        // Rectangle without DC
        5 => n(
            Box::new(move |t| if t < pw { 2. - 2. * pw } else { -2. * pw }),
            &[(0., 2.), (pw, -2.)],
            &[],
        ),
        6 => n(Box::new(|t| 1. - 2. * t), &[(0., 2.)], &[]),
        7 => {
            let pw = pw.clamp(0.0001, 0.9999);
            let s = 2. / pw + 2. / (1. - pw);
            n(
                Box::new(move |t| {
                    // rises for pw, centered on phase 0, and falls for the rest
                    let d = frac(t + 0.5) - 0.5;
                    if d.abs() <= pw / 2. {
                        d / (pw / 2.)
                    } else {
                        let d = frac(t) - 0.5;
                        -d / ((1. - pw) / 2.)
                    }
                }),
                &[],
                &[(0.5 * pw, -s), (1. - 0.5 * pw, s)],
            )
        }
        8 => {
            // two square waves, apart by half of what the pulse width is less than 1
            let a = 0.875 + 0.25 * (pw - 0.5);
            let b = a + 0.5 * (1. - pw);
            n(
                Box::new(move |t| 0.5 * (sq(t + a) + sq(t + b))),
                &[(-a, 1.), (0.5 - a, -1.), (-b, 1.), (0.5 - b, -1.)],
                &[],
            )
        }
        9 => n(
            Box::new(|t| (if t < 0.5 { 2. * (TAU * t).sin() } else { 0. }) - 2. / PI),
            &[],
            &[(0., 4. * PI), (0.5, 4. * PI)],
        ),
        10 => n(
            Box::new(|t| 2. * (PI * frac(t + 0.25)).sin() - 4. / PI),
            &[],
            &[(0.75, 4. * PI)],
        ),
        11 => {
            // A triangular pulse centered on a quarter of the period, without DC
            let a = 0.25 - 0.5 * pw;
            n(
                Box::new(move |t| {
                    let d = (frac(t - 0.25 + 0.5) - 0.5).abs();
                    (2. * (1. - d / (0.5 * pw))).max(0.) - pw
                }),
                &[],
                &[(a, 4. / pw), (0.25, -8. / pw), (0.25 + 0.5 * pw, 4. / pw)],
            )
        }
        12 | 13 => {
            let pw = if w == 12 { 0.5 } else { pw.min(0.9999) };
            let k = 1. / (1. - pw);
            let c = (1. - pw) / 4.;
            n(
                Box::new(move |t| (k * tri(t)).clamp(-1., 1.)),
                &[],
                &[
                    (c, -4. * k),
                    (0.5 - c, -4. * k),
                    (0.5 + c, 4. * k),
                    (1. - c, 4. * k),
                ],
            )
        }
        _ => unreachable!(),
    }
}
/// Residual of a band limited step of height 2, `t` cycles after it.
fn step2(t: f64, dt: f64) -> f64 {
    if t < dt {
        -(1. - t / dt).powi(2)
    } else if t > 1. - dt {
        (1. - (1. - t) / dt).powi(2)
    } else {
        0.
    }
}
/// Residual of a band limited corner with a change of slope of 2 per `dt`.
fn corner2(t: f64, dt: f64) -> f64 {
    let d = t.min(1. - t);
    if d < dt {
        (1. - d / dt).powi(3) / 3.
    } else {
        0.
    }
}
fn blep_at(w: usize, pw: f64, t: f64, dt: f64) -> f64 {
    if dt >= 0.25 {
        return (TAU * t).sin();
    }
    let n = naive(w, pw);
    let mut y = (n.y)(t);
    for (p, h) in &n.jumps {
        y += h / 2. * step2(frac(t - p), dt);
    }
    for (p, s) in &n.bends {
        y += s / 2. * dt * corner2(frac(t - p), dt);
    }
    y
}
fn poly<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = rates(src);
    let s = sr as f64;
    let (bs, h, total) = blocks(src);
    let lo = if is32::<F>() { 0.01 } else { 0.0005 };
    let freq = |src: &mut Src| match src.weighted(&[6, 2]) {
        0 => src.flog(lo, 0.2499) * s,
        _ => src.f(0.2501, 0.6) * s,
    };
    let pw = |src: &mut Src| {
        if src.chance(1, 3) {
            src.pickc(&[0.5, 0.25, 0.75, 0.125])
        } else {
            src.f(0.03, 0.97)
        }
    };
    let (w, f0) = (src.idx(14), freq(src));
    let ch = chgs(src, total, 4, 3, &|src, i| match i {
        0 => fl(freq(src)),
        1 => fl(pw(src)),
        _ => int(src.idx(14)),
    });
    let sync = if src.chance(1, 4) {
        Some(src.f(-2., 2.))
    } else {
        None
    };
    let mut u = PolyBlep::<F>::new(Waveform::from(PInteger(w)), F::new(f0));
    if let Some(p) = sync {
        u.sync(F::new(p));
    }
    ctx.note(|| {
        format!("waveform {w} {f0} Hz, {sr} Hz, sync {sync:?}, {total} frames in {bs} {h:?}, changes {ch:?}")
    });
    let r = render(Box::new(u), sr, bs, total, &[], &ch, &h);
    let (mut freq, mut width, mut w) = (f0, 0.5, w);
    let mut phase = sync.unwrap_or(0.);
    let (unit, mut err) = if is32::<F>() {
        (2.5e-7, 2.5e-7)
    } else {
        (1e-15, 1e-15)
    };
    let mut k = 0;
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            match ch[k].idx {
                0 => freq = f64_of(ch[k].val),
                1 => width = f64_of(ch[k].val),
                _ => w = usize_of(ch[k].val),
            }
            k += 1;
        }
        let dt = freq / s;
        ctx.class(NAMES[if dt >= 0.25 { 14 } else { w }]);
        let y = r.out[0][n];
        let want = blep_at(w, width, frac(phase), dt);
        let slope = 20. / dt.min(width).min(1. - width) + 100.;
        let tol = err * slope + unit * 50. / width.min(1. - width);
        check!(
            (y - want).abs() <= tol,
            format!(
                "PolyBlep: wrong value of {}",
                NAMES[if dt >= 0.25 { 14 } else { w }]
            ),
            "frame {n}: {y}, expected {want} at phase {} (dt {dt}, width {width}, tolerance {tol:e})",
            frac(phase)
        );
        phase += dt;
        err += unit;
    }
    ctx.nontrivial_if(total > 10);
    Ok(())
}
const NAMES: [&str; 15] = [
    "Sawtooth",
    "Sine",
    "Cosine",
    "Triangle",
    "Square",
    "Rectangle",
    "Ramp",
    "ModifiedTriangle",
    "ModifiedSquare",
    "HalfWaveRectifiedSine",
    "FullWaveRectifiedSine",
    "TriangularPulse",
    "TrapezoidFixed",
    "TrapezoidVariable",
    "sine above a quarter of the sample rate",
];
pub fn polyblep(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(2, 3) {
        poly::<f64>(src, ctx)
    } else {
        poly::<f32>(src, ctx)
    }
}

fn noise_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = rates(src);
    let s = sr as f64;
    let (bs, h, mut total) = blocks(src);
    let h = if src.chance(1, 4) {
        total = 1200;
        How::Parts(vec![])
    } else {
        h
    };
    let kind = src.idx(4);
    let freq = |src: &mut Src| match src.weighted(&[4, 1]) {
        0 => src.flog(s / 400., s / 2.),
        _ => 0.,
    };
    let f0 = freq(src);
    // the seed of the UGen made next
    let seed = next_randomness_seed() + 1;
    let name = ["WhiteNoise", "PinkNoise", "BrownNoise", "RandomLin"][kind];
    ctx.class(name);
    let u: Box<dyn Dyn<F>> = match kind {
        0 => Box::new(WhiteNoise::<F>::new()),
        1 => Box::new(PinkNoise::<F>::new()),
        2 => Box::new(BrownNoise::<F>::new()),
        _ => {
            let early = src.chance(1, 4);
            let mut u = RandomLin::<F>::new(F::new(if early { freq(src) } else { f0 }));
            if early {
                u.freq(f0);
            }
            Box::new(u)
        }
    };
    let ch = chgs(src, total, 4, (kind == 3) as usize, &|src, _| fl(freq(src)));
    ctx.note(|| format!("{name} {f0} Hz, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}"));
    let out = render(u, sr, bs, total, &[], &ch, &h).out.remove(0);
    let round = if is32::<F>() { 1e-6 } else { 1e-12 };
    ctx.nontrivial_if(total > 10);
    if kind == 3 {
        let mut rng = fastrand::Rng::with_seed(seed * 94 + 53);
        let (mut a, mut b) = (rng.f32() as f64, rng.f32() as f64);
        let (mut freq, mut phase, mut err) = (f0, 0f64, 0f64);
        let mut k = 0;
        let mut unsure = false;
        for n in 0..total {
            while k < ch.len() && ch[k].at <= n {
                freq = f64_of(ch[k].val);
                k += 1;
            }
            let y = out[n];
            check!(
                (-1e-6..=1.000001).contains(&y),
                "RandomLin: out of range",
                "frame {n}: {y}"
            );
            let want = a + phase * (b - a);
            let tol = err + round * 10.;
            if unsure && (y - want).abs() > tol {
                // rounding decided otherwise about the end of the segment
                phase = 1.;
                let c = rng.f32() as f64;
                // it ends here instead
                let next = b;
                check!(
                    (y - (a + (b - a) * phase)).abs() <= tol * 2. || (y - next).abs() <= tol * 2.,
                    "RandomLin: wrong value",
                    "frame {n}: {y}, expected {want} or {next}"
                );
                (a, b) = (b, c);
                phase = 0.;
                err = 0.;
            } else {
                check!(
                    (y - want).abs() <= tol,
                    "RandomLin: wrong value",
                    "frame {n}: {y}, expected {want} (from {a} to {b} at {phase})"
                );
            }
            phase += freq / s;
            err += round;
            unsure = (phase - 1.).abs() < err + 1e-9;
            if unsure {
                // both are right; stop comparing values here, they are within rounding of b
                return Ok(());
            }
            if phase >= 1. {
                (a, b) = (b, rng.f32() as f64);
                phase = 0.;
                err = 0.;
                ctx.class("new random values");
            }
        }
        return Ok(());
    }
    let mut rng = fastrand::Rng::with_seed(seed);
    let mut white = || (rng.f32() * 2. - 1.) as f64;
    let (mut rows, mut brown) = ([0f64; 9], 0f64);
    for n in 0..total {
        let y = out[n];
        let (want, tol) = match kind {
            0 => (white(), 0.),
            1 => {
                // row k is renewed every 2^(k+1) frames (the last one twice as often)
                let c = (n % 256) + 1;
                let row = (0..9).rev().find(|k| c % (1 << k) == 0).unwrap();
                rows[row] = white();
                let w = white();
                (
                    (rows.iter().sum::<f64>() + w) / 10.,
                    (n as f64 + 4.) * round,
                )
            }
            _ => {
                let w = white() * 0.1;
                brown = (brown + w).clamp(-1., 1.);
                (brown, (n as f64 + 4.) * round)
            }
        };
        check!(
            (y - want).abs() <= tol && y.abs() <= 1. + round,
            format!("{name}: wrong value"),
            "frame {n}: {y}, expected {want}"
        );
    }
    Ok(())
}
pub fn noise(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        noise_t::<f64>(src, ctx)
    } else {
        noise_t::<f32>(src, ctx)
    }
}

/// Something added to a wavetable, as a function of the phase in 0..1.
type Curve = Box<dyn Fn(f64) -> f64>;
fn table_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let eps = if is32::<F>() { 3e-6 } else { 1e-7 };
    let rich = src.chance(1, 16);
    let base = src.idx(if rich { 6 } else { 7 });
    let mut log = vec![format!("base {base}")];
    let custom: Vec<f64> = {
        let (a, b) = (src.range(1, 9) as f64, src.sample());
        (0..TABLE_SIZE)
            .map(|i| b + ((i as f64 * a) % 97.) / 97.)
            .collect()
    };
    let cbuf = |v: &Vec<f64>| v.iter().map(|x| F::new(*x)).collect::<Vec<F>>();
    let mut nt = NonAaWavetable::<F>::new();
    let mut wt = None;
    macro_rules! b {
        ($f:ident) => {
            if rich {
                wt = Some(Wavetable::<F>::$f());
            } else {
                nt = NonAaWavetable::<F>::$f();
            }
        };
    }
    let c2 = custom.clone();
    let mut curve: Curve = match base {
        0 => {
            b!(sine);
            Box::new(|x| (TAU * x).sin())
        }
        1 => {
            b!(cosine);
            Box::new(|x| (TAU * x).cos())
        }
        2 => {
            b!(aliasing_saw);
            Box::new(|x| 2. * x - 1.)
        }
        3 => {
            b!(hann_window);
            Box::new(|x| (PI * x).sin().powi(2))
        }
        4 => {
            b!(hamming_window);
            Box::new(|x| 0.53836 - 0.46164 * (TAU * x).cos())
        }
        5 => {
            b!(sine_window);
            Box::new(|x| (PI * x).sin())
        }
        _ => {
            nt.set_from_buffer(cbuf(&custom));
            Box::new(move |x| c2[(x * TABLE_SIZE as f64).round() as usize % TABLE_SIZE])
        }
    };
    // harmonics added, which may be missing from the tables for high frequencies
    let mut adds: Vec<(f64, Curve)> = vec![];
    for _ in 0..src.range(0, 3) {
        match src.idx(4) {
            0 => {
                let v = src.sample();
                log.push(format!("fill {v}"));
                match &mut wt {
                    Some(w) => w.fill(F::new(v)),
                    None => nt.fill(F::new(v)),
                }
                curve = Box::new(move |_| v);
                adds.clear();
            }
            1 => {
                let m = src.f(-2., 2.);
                log.push(format!("multiply {m}"));
                match &mut wt {
                    Some(w) => w.multiply(F::new(m)),
                    None => nt.multiply(F::new(m)),
                }
                let c = curve;
                curve = Box::new(move |x| c(x) * m);
                adds = adds
                    .into_iter()
                    .map(|(h, c)| (h, Box::new(move |x| c(x) * m) as Curve))
                    .collect();
            }
            _ => {
                let h = if src.chance(3, 4) {
                    src.flog(1., 500.).round()
                } else {
                    src.f(0.5, 20.)
                };
                let (a, p) = (src.sample(), src.f(-PI, PI));
                log.push(format!("add_sine {h} {a} {p}"));
                match &mut wt {
                    Some(w) => w.add_sine(h, a, p),
                    None => nt.add_sine(h, a, p),
                }
                adds.push((h, Box::new(move |x| a * (TAU * h * x + p).sin())));
                ctx.class("harmonics added");
            }
        }
    }
    ctx.note(|| {
        format!(
            "{} {log:?}",
            if rich { "Wavetable" } else { "NonAaWavetable" }
        )
    });
    ctx.class(if rich { "Wavetable" } else { "NonAaWavetable" });
    ctx.nontrivial_if(log.len() > 1);
    for _ in 0..12 {
        let ph = if src.chance(1, 8) {
            src.pickc(&[0, u32::MAX, (1 << 30) - 1, 1 << 30, 1 << 16])
        } else {
            src.u64() as u32
        };
        let phase = WavetablePhase(ph);
        let f = src.flog(1., 20000.);
        let i = ((ph % (1 << 30)) >> 16) as usize;
        let fr = (ph & 0xffff) as f64 / 65535.;
        let at = |i: usize| i as f64 / TABLE_SIZE as f64;
        let (x, xn) = (at(i), at((i + 1) % TABLE_SIZE));
        // harmonics which must be there, and those which may
        let mut must = (curve(x), curve(xn));
        let mut may = (0., 0.);
        for (h, c) in &adds {
            if !rich || (h.ceil() * f * 1.51 < 20000. && h.ceil() * 32. * 1.01 < 20000.) {
                must.0 += c(x);
                must.1 += c(xn);
            } else if h * f > 20000. * 1.01 {
                ctx.class("harmonic above 20 kHz");
            } else {
                may.0 += c(x).abs();
                may.1 += c(xn).abs();
            }
        }
        let (g, l) = match &wt {
            Some(w) => (
                w.get(phase, F::new(f)),
                w.get_linear_interp(phase, F::new(f)),
            ),
            None => (nt.get(phase), nt.get_linear_interp(phase)),
        };
        let (g, l) = (Float::to_f64(g), Float::to_f64(l));
        check!(
            (g - must.0).abs() <= eps + may.0 * 1.001,
            "wavetable: wrong sample",
            "{log:?}: phase {ph} frequency {f}: {g}, expected {} (+- {})",
            must.0,
            may.0
        );
        let want = must.0 + (must.1 - must.0) * fr;
        check!(
            (l - want).abs() <= eps * 2. + 1e-7 * (must.1 - must.0).abs() + (may.0 + may.1) * 1.001,
            "wavetable: wrong interpolation",
            "{log:?}: phase {ph} frequency {f}: {l}, expected {want} (+- {})",
            may.0 + may.1
        );
        check!(
            phase.integer_component() == i && phase.fractional_component() == (ph & 0xffff),
            "wavetable: wrong phase",
            "phase {ph}"
        );
    }
    if rich {
        let mut w = wt.unwrap();
        let n = src.range(1, 20000);
        let r = Wavetable::<F>::from_buffer(vec![F::ZERO; n]).is_ok();
        check!(
            r == (n == TABLE_SIZE),
            "wavetable: wrong length accepted",
            "{n} samples: {r}"
        );
        let c = Wavetable::<F>::from_closure(|b| {
            for (o, v) in b.iter_mut().zip(&custom) {
                *o = F::new(*v)
            }
        });
        let i = src.idx(TABLE_SIZE);
        let v = Float::to_f64(c.get(
            WavetablePhase((i as u32) << 16),
            F::new(src.flog(1., 20000.)),
        ));
        check!(
            (v - custom[i]).abs() < eps,
            "wavetable: from_closure",
            "sample {i}: {v}, expected {}",
            custom[i]
        );
        let peak = |w: &Wavetable<F>| {
            (0..TABLE_SIZE)
                .map(|i| Float::to_f64(w.get(WavetablePhase((i as u32) << 16), F::ONE)).abs())
                .fold(0., f64::max)
        };
        let p0 = peak(&w);
        if p0 > 1e-3 {
            let (ph, f) = (
                WavetablePhase(src.u64() as u32),
                F::new(src.flog(1., 20000.)),
            );
            let before = Float::to_f64(w.get(ph, f));
            w.normalize();
            let (p1, after) = (peak(&w), Float::to_f64(w.get(ph, f)));
            check!(
                (p1 - 1.).abs() < 1e-5 && (after - before / p0).abs() < 1e-4 * (1. + after.abs()),
                "wavetable: normalize",
                "peak {p0} became {p1}, a sample of {before} became {after}"
            );
        }
    } else {
        // keeps what is within +-1 within +-1, and has the chance given of changing a sample
        let mut w = NonAaWavetable::<F>::sine();
        let prob = src.pickc(&[0.5, 0., 1., 0.9]);
        w.add_noise(prob, src.u64() as u32);
        let mut changed = 0;
        for i in 0..TABLE_SIZE {
            let v = Float::to_f64(w.get(WavetablePhase((i as u32) << 16)));
            check!(
                v.abs() <= 1.0,
                "wavetable: noise out of range",
                "sample {i}: {v}"
            );
            changed += ((v - (TAU * at_(i)).sin()).abs() > 1e-6) as usize;
        }
        let part = changed as f64 / TABLE_SIZE as f64;
        check!(
            (part - (1. - prob)).abs() < 0.05,
            "wavetable: noise probability",
            "{part} of all samples changed for {prob}"
        );
    }
    Ok(())
}
fn at_(i: usize) -> f64 {
    i as f64 / TABLE_SIZE as f64
}
pub fn wavetable(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        table_t::<f64>(src, ctx)
    } else {
        table_t::<f32>(src, ctx)
    }
}
pub fn xorshift(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = if src.chance(1, 8) {
        0
    } else {
        src.u64() as u32
    };
    let (mut a, mut b) = (XOrShift32Rng::new(seed), XOrShift32Rng::new(seed));
    let mut c = XOrShift32Rng::default();
    let mut s = if seed == 0 { 17u32 } else { seed };
    ctx.note(|| format!("seed {seed}"));
    ctx.nontrivial_if(seed != 0);
    for n in 0..20 {
        // Marsaglia's xorshift32
        s ^= s << 13;
        s ^= s >> 17;
        s ^= s << 5;
        let x = a.gen_u32();
        check!(
            x == s,
            "xorshift: wrong number",
            "number {n}: {x}, expected {s}"
        );
        check!(
            seed != 0 || c.gen_u32() == x,
            "xorshift: seed 0",
            "number {n} for seed 0 is not that of the default"
        );
        let y = if n % 2 == 0 {
            b.gen_f32() as f64
        } else {
            b.gen_f64()
        };
        check!(
            (y - s as f64 / u32::MAX as f64).abs() < 1e-6 && (0. ..=1.).contains(&y),
            "xorshift: wrong float",
            "number {n}: {y}"
        );
    }
    Ok(())
}
