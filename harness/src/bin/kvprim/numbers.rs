//! Sample number types and the pseudo random number generator.
use knaster_core::Float;
use knaster_core_dsp::dsp::xorrng::XOrShift32Rng;
use kv::*;

fn bits(src: &mut Src) -> f64 {
    match src.below(8) {
        0 => f64::from_bits(src.below(u64::MAX)),
        1 => f32::from_bits(src.below(1 << 32) as u32) as f64,
        2 => src.below(1 << 53) as f64 * if src.bool() { -1.0 } else { 1.0 },
        3 => src.pickc(&[0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f32::MAX as f64 * 1.0000001, 1e-40, 5e-324]),
        4 => src.f(-1.0, 1.0),
        5 => src.f(-1e5, 1e5),
        6 => src.f(-20.0, 20.0).exp2(),
        _ => src.f(-1020.0, 1020.0).exp2(),
    }
}
fn same64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn same32(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Code that is generic over the sample type, as UGens are.
fn generic<F: Float>(v: f64, w: f32, n: usize) -> [F; 7] {
    [F::new(v), F::new(w), <F as Float>::from_usize(n), F::ZERO, F::ONE, F::PI, F::TAU]
}
fn back<F: Float>(v: F) -> (f32, f64) {
    (v.to_f32(), v.to_f64())
}
pub fn convert(src: &mut Src, ctx: &mut Ctx) -> Res {
    let v = bits(src);
    let w = bits(src) as f32;
    let n = match src.below(4) {
        0 => src.idx(10),
        1 => src.below(1 << 24) as usize,
        2 => (1usize << src.range(20, 63)) + src.idx(5),
        _ => src.below(u64::MAX) as usize,
    };
    ctx.note(|| format!("{v:e} {w:e} {n}"));
    ctx.nontrivial_if(v.is_finite() && (v as f32) as f64 != v);
    let g = generic::<f64>(v, w, n);
    let want = [v, w as f64, n as f64, 0.0, 1.0, std::f64::consts::PI, std::f64::consts::TAU];
    for (k, (a, b)) in g.iter().zip(want).enumerate() {
        check!(same64(*a, b), "conversion to f64", "number {k}: {a:e}, expected {b:e}");
    }
    let g = generic::<f32>(v, w, n);
    let want = [v as f32, w, n as f32, 0.0, 1.0, std::f32::consts::PI, std::f32::consts::TAU];
    for (k, (a, b)) in g.iter().zip(want).enumerate() {
        check!(same32(*a, b), "conversion to f32", "number {k}: {a:e}, expected {b:e}");
    }
    let (a, b) = back(v);
    check!(same32(a, v as f32) && same64(b, v), "conversion from f64", "{v:e}: {a:e} {b:e}");
    let (a, b) = back(w);
    check!(same32(a, w) && same64(b, w as f64), "conversion from f32", "{w:e}: {a:e} {b:e}");
    // Small enough not to be heard, large enough to keep a sum with a denormal number normal.
    let d = f32::ANTI_DENORMAL;
    check!(d > 0.0 && d < 1e-9 && (d + f32::from_bits(src.below(1 << 23) as u32)).is_normal(), "anti denormal number", "{d:e}");
    let d = f64::ANTI_DENORMAL;
    check!(d > 0.0 && d < 1e-9 && (d + f64::from_bits(src.below(1 << 52))).is_normal(), "anti denormal number", "{d:e}");
    Ok(())
}
pub fn random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let seed = match src.below(4) {
        0 => 0,
        1 => src.below(100) as u32,
        2 => u32::MAX - src.below(3) as u32,
        _ => src.below(1 << 32) as u32,
    };
    let default = src.chance(1, 8);
    let mut r = if default { XOrShift32Rng::default() } else { XOrShift32Rng::new(seed) };
    let mut x = if seed == 0 || default { 17 } else { seed };
    let n = src.range(1, 60) as usize;
    let how: Vec<u64> = (0..n).map(|_| src.below(4)).collect();
    ctx.note(|| format!("seed {seed} (default {default}), calls {how:?}"));
    ctx.nontrivial_if(n > 10);
    for h in how {
        let before = r;
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        match h {
            0 => {
                let f = r.gen_f32();
                check!((0.0..=1.0).contains(&f), "random f32 range", "{f}");
                check!((f as f64 - x as f64 / u32::MAX as f64).abs() < 1e-6, "random f32", "{f}, number {x}");
            }
            1 => {
                let f = r.gen_f64();
                check!((0.0..=1.0).contains(&f) && f > 0.0, "random f64 range", "{f}");
                check!((f - x as f64 / u32::MAX as f64).abs() < 1e-12, "random f64", "{f}, number {x}");
            }
            _ => {
                let i = r.gen_u32();
                check!(i == x && i != 0, "random number", "{i}, expected {x}");
            }
        }
        if h == 3 {
            // a copy goes on by itself
            let mut copy = before;
            check!(copy.gen_u32() == x, "copy of the generator", "expected {x}");
        }
    }
    Ok(())
}
