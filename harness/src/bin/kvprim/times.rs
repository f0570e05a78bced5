//! Seconds and Beats against exact integer arithmetic on tesimals.
use knaster_core::*;
use kv::*;
use std::time::Duration;

const S: u64 = SUBSECOND_TESIMALS_PER_SECOND as u64;
const B: u64 = SUBBEAT_TESIMALS_PER_BEAT as u64;

/// (whole, tesimals) with plenty of edges
fn gen_parts(src: &mut Src, per: u64, max: u64) -> (u64, u64) {
    let w = match src.below(6) {
        0 => 0,
        1 => 1,
        2 => src.below(10),
        3 => src.below(max.min(100_000)),
        4 => src.below(max),
        _ => max - 1 - src.below(3).min(max - 1),
    };
    let t = match src.below(6) {
        0 => 0,
        1 => per / 2,
        2 => per - 1,
        3 => 1,
        4 => per / src.range(2, 1000) as u64,
        _ => src.below(per),
    };
    (w, t)
}
fn total(s: Seconds) -> u128 {
    s.to_subsample_tesimals_u64() as u128
}
/// A value a user could have, built in different ways.
fn gen_s(src: &mut Src, max: u64) -> (Seconds, u128) {
    let (w, t) = gen_parts(src, S, max);
    let n = w as u128 * S as u128 + t as u128;
    let s = match src.below(2) {
        0 => Seconds::new(w as u32, t as u32),
        _ => Seconds::from_subsample_tesimals_u64(n as u64),
    };
    (s, n)
}
fn same(what: &str, got: Seconds, want: u128) -> Res {
    check!(total(got) == want, format!("seconds: {what}"), "{got:?} is {} tesimals, expected {want}", total(got));
    check!(got == Seconds::new((want / S as u128) as u32, (want % S as u128) as u32), format!("seconds: {what} is not normalised"), "{got:?}, expected {want} tesimals");
    Ok(())
}
fn near(what: &str, got: Seconds, want: f64, tol: f64) -> Res {
    let t = total(got) as f64;
    check!((t - want).abs() <= tol && got.checked_sub(Seconds::ZERO) == Some(got), format!("seconds: {what}"), "{got:?} is {t} tesimals, expected {want} +- {tol}");
    same(what, got, total(got))
}

pub fn seconds(src: &mut Src, ctx: &mut Ctx) -> Res {
    let half = 1u64 << 31;
    let (a, na) = gen_s(src, half);
    let (b, nb) = if src.chance(1, 6) { (a, na) } else { gen_s(src, half) };
    ctx.note(|| format!("{a:?} ({na} tesimals), {b:?} ({nb})"));
    ctx.nontrivial_if(na % S as u128 != 0 || nb % S as u128 != 0);
    same("from tesimals", a, na)?;
    check!(a.cmp(&b) == na.cmp(&nb) && a.partial_cmp(&b) == Some(na.cmp(&nb)) && (a == b) == (na == nb), "seconds: ordering", "{a:?} and {b:?}");
    same("addition", a + b, na + nb)?;
    let mut c = a;
    c += b;
    same("addition in place", c, na + nb)?;
    match a.checked_sub(b) {
        Some(d) => {
            check!(na >= nb, "seconds: checked subtraction", "{a:?} - {b:?} = {d:?}");
            same("checked subtraction", d, na - nb)?;
        }
        None => check!(na < nb, "seconds: checked subtraction", "{a:?} - {b:?} = None"),
    }
    same("saturating subtraction", a.saturating_sub(b), na.saturating_sub(nb))?;
    same("zero", Seconds::ZERO, 0)?;
    // f64 conversions: one tesimal, and what an f64 of that size can express
    let f = na as f64 / S as f64;
    let ulp = na as f64 * f64::EPSILON;
    let secs = a.to_secs_f64();
    check!((secs - f).abs() <= f * 2.0 * f64::EPSILON, "seconds: to f64", "{a:?} gives {secs}, expected {f}");
    near("from f64", Seconds::from_secs_f64(secs), na as f64, 2.0 + 2.0 * ulp)?;
    let x = match src.below(3) {
        0 => src.below(1 << 20) as f64 / 1024.0,
        1 => src.flog(1e-9, 1e6),
        _ => src.f(0.0, 100.0),
    };
    let (sx, loss) = Seconds::from_secs_f64_return_precision_loss(x);
    near("from f64", sx, x * S as f64, 1.0 + 2.0 * x * S as f64 * f64::EPSILON)?;
    check!((sx.to_secs_f64() + loss - x).abs() <= x * f64::EPSILON && loss.abs() <= 1.5 / S as f64 + x * 2.0 * f64::EPSILON, "seconds: precision loss", "{x} is stored as {sx:?} with a loss of {loss}");
    // durations
    let d = Duration::new(src.below(half), match src.below(4) { 0 => 0, 1 => 999_999_999, 2 => 500_000_000, _ => src.below(1_000_000_000) as u32 });
    let exact = d.as_nanos() * S as u128;
    let got = total(Seconds::from(d)) * 1_000_000_000;
    check!(got.abs_diff(exact) <= 1_000_000_000, "seconds: from a Duration", "{d:?} gives {:?}", Seconds::from(d));
    same("from a Duration", Seconds::from(d), total(Seconds::from(d)))?;
    // multiplication
    let (p, np) = gen_s(src, 1 << 15);
    let (q, nq) = gen_s(src, 1 << 15);
    let want = np * nq / S as u128;
    let tol = 1.0 + want as f64 * 4.0 * f64::EPSILON;
    near("product", p * q, want as f64, tol)?;
    let mut r = p;
    r *= q;
    near("product in place", r, want as f64, tol)?;
    let k = match src.below(4) {
        0 => src.below(8) as f64,
        1 => 1.0 / src.range(1, 64) as f64,
        _ => src.f(0.0, 1000.0),
    };
    ctx.note(|| format!("{p:?} * {q:?}, * {k}"));
    let want = np as f64 * k;
    let tol = 1.0 + want * 8.0 * f64::EPSILON;
    near("scaled", p * k, want, tol)?;
    near("scaled", k * p, want, tol)?;
    let mut r = p;
    r *= k;
    near("scaled in place", r, want, tol)?;
    let k32 = k as f32;
    let want = np as f64 * k32 as f64;
    let tol = 1.0 + want * 8.0 * f64::EPSILON;
    near("scaled by f32", p * k32, want, tol)?;
    near("scaled by f32", k32 * p, want, tol)?;
    let mut r = p;
    r *= k32;
    near("scaled by f32 in place", r, want, tol)
}

const RATES: [u64; 13] = [44100, 48000, 88200, 96000, 176400, 192000, 8000, 11025, 16000, 22050, 24000, 32000, 64000];
pub fn samples(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&RATES);
    let secs = src.pickc(&[2u64, 100, 100_000, 1 << 31]);
    let n = match src.below(4) {
        0 => src.below(4 * sr),
        1 => sr * src.below(secs),
        2 => (sr * (1 + src.below(secs))) - 1,
        _ => src.below(sr * secs),
    };
    ctx.note(|| format!("{n} frames at {sr}"));
    ctx.nontrivial_if(n % sr != 0);
    let s = Seconds::from_samples(n, sr);
    // common rates divide the tesimals of a second: nothing is lost
    same("from samples", s, n as u128 * S as u128 / sr as u128)?;
    check!(s.to_samples(sr) == n, "samples do not come back", "{n} at {sr}: {s:?} is {} samples", s.to_samples(sr));
    let f = s.to_samples_f64(sr as f64);
    check!((f - n as f64).abs() <= n as f64 * 8.0 * f64::EPSILON + 1e-9, "fractional samples", "{n} at {sr}: {f}");
    // at any other rate: the number of whole frames that fit
    let odd = match src.below(3) {
        0 => src.pickc(&RATES),
        1 => src.range(1, 400_000) as u64,
        _ => src.range(7000, 50_000) as u64,
    };
    let (a, na) = gen_s(src, 1 << 31);
    let want = na * odd as u128 / S as u128;
    let got = a.to_samples(odd);
    check!(got as u128 == want, "to samples", "{a:?} at {odd} is {got} frames, expected {want}");
    let f = a.to_samples_f64(odd as f64);
    let wf = na as f64 * odd as f64 / S as f64;
    check!((f - wf).abs() <= wf * 8.0 * f64::EPSILON + 1e-9, "fractional samples", "{a:?} at {odd}: {f}, expected {wf}");
    let m = src.below(odd * 5000);
    let t = Seconds::from_samples(m, odd);
    let exact = m as u128 * S as u128;
    let back = total(t) * odd as u128;
    check!(back <= exact && exact - back < odd as u128, "from samples", "{m} at {odd}: {t:?}");
    same("from samples", t, total(t))?;
    let n2 = src.below(sr * secs);
    check!(n.cmp(&n2) == s.cmp(&Seconds::from_samples(n2, sr)), "order of times differs from order of samples", "{n} and {n2} at {sr}");
    Ok(())
}

fn bsame(what: &str, got: Beats, want: u128) -> Res {
    check!(got == Beats::new((want / B as u128) as u32, (want % B as u128) as u32), format!("beats: {what}"), "{got:?}, expected {want} tesimals");
    Ok(())
}
fn bnear(what: &str, got: Beats, want: f64, tol: f64) -> Res {
    // between the two values at the edges of the tolerance
    let lo = (want - tol).floor().max(0.0) as u128;
    let hi = (want + tol).ceil() as u128;
    let v = |n: u128| Beats::new((n / B as u128) as u32, (n % B as u128) as u32);
    check!(got >= v(lo) && got <= v(hi), format!("beats: {what}"), "{got:?}, expected {want} tesimals +- {tol}");
    Ok(())
}
pub fn beats(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = |src: &mut Src, max: u64| -> (Beats, u128) {
        let (w, t) = gen_parts(src, B, max);
        (Beats::new(w as u32, t as u32), w as u128 * B as u128 + t as u128)
    };
    let (a, na) = g(src, 1 << 31);
    let (b, nb) = if src.chance(1, 6) { (a, na) } else { g(src, 1 << 31) };
    ctx.note(|| format!("{a:?}, {b:?}"));
    ctx.nontrivial_if(na % B as u128 != 0 || nb % B as u128 != 0);
    check!(a.cmp(&b) == na.cmp(&nb) && a.partial_cmp(&b) == Some(na.cmp(&nb)) && (a == b) == (na == nb), "beats: ordering", "{a:?} and {b:?}");
    bsame("addition", a + b, na + nb)?;
    let mut c = a;
    c += b;
    bsame("addition in place", c, na + nb)?;
    match a.checked_sub(b) {
        Some(d) => {
            check!(na >= nb, "beats: checked subtraction", "{a:?} - {b:?} = {d:?}");
            bsame("checked subtraction", d, na - nb)?;
        }
        None => check!(na < nb, "beats: checked subtraction", "{a:?} - {b:?} = None"),
    }
    bsame("saturating subtraction", a.saturating_sub(b), na.saturating_sub(nb))?;
    let list: Vec<(Beats, u128)> = (0..src.below(6)).map(|_| g(src, 1 << 20)).collect();
    bsame("sum", list.iter().map(|x| x.0).sum(), list.iter().map(|x| x.1).sum())?;
    let w = src.below(1 << 32) as u32;
    bsame("whole beats", Beats::from_beats(w), w as u128 * B as u128)?;
    // the documented exact fractions
    macro_rules! frac {
        ($($n:literal),*) => {
            match src.idx(20) {
                $(x if x == [2u32,3,4,5,6,7,8,9,10,12,14,15,16,18,20,24,32,64,128,256][..].iter().position(|y| *y == $n).unwrap() => {
                    let k = src.below($n) as u32;
                    bsame(concat!("fraction of ", $n), Beats::from_fractional_beats::<$n>(w, k), w as u128 * B as u128 + B as u128 * k as u128 / $n)?;
                    check!(B as u128 * k as u128 % $n == 0, "beats: fraction is not exact", "{} / {}", k, $n);
                })*
                _ => unreachable!(),
            }
        };
    }
    frac!(2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 24, 32, 64, 128, 256);
    let k = src.below(512) as u32;
    bsame("fraction of 512", Beats::from_fractional_beats::<512>(w, k), w as u128 * B as u128 + B as u128 * k as u128 / 512)?;
    let k = src.below(1920) as u32;
    bsame("fraction of 1920", Beats::from_fractional_beats::<1920>(w, k), w as u128 * B as u128 + B as u128 * k as u128 / 1920)?;
    // floats
    let f = na as f64 / B as f64;
    check!((a.as_beats_f64() - f).abs() <= f * 2.0 * f64::EPSILON, "beats: to f64", "{a:?} gives {}, expected {f}", a.as_beats_f64());
    check!((a.as_beats_f32() as f64 - f).abs() <= f * 2.0 * f32::EPSILON as f64 + 1e-12, "beats: to f32", "{a:?} gives {}, expected {f}", a.as_beats_f32());
    let tol = |n: f64, e: f64| 1.5 + n * 6.0 * e;
    bnear("from f64", Beats::from_beats_f64(a.as_beats_f64()), na as f64, tol(na as f64, f64::EPSILON))?;
    bnear("from f64", Beats::from(a.as_beats_f64()), na as f64, tol(na as f64, f64::EPSILON))?;
    bnear("from f32", Beats::from_beats_f32(a.as_beats_f32()), na as f64, tol(na as f64, f32::EPSILON as f64) + 64.0)?;
    bnear("from f32", Beats::from(a.as_beats_f32()), na as f64, tol(na as f64, f32::EPSILON as f64) + 64.0)?;
    // products
    let (p, np) = g(src, 1 << 15);
    let (q, nq) = g(src, 1 << 15);
    ctx.note(|| format!("{p:?} * {q:?}"));
    let want = np as f64 * nq as f64 / B as f64;
    bnear("product", p * q, want, tol(want, f64::EPSILON))?;
    let mut r = p;
    r *= q;
    bnear("product in place", r, want, tol(want, f64::EPSILON))?;
    let k = if src.bool() { src.below(9) as f64 } else { src.f(0.0, 1000.0) };
    let want = np as f64 * k;
    bnear("scaled", p * k, want, tol(want, f64::EPSILON))?;
    let mut r = p;
    r *= k;
    bnear("scaled in place", r, want, tol(want, f64::EPSILON))?;
    let want = np as f64 * k as f32 as f64;
    bnear("scaled by f32", p * k as f32, want, tol(want, f32::EPSILON as f64) + 256.0 * (1.0 + k))?;
    let mut r = p;
    r *= k as f32;
    bnear("scaled by f32 in place", r, want, tol(want, f32::EPSILON as f64) + 256.0 * (1.0 + k))?;
    let k = src.below(200);
    let want = np as f64 * k as f64;
    bnear("times u8", p * k as u8, want, tol(want, f64::EPSILON))?;
    bnear("times u16", p * k as u16, want, tol(want, f64::EPSILON))?;
    bnear("times u32", p * k as u32, want, tol(want, f64::EPSILON))?;
    bnear("times u64", p * k, want, tol(want, f64::EPSILON))
}
