//! P23: buffers, playing them, and sound files.
use crate::dynu::*;
use crate::osc::f64_of;
use crate::zoo::{TRIG, fl};

use knaster_core::typenum::{U1, U2, U3};
use knaster_core::*;
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::dsp::buffer::Buffer;
use kv::*;

fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
/// What a buffer holds: frames of channels.
#[derive(Clone)]
struct Data {
    frames: Vec<Vec<f64>>,
    channels: usize,
}
impl Data {
    fn random<F: Float>(src: &mut Src, frames: usize, channels: usize) -> Data {
        let frames = (0..frames)
            .map(|_| {
                (0..channels)
                    .map(|_| Float::to_f64(F::new(src.sample())))
                    .collect()
            })
            .collect();
        Data { frames, channels }
    }
    fn buffer<F: Float>(&self, rate: f64) -> Buffer<F> {
        let v: Vec<F> = self.frames.iter().flatten().map(|x| F::new(*x)).collect();
        if self.channels == 1 && self.frames.len() % 2 == 0 {
            Buffer::from_vec(v, rate)
        } else {
            Buffer::from_vec_interleaved(v, self.channels, rate)
        }
    }
    /// Linear interpolation, the last frame is followed by the first. Silence elsewhere.
    fn at(&self, p: f64, c: usize) -> f64 {
        if p < 0. || p >= self.frames.len() as f64 || c >= self.channels {
            return 0.;
        }
        let i = p.floor() as usize;
        let (a, b) = (
            self.frames[i][c],
            self.frames[(i + 1) % self.frames.len()][c],
        );
        a + (b - a) * (p - p.floor())
    }
}

#[derive(Clone, Debug)]
struct Play {
    p: f64,
    start: f64,
    dur: f64,
    end: f64,
    rate: f64,
    looping: bool,
    done: bool,
}
fn reader_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000, 96000]);
    let s = sr as f64;
    let total = src.range(1, 250);
    let bs = src.pickc(&[16, 1, 8, 64, 33, 128]);
    let h = how(src, total);
    let brate = src.pickc(&[s, s, 44100., 48000., 2. * s, 0.5 * s, 1.37 * s]);
    let (frames, channels) = (src.range(1, 60), src.range(1, 3));
    let outs = src.range(1, 3);
    let d = Data::random::<F>(src, frames, channels);
    let rate = |src: &mut Src| match src.weighted(&[3, 3, 1]) {
        0 => 1.,
        1 => src.f(0., 3.),
        _ => src.pickc(&[0., 0.5, 2., 0.25]),
    };
    // Times in frames of the buffer, not within rounding of a whole number: Seconds round down
    let time = |src: &mut Src, max: f64| match src.weighted(&[3, 2, 1]) {
        0 => src.f(0., max),
        1 => src.f(0., max).floor() + 0.01,
        _ => 0.,
    };
    let (r0, looping) = (rate(src), src.bool());
    let at = if src.bool() {
        0.
    } else {
        time(src, frames as f64)
    };
    let fr = frames as f64;
    let ch = chgs(src, total, 6, 6, &|src, i| match i {
        0 => fl(rate(src)),
        1 => ParameterValue::Bool(src.bool()),
        2 => fl(time(src, fr * 1.2) / brate),
        3 => fl(if src.chance(1, 4) {
            -src.f(0.01, 2.)
        } else {
            time(src, fr * 1.2) / brate
        }),
        4 => fl(time(src, fr * 1.2) / brate),
        _ => TRIG,
    });
    ctx.note(|| {
        format!("{frames} frames of {channels} at {brate} Hz {:?}, {outs} outputs, rate {r0}, looping {looping}, from frame {at}, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}", d.frames)
    });
    let buffer = std::sync::Arc::new(d.buffer::<F>(brate));
    macro_rules! make {
        ($n:ty) => {{
            let mut u = BufferReader::<F, $n>::new(buffer, r0, looping);
            if at > 0. {
                u = u.start_at(Seconds::from_secs_f64(at / brate));
            }
            Box::new(u) as Box<dyn Dyn<F>>
        }};
    }
    let u = match outs {
        1 => make!(U1),
        2 => make!(U2),
        _ => make!(U3),
    };
    // the last frame's done mark is on the frame after it
    let r = render(u, sr, bs, total + 1, &[], &ch, &h);
    // Times are kept as Seconds
    let slack = 3. * (brate / 282_240_000.) + 1e-9;
    let base = brate / s;
    let mut hs = vec![Play {
        p: at,
        start: at,
        dur: fr,
        end: at + fr,
        rate: r0,
        looping,
        done: false,
    }];
    let (mut k, mut loops, mut beyond) = (0, 0, false);
    let round = if is32::<F>() { 1e-6 } else { 1e-11 };
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            let c = &ch[k];
            for m in hs.iter_mut() {
                match c.idx {
                    0 => m.rate = f64_of(c.val),
                    1 => {
                        let ParameterValue::Bool(b) = c.val else {
                            unreachable!()
                        };
                        m.looping = b
                    }
                    2 => {
                        m.start = f64_of(c.val) * brate;
                        m.end = m.start + m.dur;
                    }
                    3 => {
                        let v = f64_of(c.val);
                        m.dur = if v < 0. { fr } else { v * brate };
                        m.end = m.start + m.dur;
                    }
                    4 => m.end = f64_of(c.val) * brate,
                    _ => {
                        m.p = m.start;
                        m.done = false;
                    }
                }
            }
            k += 1;
        }
        let marks = r.dones.iter().filter(|d| **d == n + 1).count();
        // Rounding may decide either way whether the end has been reached
        let mut next = vec![];
        let mut want = vec![];
        for m in &hs {
            let outs: Vec<Vec<f64>> = (0..outs)
                .map(|c| {
                    if m.done {
                        return vec![0.];
                    }
                    let mut v = vec![d.at(m.p, c)];
                    // next to a whole number either frame may be read
                    if (m.p - m.p.round()).abs() < slack {
                        v.push(d.at(m.p.round() - slack, c));
                        v.push(d.at(m.p.round(), c));
                    }
                    v
                })
                .collect();
            let fits = outs.iter().enumerate().all(|(c, v)| {
                v.iter()
                    .any(|w| (r.out[c][n] - w).abs() <= 4. * slack + round)
            });
            let mut e = m.clone();
            if !m.done {
                e.p += base * m.rate;
            }
            if !m.done && e.p < m.end + slack {
                want.push((outs.clone(), false));
                if fits && marks == 0 {
                    next.push(e.clone());
                }
            }
            if !m.done && e.p >= m.end - slack {
                want.push((outs.clone(), !m.looping));
                if fits && (marks == 1) != m.looping {
                    if m.looping {
                        e.p = m.start;
                    } else {
                        e.done = true;
                    }
                    next.push(e);
                }
            } else if m.done {
                want.push((outs, false));
                if fits && marks == 0 {
                    next.push(e);
                }
            }
        }
        let got: Vec<f64> = r.out.iter().map(|o| o[n]).collect();
        if next.is_empty() {
            let values = want.iter().any(|(o, _)| {
                o.iter()
                    .enumerate()
                    .all(|(c, v)| v.iter().any(|w| (got[c] - w).abs() <= 4. * slack + round))
            });
            bail!(
                if values {
                    "BufferReader: done at the wrong frame"
                } else {
                    "BufferReader: wrong sample"
                },
                "frame {n}: {got:?} done {marks}, expected {want:?} for {:?}",
                hs[0]
            );
        }
        if hs[0].looping && next[0].p < hs[0].p {
            loops += 1;
        }
        beyond |= !hs[0].done && hs[0].p >= fr;
        // Different ways to the same position
        next.sort_by(|a, b| a.done.cmp(&b.done).then(a.p.total_cmp(&b.p)));
        next.dedup_by(|a, b| (a.p - b.p).abs() < 1e-9 && a.done == b.done);
        hs = next;
    }
    let stray = r.dones.iter().filter(|d| **d == 0 || **d > total).count();
    check!(
        stray == 0,
        "BufferReader: done at the wrong frame",
        "done before the first frame"
    );
    ctx.class_if(loops > 0, "looped");
    ctx.class_if(!r.dones.is_empty(), "done");
    ctx.class_if(beyond, "beyond the end of the buffer");
    ctx.class_if(outs > channels, "more outputs than channels");
    ctx.nontrivial_if(total > 2);
    Ok(())
}
pub fn reader(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        reader_t::<f64>(src, ctx)
    } else {
        reader_t::<f32>(src, ctx)
    }
}

fn data_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (frames, channels) = (src.range(1, 40), src.range(1, 6));
    let rate = src.pickc(&[44100., 48000., 1000., 12345.6]);
    let d = Data::random::<F>(src, frames, channels);
    ctx.note(|| format!("{frames} frames of {channels} at {rate} Hz: {:?}", d.frames));
    ctx.class_if(channels > 1, "several channels");
    ctx.nontrivial_if(frames > 1);
    let mut b = d.buffer::<F>(rate);
    let facts = |b: &Buffer<F>, what: &str| -> Res {
        check!(
            b.num_frames() == frames as f64
                && b.num_channels() == channels
                && b.sample_rate() == rate
                && (b.length_seconds() - frames as f64 / rate).abs() < 1e-12,
            "Buffer: wrong size",
            "{what}: {} frames, {} channels, {} Hz, {} s",
            b.num_frames(),
            b.num_channels(),
            b.sample_rate(),
            b.length_seconds()
        );
        Ok(())
    };
    facts(&b, "from samples")?;
    let server = src.pickc(&[44100u32, 48000, 1000]);
    check!(
        (b.buf_rate_scale(server) - rate / server as f64).abs() < 1e-12,
        "Buffer: wrong rate",
        "{} at {server} Hz",
        b.buf_rate_scale(server)
    );
    let e = Buffer::<F>::new(frames, channels, rate);
    facts(&e, "empty")?;
    for i in 0..frames {
        check!(
            e.get_interleaved(i).iter().all(|v| *v == F::ZERO)
                && e.get_interleaved(i).len() == channels,
            "Buffer: not empty",
            "frame {i}"
        );
    }
    let tol = if is32::<F>() { 2e-6 } else { 1e-12 };
    for _ in 0..10 {
        let p = match src.weighted(&[4, 2, 1, 1]) {
            0 => src.f(0., frames as f64),
            1 => src.idx(frames) as f64,
            2 => frames as f64 + src.f(0., 100.),
            _ => -src.f(0.001, 5.),
        };
        let p = Float::to_f64(F::new(p));
        let c = src.idx(channels + 2);
        let want = d.at(p, c);
        let y = Float::to_f64(b.get_linear_interp_f64(p, c));
        check!(
            (y - want).abs() <= tol,
            "Buffer: wrong interpolation",
            "position {p} channel {c}: {y}, expected {want}"
        );
        let y = Float::to_f64(b.get_linear_interp(F::new(p), c));
        check!(
            (y - want).abs() <= tol,
            "Buffer: wrong interpolation",
            "get_linear_interp at position {p} channel {c}: {y}, expected {want}"
        );
    }
    let i = src.idx(frames);
    let got: Vec<f64> = b
        .get_interleaved(i)
        .iter()
        .map(|v| Float::to_f64(*v))
        .collect();
    check!(
        got == d.frames[i],
        "Buffer: wrong frame",
        "frame {i}: {got:?}"
    );
    b.remove_dc();
    for c in 0..channels {
        let (mut y, mut prev) = (0., 0.);
        for i in 0..frames {
            let x = d.frames[i][c];
            y = 0.999 * y + x - prev;
            prev = x;
            let got = Float::to_f64(b.get_interleaved(i)[c]);
            check!(
                (got - y).abs() <= tol * (i + 2) as f64,
                "Buffer: remove_dc",
                "frame {i} channel {c}: {got}, expected {y}"
            );
        }
    }
    Ok(())
}
pub fn data(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        data_t::<f64>(src, ctx)
    } else {
        data_t::<f32>(src, ctx)
    }
}

fn file_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let frames = match src.weighted(&[4, 1]) {
        0 => src.range(1, 60),
        _ => src.range(1000, 4000),
    };
    let channels = src.range(1, 8);
    let rate = src.pickc(&[44100., 48000., 8000., 96000., 11025.]);
    let loud = src.chance(1, 4);
    let mut d = Data::random::<F>(src, frames, channels);
    if loud {
        for f in d.frames.iter_mut().flatten() {
            *f *= 2.;
        }
    }
    ctx.note(|| {
        format!(
            "{frames} frames of {channels} at {rate} Hz: {:?}",
            &d.frames[..frames.min(20)]
        )
    });
    ctx.class_if(channels > 2, "more than two channels");
    ctx.class_if(loud, "clipped");
    ctx.class_if(frames > 60, "long");
    ctx.nontrivial_if(frames > 1);
    let dir = std::env::temp_dir().join(format!("kv-wav-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = dir.join("b.wav");
    let b = d.buffer::<F>(rate);
    let saved = b.save_to_disk(&path).map_err(|e| e.to_string());
    let loaded = saved.and_then(|_| Buffer::<F>::from_sound_file(&path).map_err(|e| e.to_string()));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    let l = match loaded {
        Ok(l) => l,
        Err(e) => bail!("sound file: not saved or loaded", "{e}"),
    };
    check!(
        l.num_frames() == frames as f64 && l.num_channels() == channels && l.sample_rate() == rate,
        "sound file: wrong size",
        "{} frames of {} at {} Hz",
        l.num_frames(),
        l.num_channels(),
        l.sample_rate()
    );
    for (i, f) in d.frames.iter().enumerate() {
        for (c, v) in f.iter().enumerate() {
            let got = Float::to_f64(l.get_interleaved(i)[c]);
            // 16 bits
            check!(
                (got - v.clamp(-1., 1.)).abs() < 2.1 / 32768.,
                "sound file: wrong sample",
                "frame {i} channel {c}: {got}, saved {v}"
            );
        }
    }
    Ok(())
}
pub fn file(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        file_t::<f64>(src, ctx)
    } else {
        file_t::<f32>(src, ctx)
    }
}

/// A wave file as bytes, and its samples: unsigned 8 bit, signed 16, 24 and 32 bit, float.
fn wav(src: &mut Src, ctx: &mut Ctx) -> (Vec<u8>, Vec<Vec<f64>>, usize, u32, usize) {
    let frames = src.range(0, 50);
    let channels = src.range(1, 8);
    let rate = src.pickc(&[44100u32, 48000, 8000, 96000, 11025]);
    let (bits, float) = src.pickc(&[(16u16, false), (8, false), (24, false), (32, false), (32, true)]);
    ctx.note(|| format!("{frames} frames of {channels} at {rate} Hz, {bits} bits, float: {float}"));
    let mut data: Vec<u8> = vec![];
    let mut want = vec![];
    for _ in 0..frames {
        let mut fr = vec![];
        for _ in 0..channels {
            let r = match src.weighted(&[4, 1, 1]) {
                0 => src.below(1 << 32) as u32,
                1 => 0x8000_0000,
                _ => 0x7fff_ffff,
            };
            let v = match (bits, float) {
                (8, _) => {
                    let b = (r >> 24) as u8;
                    data.push(b);
                    (b as f64 - 128.) / 128.
                }
                (16, _) => {
                    let b = (r >> 16) as u16 as i16;
                    data.extend(b.to_le_bytes());
                    b as f64 / 32768.
                }
                (24, _) => {
                    data.extend(&r.to_le_bytes()[1..]);
                    ((r as i32) >> 8) as f64 / 8388608.
                }
                (_, false) => {
                    data.extend(r.to_le_bytes());
                    r as i32 as f64 / 2147483648.
                }
                _ => {
                    let f = r as i32 as f32 / 2147483648.;
                    data.extend(f.to_le_bytes());
                    f as f64
                }
            };
            fr.push(v);
        }
        want.push(fr);
    }
    let block = channels * bits as usize / 8;
    let mut w: Vec<u8> = b"RIFF\0\0\0\0WAVEfmt \x10\0\0\0".to_vec();
    w.extend((if float { 3u16 } else { 1 }).to_le_bytes());
    w.extend((channels as u16).to_le_bytes());
    w.extend(rate.to_le_bytes());
    w.extend((rate * block as u32).to_le_bytes());
    w.extend((block as u16).to_le_bytes());
    w.extend(bits.to_le_bytes());
    w.extend(b"data");
    w.extend((data.len() as u32).to_le_bytes());
    let head = w.len();
    w.extend(data);
    let n = (w.len() - 8) as u32;
    w[4..8].copy_from_slice(&n.to_le_bytes());
    (w, want, channels, rate, head)
}
/// Sound files from elsewhere: loaded as they are, or, if something is wrong with them, an error
/// or what can be read; never a panic.
pub fn foreign(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut w, want, channels, rate, head) = wav(src, ctx);
    let block = (w.len() - head).checked_div(want.len()).unwrap_or(1);
    // how many frames are left as they were
    let mut good = want.len();
    let mut intact = false;
    let mut missing = false;
    match src.weighted(&[3, 3, 3, 1, 1, 1]) {
        0 => {
            intact = !want.is_empty();
            ctx.class("intact");
        }
        1 => {
            let n = src.idx(w.len());
            ctx.note(|| format!("cut after {n} bytes of {}", w.len()));
            w.truncate(n);
            good = n.saturating_sub(head) / block;
            ctx.class("cut short");
        }
        2 => {
            for _ in 0..src.range(1, 4) {
                let i = if src.chance(3, 4) { src.idx(head) } else { src.idx(w.len()) };
                let v = match src.below(4) {
                    0 => 0,
                    1 => 255,
                    2 => src.below(256) as u8,
                    _ => w[i] ^ (1 << src.below(8)),
                };
                ctx.note(|| format!("byte {i} from {} to {v}", w[i]));
                w[i] = v;
            }
            good = 0;
            ctx.class("damaged");
        }
        3 => {
            w = (0..src.idx(200)).map(|_| src.below(256) as u8).collect();
            ctx.note(|| format!("other bytes: {w:?}"));
            good = 0;
            ctx.class("not a sound file");
        }
        4 => {
            let magic: &[u8] = src.pickc(&[&b"OggS"[..], b"fLaC", b"ID3\x04", b"\xff\xfb\x90\x00", b"FORM", b"caff"]);
            w = magic.to_vec();
            w.extend((0..src.idx(300)).map(|_| src.below(256) as u8));
            ctx.note(|| format!("other bytes: {w:?}"));
            good = 0;
            ctx.class("starts like another format");
        }
        _ => {
            missing = true;
            good = 0;
            ctx.class("no such file");
        }
    }
    ctx.nontrivial_if(!want.is_empty());
    let dir = std::env::temp_dir().join(format!("kv-wav-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = dir.join(src.pickc(&["b.wav", "b", "b.mp3", "b.flac"]));
    if !missing {
        std::fs::write(&path, &w).expect("scratch file");
    }
    let loaded = guard(|| Buffer::<f64>::from_sound_file(&path).map_err(|e| e.to_string()));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    let loaded = match loaded {
        Ok(l) => l,
        // the decoder library panics on some headers (a sample rate of 0); that is not this code
        Err(f) if f.msg.contains("/symphonia") && !intact => {
            ctx.class("the decoder library panicked");
            return Ok(());
        }
        Err(f) => bail!("sound file: loading panics", "{}", f.msg),
    };
    check!(!(missing && loaded.is_ok()), "sound file: loaded without a file", "");
    if intact {
        let l = match &loaded {
            Ok(l) => l,
            Err(e) => bail!("sound file: not loaded", "{e}"),
        };
        check!(
            l.num_frames() == want.len() as f64 && l.num_channels() == channels && l.sample_rate() == rate as f64,
            "sound file: wrong size",
            "{} frames of {} at {} Hz",
            l.num_frames(),
            l.num_channels(),
            l.sample_rate()
        );
    }
    if let Ok(l) = &loaded {
        if good > 0 {
            check!(l.num_channels() == channels, "sound file: wrong size", "{} channels", l.num_channels());
            let n = l.num_frames() as usize;
            check!(n <= want.len(), "sound file: wrong size", "{n} frames");
            for i in 0..good.min(n) {
                for c in 0..channels {
                    let got = l.get_interleaved(i)[c];
                    check!((got - want[i][c]).abs() < 1e-6, "sound file: wrong sample", "frame {i} channel {c}: {got}, expected {}", want[i][c]);
                }
            }
        }
    }
    Ok(())
}
