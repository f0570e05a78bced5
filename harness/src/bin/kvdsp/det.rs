//! P11: rendering is deterministic, also for UGens which use random numbers: a process which makes
//! the same UGens in the same order gets the same samples, however they are cut into blocks.
use crate::dynu::*;

use knaster_airwindows::galactic::Galactic;
use knaster_core::*;
use knaster_core_dsp::noise::*;
use kv::*;
use std::process::Command;

const KINDS: [&str; 5] = [
    "WhiteNoise",
    "PinkNoise",
    "BrownNoise",
    "RandomLin",
    "Galactic",
];

/// Everything a child process needs to know, as numbers.
struct Spec {
    wide: u64,
    sr: u64,
    total: u64,
    ugens: Vec<(u64, u64)>,
}
impl Spec {
    fn enc(&self, run: u64) -> String {
        let mut v = vec![run, self.wide, self.sr, self.total];
        v.extend(self.ugens.iter().flat_map(|u| [u.0, u.1]));
        v.iter()
            .map(|x| x.to_string())
            .collect::<Vec<_>>()
            .join(" ")
    }
    fn dec(s: &str) -> (u64, Spec) {
        let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
        let ugens = v[4..].chunks(2).map(|c| (c[0], c[1])).collect();
        (
            v[0],
            Spec {
                wide: v[1],
                sr: v[2],
                total: v[3],
                ugens,
            },
        )
    }
}
fn make<F: Float>(kind: u64, seed: u64, sr: u32) -> (Box<dyn Dyn<F>>, usize) {
    let mut src = Src::random(seed);
    let mut one = || F::new(src.f(0., 1.));
    match kind {
        0 => (Box::new(WhiteNoise::<F>::new()), 0),
        1 => (Box::new(PinkNoise::<F>::new()), 0),
        2 => (Box::new(BrownNoise::<F>::new()), 0),
        3 => {
            let f = one() * F::new(sr as f64 / 8.);
            (Box::new(RandomLin::<F>::new(f)), 0)
        }
        _ => (
            Box::new(Galactic::<F>::new(one(), one(), one(), one(), one())),
            2,
        ),
    }
}
fn go<F: Float>(run: u64, sp: &Spec) {
    let sr = sp.sr as u32;
    let total = sp.total as usize;
    // All of them are made before any of them is run
    let us: Vec<_> = sp.ugens.iter().map(|u| make::<F>(u.0, u.1, sr)).collect();
    for ((u, ni), (kind, seed)) in us.into_iter().zip(&sp.ugens) {
        let mut src = Src::random(seed ^ 0x5555);
        let input: Vec<Vec<F>> = (0..ni).map(|_| signal(&mut src, total)).collect();
        let np = u.dims().2;
        let g = |src: &mut Src, _: usize| {
            if *kind == 3 {
                ParameterValue::Float(src.f(0., sr as f64 / 8.))
            } else {
                ParameterValue::Float(src.f(0., 1.))
            }
        };
        let ch = chgs(&mut src, total, 5, np, &g);
        // How it is run is different from run to run, everything above is not
        let mut src = Src::random(kv::src::mix(seed.wrapping_add(run << 32)));
        let bs = src.pickc(&[16usize, 1, 2, 32, 64, 100, 128, 512]);
        let h = how(&mut src, total);
        let r = render(u, sr, bs, total, &input, &ch, &h);
        for o in r.out {
            let s: Vec<String> = o.iter().map(|v| format!("{:x}", v.to_bits())).collect();
            println!("{}", s.join(" "));
        }
    }
}
/// Runs in a child process of the harness.
pub fn child(spec: &str) {
    let (run, sp) = Spec::dec(spec);
    if sp.wide == 1 {
        go::<f64>(run, &sp)
    } else {
        go::<f32>(run, &sp)
    }
}
pub fn determinism(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sp = Spec {
        wide: src.below(2),
        sr: src.pickc(&[44100, 1000, 48000, 96000]),
        total: src.pickc(&[200, 20, 700, 2500]),
        ugens: (0..src.range(1, 6))
            .map(|_| (src.below(5), src.u64() >> 1))
            .collect(),
    };
    for u in &sp.ugens {
        ctx.class(KINDS[u.0 as usize]);
    }
    ctx.note(|| {
        let k: Vec<_> = sp.ugens.iter().map(|u| KINDS[u.0 as usize]).collect();
        format!(
            "{k:?} at {} Hz, {} frames, in two processes",
            sp.sr, sp.total
        )
    });
    let run = |n: u64| {
        let o = Command::new(std::env::current_exe().unwrap())
            .env("KV_DET", sp.enc(n))
            .output()
            .expect("child process");
        (
            o.status.success(),
            String::from_utf8_lossy(&o.stdout).to_string(),
            o.stderr,
        )
    };
    let (a, b) = (run(0), run(src.range(1, 1000) as u64));
    for r in [&a, &b] {
        check!(
            r.0,
            "a UGen using randomness panics",
            "{}",
            String::from_utf8_lossy(&r.2)
                .lines()
                .take(4)
                .collect::<Vec<_>>()
                .join("\n")
        );
    }
    let names: Vec<_> = sp
        .ugens
        .iter()
        .flat_map(|u| vec![KINDS[u.0 as usize]; if u.0 == 4 { 2 } else { 1 }])
        .collect();
    let (la, lb): (Vec<_>, Vec<_>) = (a.1.lines().collect(), b.1.lines().collect());
    assert!(la.len() == names.len() && lb.len() == names.len());
    let mut moving = true;
    for ((x, y), name) in la.iter().zip(&lb).zip(&names) {
        for (f, (p, q)) in x.split(' ').zip(y.split(' ')).enumerate() {
            check!(
                p == q,
                format!("{name}: not deterministic"),
                "frame {f} differs between two processes: bits {p} and {q}"
            );
        }
        let first = x.split(' ').next();
        moving &= x.split(' ').any(|v| Some(v) != first);
    }
    ctx.nontrivial_if(moving && names.len() > 1);
    Ok(())
}
