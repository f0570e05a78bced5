//! Case engine: runs the generated cases of a property in worker processes, attributes crashes,
//! shrinks failures to a minimal choice sequence, writes replay files and evidence.
use crate::alloc;
use crate::src::{Src, hash_str, mix};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Failure {
    /// Stable name of what went wrong; failures are shrunk, deduplicated and matched against
    /// known findings by it.
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => { return Err($crate::Failure { sig: ($sig).to_string(), msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($a:tt)*) => { if !($cond) { return Err($crate::Failure { sig: ($sig).to_string(), msg: format!($($a)*) }) } };
}

#[derive(Default)]
pub struct Ctx {
    pub verbose: bool,
    pub nontrivial: bool,
    pub thorough: bool,
    classes: Vec<&'static str>,
    pub desc: String,
}
impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c);
        }
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// Describe a step of the case (only formatted when somebody will read it).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.desc.push_str(&s);
            self.desc.push('\n');
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Res;
#[derive(Clone)]
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}
pub fn part(name: &'static str, quick: u64, run: CaseFn) -> Part {
    Part { name, quick, thorough: quick * 12, run }
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}
fn normalise(s: &str) -> String {
    let mut out = String::new();
    let mut in_num = false;
    for c in s.chars().take(160) {
        if c.is_ascii_digit() {
            if !in_num {
                out.push('#');
            }
            in_num = true;
        } else {
            in_num = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
    }
    out
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::not_rt(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
            let file = loc.0.rsplit('/').next().unwrap_or("").to_string();
            let sig = format!("panic:{}:{}", file, normalise(&msg));
            let full = format!("panic at {}:{}: {}", loc.0, loc.1, msg);
            let _ = LAST_PANIC.try_with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    if l.is_none() {
                        *l = Some((sig, full));
                    }
                }
            });
            if std::env::var_os("KV_PANIC").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        })
    }));
}
/// Run something that must not panic; a panic becomes a failure.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Failure> {
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let (sig, msg) = LAST_PANIC
                .with(|l| l.borrow_mut().take())
                .unwrap_or(("panic:?".into(), "panic".into()));
            Err(Failure { sig, msg })
        }
    }
}

fn run_case(p: &Part, src: &mut Src, ctx: &mut Ctx) -> Res {
    alloc::drain();
    alloc::take_errors();
    alloc::take_report();
    CASE_CPU.store(cpu_ms(), Ordering::Relaxed);
    let r = guard(|| (p.run)(src, ctx));
    alloc::drain();
    let (over, uaf) = alloc::take_errors();
    let r = match r {
        Ok(r) => r,
        Err(f) => Err(f),
    };
    if let Some(t) = alloc::take_report() {
        if !t.contains("AddressSanitizer") {
            return fail(&format!("memory:{}", t.lines().next().unwrap_or("")), t);
        }
        let kind = t.lines().find_map(|l| l.split_once("AddressSanitizer: ")).map_or("error", |x| x.1.split(' ').next().unwrap_or("error"));
        let access = t.lines().find_map(|l| ["READ", "WRITE"].into_iter().find(|a| l.starts_with(a))).unwrap_or("");
        let what: Vec<&str> = t.lines().filter(|l| !l.starts_with("=====")).take(40).collect();
        return fail(&format!("memory:{kind} {access}"), what.join("\n"));
    }
    match r {
        Ok(()) if over > 0 => fail("memory:overflow", format!("{over} heap blocks were written past their end")),
        Ok(()) if uaf > 0 => fail("memory:write-after-free", format!("{uaf} heap blocks were written after they were freed")),
        r => r,
    }
}

// ---------------------------------------------------------------------------------------------
static CASE_CPU: AtomicU64 = AtomicU64::new(0);
static CASE_DONE: AtomicBool = AtomicBool::new(false);
const CASE_CPU_LIMIT_MS: u64 = 60_000;
const EXIT_SPIN: i32 = 97;
const EXIT_STALL: i32 = 98;

fn cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
/// Ends this process at once: no handlers, no sanitizer that waits for a lock.
fn leave(code: i32) {
    unsafe { libc::syscall(libc::SYS_exit_group, code) };
}
/// Ends this process when one case has burnt a minute of CPU (it does not terminate), or nothing
/// at all has happened for four minutes (an error of the check, never a violation).
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (0u64, 0u64);
        let mut still = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if CASE_DONE.load(Ordering::Relaxed) {
                return;
            }
            let start = CASE_CPU.load(Ordering::Relaxed);
            let now = cpu_ms();
            if now > start + CASE_CPU_LIMIT_MS {
                leave(EXIT_SPIN);
            }
            let cur = (start, now / 50);
            still = if cur == last { still + 1 } else { 0 };
            last = cur;
            if still > 480 {
                leave(EXIT_STALL);
            }
        }
    });
}

fn smaller(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

/// Shrink a choice sequence that fails with `sig`, `test` says what a candidate fails with.
fn shrink(start: Vec<u64>, budget: usize, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let t0 = Instant::now();
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Vec<u64> = $c;
            if left == 0 || t0.elapsed().as_secs() > 60 {
                return best;
            }
            left -= 1;
            match test(&c) {
                // `test` returns what was really used of the candidate
                Some(used) => {
                    if smaller(&used, &best) {
                        best = used;
                        true
                    } else if smaller(&c, &best) {
                        best = c;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    attempt!(best.clone());
    loop {
        let before = best.clone();
        // delete chunks
        for size in [64usize, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if i <= best.len() && i - lo == size {
                    let mut c = best.clone();
                    c.drain(lo..i);
                    if attempt!(c) {
                        i = i.min(best.len());
                        continue;
                    }
                    // deletion with a count earlier lowered
                    if size <= 8 && lo > 0 {
                        for back in 1..=lo.min(4) {
                            if best[lo - back] > 0 {
                                let mut c = best.clone();
                                c[lo - back] -= 1;
                                c.drain(lo..i);
                                if attempt!(c) {
                                    break;
                                }
                            }
                        }
                        i = i.min(best.len() + 1);
                    }
                }
                i -= 1;
            }
        }
        // zero, halve, decrement
        let mut i = 0;
        while i < best.len() {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) && i < best.len() {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    let mut steps = 0;
                    while lo + 1 < hi && steps < 24 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        steps += 1;
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------------------------------------
struct Found {
    part: String,
    idx: u64,
    sig: String,
    msg: String,
    choices: Vec<u64>,
}
fn case_seed(seed: u64, prop: &str, part: &str, i: u64) -> u64 {
    mix(seed ^ mix(hash_str(prop) ^ mix(hash_str(part) ^ mix(i))))
}
struct Plan<'a> {
    prop: &'a Prop,
    thorough: bool,
    seed: u64,
}
impl<'a> Plan<'a> {
    fn scale() -> f64 {
        std::env::var("KV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
    }
    fn only() -> Option<String> {
        std::env::var("KV_PART").ok()
    }
    fn cases(&self, p: &Part) -> u64 {
        if let Some(o) = Self::only() {
            if o != p.name {
                return 0;
            }
        }
        let n = if self.thorough { p.thorough } else { p.quick };
        ((n as f64 * Self::scale()).ceil() as u64).max(1)
    }
    fn src(&self, part: &Part, i: u64) -> Src {
        Src::random(case_seed(self.seed, self.prop.id, part.name, i))
    }
}

fn known_findings(root: &Path, id: &str) -> Vec<String> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for l in s.lines() {
            // known: property=P01 sig=<signature>   # text
            if let Some(r) = l.trim().strip_prefix("known: property=") {
                if let Some((p, rest)) = r.split_once(' ') {
                    if p == id {
                        if let Some(s) = rest.trim().strip_prefix("sig=") {
                            v.push(s.split("  #").next().unwrap_or("").trim().to_string());
                        }
                    }
                }
            }
        }
    }
    v
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn un_line(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn choices_str(c: &[u64]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

/// Worker: runs cases i with i % n == w of every part.
fn worker(plan: &Plan, root: &Path, w: u64, n: u64, dir: &Path, limit: Option<(String, u64)>) {
    watchdog();
    let progress = dir.join(format!("progress-{w}"));
    let pf = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(&progress).unwrap();
    use std::os::unix::fs::FileExt;
    let known = known_findings(root, plan.prop.id);
    let mut out = String::new();
    let mut hashes: Vec<u64> = Vec::new();
    let mut unlisted = 0;
    'parts: for (pi, p) in plan.prop.parts.iter().enumerate() {
        let total = plan.cases(p);
        let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
        let (mut evals, mut nontriv) = (0u64, 0u64);
        let mut samples = 0;
        let mut i = w;
        let part_t0 = Instant::now();
        let mut known_seen: HashSet<String> = HashSet::new();
        while i < total {
            let mut line = [b' '; 64];
            let s = format!("{pi} {i}");
            line[..s.len()].copy_from_slice(s.as_bytes());
            let _ = pf.write_at(&line, 0);
            if let Some((lp, li)) = &limit {
                if lp == p.name && i > *li {
                    break 'parts;
                }
            }
            let mut src = plan.src(p, i);
            let mut ctx = Ctx { thorough: plan.thorough, ..Ctx::default() };
            // the first few cases are written out as samples
            ctx.verbose = samples < 3;
            let r = run_case(p, &mut src, &mut ctx);
            evals += 1;
            for c in &ctx.classes {
                *classes.entry(c).or_default() += 1;
            }
            if ctx.nontrivial {
                nontriv += 1;
                hashes.push(src.rec.iter().fold(hash_str(p.name), |h, c| mix(h ^ *c)));
                if ctx.verbose && r.is_ok() {
                    samples += 1;
                    let d: String = ctx.desc.chars().take(1500).collect();
                    let _ = writeln!(out, "sample\t{}\t{}\t{}", p.name, i, one_line(&d));
                }
            }
            if let Err(f) = r {
                let is_known = known.contains(&f.sig);
                if !is_known || known_seen.insert(f.sig.clone()) {
                    let sig = f.sig.clone();
                    let best = shrink(src.rec.clone(), if std::env::var_os("KV_NOSHRINK").is_some() { 0 } else if is_known { 200 } else { 4000 }, |c| {
                        let mut s = Src::replay(c.to_vec());
                        let mut cx = Ctx { thorough: plan.thorough, ..Ctx::default() };
                        match run_case(p, &mut s, &mut cx) {
                            Err(f) if f.sig == sig => Some(s.rec),
                            _ => None,
                        }
                    });
                    let mut s = Src::replay(best.clone());
                    let mut cx = Ctx { thorough: plan.thorough, verbose: true, ..Ctx::default() };
                    let (best, msg) = match run_case(p, &mut s, &mut cx) {
                        Err(f) if f.sig == sig => (best, format!("{}\n{}", f.msg, cx.desc)),
                        // not reproducible in place: state outside of the case; keep the original
                        _ => (src.rec.clone(), f.msg.clone()),
                    };
                    let _ = writeln!(out, "fail\t{}\t{}\t{}\t{}\t{}", p.name, i, one_line(&sig).replace('\t', " "), one_line(&msg).replace('\t', " "), choices_str(&best));
                    if !is_known {
                        unlisted += 1;
                        if unlisted >= 2 {
                            break 'parts;
                        }
                    }
                }
                if is_known {
                    let _ = writeln!(out, "known\t{}", one_line(&f.sig).replace('\t', " "));
                }
                if unlisted > 0 {
                    break;
                }
            }
            i += n;
        }
        let _ = writeln!(out, "stat\t{}\t{evals}\t{nontriv}\t{}", p.name, part_t0.elapsed().as_millis());
        for (c, k) in classes {
            let _ = writeln!(out, "class\t{}\t{c}\t{k}", p.name);
        }
    }
    CASE_DONE.store(true, Ordering::Relaxed);
    let mut f = std::fs::File::create(dir.join(format!("result-{w}"))).unwrap();
    f.write_all(out.as_bytes()).unwrap();
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("hashes-{w}")), hb).unwrap();
}

fn write_replay(root: &Path, id: &str, n: usize, part: &str, sig: &str, seed: u64, idx: u64, mode: &str, choices: &[u64], msg: &str) -> PathBuf {
    let d = root.join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&d);
    let p = d.join(format!("{id}-{n}.replay"));
    let mut s = String::new();
    let _ = writeln!(s, "property: {id}\npart: {part}\nsignature: {sig}\nseed: {seed}\ncase: {idx}\nmode: {mode}\nchoices: {}", choices_str(choices));
    let _ = writeln!(s, "# to replay: ./check {id} --replay {}", p.display());
    for l in msg.lines() {
        let _ = writeln!(s, "# {l}");
    }
    let _ = std::fs::write(&p, s);
    p
}

enum Sub {
    Fine,
    Fails(String, Vec<u64>, String),
    Died(String),
    Stalled,
}
/// Run one case in a fresh process.
fn sub(exe: &Path, id: &str, tier: &str, seed: u64, part: &str, what: &str) -> Sub {
    let o = Command::new(exe)
        .args(["--one", id, tier, &seed.to_string(), part, what])
        .stdin(Stdio::null())
        .output()
        .expect("spawn");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    match o.status.code() {
        Some(0) => Sub::Fine,
        Some(1) => {
            let mut it = text.lines().find(|l| l.starts_with("fail\t")).unwrap_or("").split('\t').skip(1);
            let sig = un_line(it.next().unwrap_or(""));
            let msg = un_line(it.next().unwrap_or(""));
            let ch = it.next().unwrap_or("").split(' ').filter_map(|x| x.parse().ok()).collect();
            Sub::Fails(sig, ch, msg)
        }
        Some(EXIT_SPIN) => Sub::Died("nontermination".into()),
        Some(EXIT_STALL) => Sub::Stalled,
        Some(c) => Sub::Died(format!("exit code {c}")),
        None => {
            use std::os::unix::process::ExitStatusExt;
            let s = o.status.signal().unwrap_or(0);
            if s == libc::SIGKILL { Sub::Stalled } else { Sub::Died(format!("signal {s}")) }
        }
    }
}

fn usage() -> ! {
    eprintln!("usage: kv ID [--tier quick|thorough] [--replay FILE]");
    std::process::exit(2)
}

pub fn main_for(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("KV_ROOT").unwrap_or_else(|_| ".".into()));
    let get = |id: &str| props.iter().find(|p| p.id == id);
    install_panic_hook();
    alloc::watch_reports();
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => {
            let prop = get(&args[2]).unwrap();
            let plan = Plan { prop, thorough: args[3] == "thorough", seed: args[4].parse().unwrap() };
            let limit = args.get(8).map(|p| (p.clone(), args[9].parse().unwrap()));
            worker(&plan, &root, args[5].parse().unwrap(), args[6].parse().unwrap(), Path::new(&args[7]), limit);
            std::process::exit(0)
        }
        Some("--one") => {
            let prop = get(&args[2]).unwrap();
            let seed: u64 = args[4].parse().unwrap();
            let plan = Plan { prop, thorough: args[3] == "thorough", seed };
            let part = prop.parts.iter().find(|p| p.name == args[5]).expect("part");
            watchdog();
            let mut src = match args[6].strip_prefix("case:") {
                Some(i) => plan.src(part, i.parse().unwrap()),
                None => Src::replay(args[6].split(' ').filter_map(|x| x.parse().ok()).collect()),
            };
            let mut ctx = Ctx { thorough: plan.thorough, verbose: true, ..Ctx::default() };
            if std::env::var_os("KV_DUMP").is_some() {
                // for crashes: only the choices, drawn so far, are known from here
            }
            let r = run_case(part, &mut src, &mut ctx);
            CASE_DONE.store(true, Ordering::Relaxed);
            match r {
                Ok(()) => std::process::exit(0),
                Err(f) => {
                    println!("fail\t{}\t{}\t{}", one_line(&f.sig).replace('\t', " "), one_line(&format!("{}\n{}", f.msg, ctx.desc)).replace('\t', " "), choices_str(&src.rec));
                    std::process::exit(1)
                }
            }
        }
        Some(id) => {
            let Some(prop) = get(id) else { usage() };
            let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let mut replay = None;
            let mut it = args[2..].iter();
            while let Some(a) = it.next() {
                match a.as_str() {
                    "--tier" => tier = it.next().cloned().unwrap_or_else(|| usage()),
                    "--replay" => replay = it.next().cloned(),
                    _ => usage(),
                }
            }
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
            match replay {
                Some(f) => do_replay(prop, &tier, &f),
                None => parent(prop, &root, &tier, seed),
            }
        }
        None => usage(),
    }
}

fn do_replay(prop: &Prop, tier: &str, f: &str) -> ! {
    let text = std::fs::read_to_string(f).expect("replay file");
    let field = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default();
    let exe = std::env::current_exe().unwrap();
    let seed: u64 = field("seed:").parse().unwrap_or(1);
    let what = if field("mode:") == "choices" { field("choices:") } else { format!("case:{}", field("case:")) };
    let what = if what.is_empty() { " ".into() } else { what };
    match sub(&exe, prop.id, tier, seed, &field("part:"), &what) {
        Sub::Fine => {
            println!("replay passes");
            std::process::exit(0)
        }
        Sub::Fails(sig, _, msg) => {
            println!("{sig}\n{msg}");
            println!("VIOLATION property={} replay={f}", prop.id);
            std::process::exit(1)
        }
        Sub::Died(s) => {
            println!("{s}");
            println!("VIOLATION property={} replay={f}", prop.id);
            std::process::exit(1)
        }
        Sub::Stalled => {
            println!("stalled");
            std::process::exit(2)
        }
    }
}

fn parent(prop: &Prop, root: &Path, tier: &str, seed: u64) -> ! {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let n: u64 = std::env::var("KV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = std::env::temp_dir().join(format!("kv-{}-{}", prop.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let ev = root.join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replays"));
    if let Ok(rd) = std::fs::read_dir(ev.join("replays")) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-", prop.id)) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let spawn = |w: u64| {
        Command::new(&exe)
            .args(["--worker", prop.id, tier, &seed.to_string(), &w.to_string(), &n.to_string(), dir.to_str().unwrap()])
            .stdin(Stdio::null())
            .spawn()
            .expect("spawn worker")
    };
    let children: Vec<_> = (0..n).map(|w| (w, spawn(w))).collect();
    let mut found: Vec<(Found, &'static str)> = Vec::new();
    let mut error: Option<String> = None;
    let crashes: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    for (w, mut c) in children {
        let st = c.wait().expect("wait");
        if !st.success() {
            eprintln!("worker {w} ended with {st}");
            crashes.lock().unwrap().push(w);
        }
    }
    let crashed = crashes.into_inner().unwrap();
    let mut crash_reports = 0;
    for w in &crashed {
        let pr = std::fs::read_to_string(dir.join(format!("progress-{w}"))).unwrap_or_default();
        let mut it = pr.split_whitespace().filter_map(|x| x.parse::<u64>().ok());
        let (Some(pi), Some(idx)) = (it.next(), it.next()) else {
            error = Some(format!("worker {w} ended before its first case"));
            continue;
        };
        let part = &prop.parts[pi as usize];
        if crash_reports >= 2 {
            continue;
        }
        match sub(&exe, prop.id, tier, seed, part.name, &format!("case:{idx}")) {
            Sub::Died(why) => {
                crash_reports += 1;
                // The choices of a crashing case are not known from outside: it is replayed by
                // its case number.
                found.push((Found { part: part.name.into(), idx, sig: format!("crash:{why}"), msg: format!("the process running this case died: {why}"), choices: vec![] }, "case"));
            }
            Sub::Fails(sig, choices, msg) => {
                crash_reports += 1;
                found.push((Found { part: part.name.into(), idx, sig, msg, choices }, "choices"));
            }
            Sub::Stalled => error = Some(format!("case {} {idx} stalled or was ended", part.name)),
            Sub::Fine => {
                // does it die again with the same history in front of it?
                let st = Command::new(&exe)
                    .args(["--worker", prop.id, tier, &seed.to_string(), &w.to_string(), &n.to_string(), dir.to_str().unwrap(), part.name, &idx.to_string()])
                    .stdin(Stdio::null())
                    .status()
                    .expect("spawn worker");
                let pr2 = std::fs::read_to_string(dir.join(format!("progress-{w}"))).unwrap_or_default();
                if !st.success() && st.code() != Some(EXIT_STALL) && pr2 == pr {
                    crash_reports += 1;
                    found.push((Found { part: part.name.into(), idx, sig: "crash:after earlier cases".into(), msg: format!("worker {w} of {n} dies at this case, twice, after the cases before it: {st}"), choices: vec![] }, "history"));
                } else {
                    error = Some(format!("worker {w} died at {} {idx}, which did not reproduce", part.name));
                }
            }
        }
    }
    // collect
    let known = known_findings(root, prop.id);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let mut classes: BTreeMap<(String, String), u64> = BTreeMap::new();
    let mut samples: Vec<(String, u64, String)> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in 0..n {
        if crashed.contains(&w) {
            continue;
        }
        let Ok(t) = std::fs::read_to_string(dir.join(format!("result-{w}"))) else {
            error = Some(format!("worker {w} left no result"));
            continue;
        };
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "stat" => {
                    let e = stats.entry(f[1].into()).or_default();
                    e.0 += f[2].parse::<u64>().unwrap();
                    e.1 += f[3].parse::<u64>().unwrap();
                    e.2 += f[4].parse::<u64>().unwrap();
                }
                "class" => *classes.entry((f[1].into(), f[2].into())).or_default() += f[3].parse::<u64>().unwrap(),
                "sample" => samples.push((f[1].into(), f[2].parse().unwrap(), un_line(f[3]))),
                "known" => *known_hits.entry(un_line(f[1])).or_default() += 1,
                "fail" => found.push((
                    Found {
                        part: f[1].into(),
                        idx: f[2].parse().unwrap(),
                        sig: un_line(f[3]),
                        msg: un_line(f[4]),
                        choices: f[5].split(' ').filter_map(|x| x.parse().ok()).collect(),
                    },
                    "choices",
                )),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hashes-{w}"))) {
            hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.sort();
    let mut per_part: BTreeMap<String, usize> = BTreeMap::new();
    samples.retain(|s| {
        let c = per_part.entry(s.0.clone()).or_default();
        *c += 1;
        *c <= 2
    });
    // report
    found.sort_by(|a, b| (a.0.choices.len(), &a.0.choices, &a.0.part, a.0.idx).cmp(&(b.0.choices.len(), &b.0.choices, &b.0.part, b.0.idx)));
    let mut seen: HashSet<String> = HashSet::new();
    let mut violations = 0usize;
    for (f, mode) in &found {
        if !seen.insert(f.sig.clone()) {
            continue;
        }
        if known.contains(&f.sig) {
            known_hits.entry(f.sig.clone()).or_insert(1);
            continue;
        }
        violations += 1;
        let p = write_replay(root, prop.id, violations, &f.part, &f.sig, seed, f.idx, mode, &f.choices, &f.msg);
        println!("part {} case {}: {}", f.part, f.idx, f.sig);
        for l in f.msg.lines().take(60) {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", prop.id, p.display());
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", prop.id, k, known_hits.get(k).copied().unwrap_or(0));
    }
    let evals: u64 = stats.values().map(|s| s.0).sum();
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"parts\": {{", esc(prop.id), esc(tier), seed, evals, hashes.len(), esc(prop.rule));
    for (i, (p, s)) in stats.iter().enumerate() {
        let _ = write!(o, "{}\n   {}: {{\"evaluations\": {}, \"nontrivial\": {}, \"worker_ms\": {}, \"classes\": {{", if i > 0 { "," } else { "" }, esc(p), s.0, s.1, s.2);
        let mut first = true;
        for ((cp, c), k) in &classes {
            if cp == p {
                let _ = write!(o, "{}{}: {}", if first { "" } else { ", " }, esc(c), k);
                first = false;
            }
        }
        o.push_str("}}");
    }
    o.push_str("\n  },\n  \"samples\": [");
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(o, "{}\n   {{\"part\": {}, \"case\": {}, \"text\": {}}}", if i > 0 { "," } else { "" }, esc(&s.0), s.1, esc(&s.2));
    }
    o.push_str("\n  ],\n  \"known_findings_seen\": {");
    for (i, (k, c)) in known_hits.iter().enumerate() {
        let _ = write!(o, "{}{}: {}", if i > 0 { ", " } else { "" }, esc(k), c);
    }
    o.push_str("}\n },\n \"assumptions\": [");
    for (i, a) in prop.assumptions.iter().enumerate() {
        let _ = write!(o, "{}{}", if i > 0 { ", " } else { "" }, esc(a));
    }
    let _ = write!(o, "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations);
    std::fs::write(ev.join(format!("{}.json", prop.id)), o).expect("evidence");
    println!(
        "{} {tier} seed {seed}: {evals} cases, {} distinct non-trivial, {violations} violations, {:.1} s",
        prop.id,
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var_os("KV_STATS").is_some() {
        for (p, s) in &stats {
            println!("  {p}: {} cases, {} nontrivial, {} ms", s.0, s.1, s.2);
            for ((cp, c), k) in &classes {
                if cp == p {
                    println!("      {c}: {k}");
                }
            }
        }
    }
    if violations > 0 {
        std::process::exit(1)
    }
    if let Some(e) = error {
        eprintln!("ERROR: {e}");
        std::process::exit(2)
    }
    std::process::exit(0)
}
