//! A small property-based testing engine.
//!
//! Every generated value is derived from a sequence of bounded integer choices
//! drawn from a `Src`. A failing case is shrunk by editing that sequence
//! (deleting spans, lowering values) and re-running; the shrunk sequence is the
//! replay file. Cases run in forked workers, so a crash, an abort, a sanitizer
//! report or a hang is an ordinary failing case which can be shrunk and replayed.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub mod sys;
pub mod json;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut s = h;
    splitmix(&mut s)
}

/// Where choices come from.
enum Mode {
    Random(u64),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pos: usize,
    log: Vec<u64>,
    shared: Option<sys::Shared>,
    pub verbose: bool,
    notes: String,
    interesting: bool,
    key: u64,
    keyed: bool,
    index: u64,
}

pub const MAX_LOG: usize = 1 << 15;

impl Src {
    pub fn random(seed: u64) -> Src {
        Src::new(Mode::Random(seed))
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src::new(Mode::Replay(choices))
    }
    fn new(mode: Mode) -> Src {
        Src { mode, pos: 0, log: Vec::with_capacity(64), shared: None, verbose: false, notes: String::with_capacity(64), interesting: false, key: 0, keyed: false, index: 0 }
    }
    pub fn choices(&self) -> &[u64] {
        &self.log
    }
    /// A value in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.mode {
            Mode::Random(state) => {
                let r = splitmix(state);
                if n == u64::MAX { r.min(u64::MAX - 1) } else { r % n }
            }
            Mode::Replay(c) => c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.log.push(v);
        if let Some(sh) = &self.shared {
            sh.push_choice(v);
        }
        v
    }
    /// Enumerates `0..n` over consecutive cases (case number modulo n).
    pub fn indexed(&mut self, n: u64) -> u64 {
        if let Mode::Random(_) = self.mode {
            let saved = std::mem::replace(&mut self.mode, Mode::Replay(vec![0; self.pos]));
            if let Mode::Replay(c) = &mut self.mode { c.push(self.index % n); }
            let v = self.below(n);
            self.mode = saved;
            v
        } else {
            self.below(n)
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den (true is the "complex" outcome).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| u64::from(*x)).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < u64::from(*x) {
                return i;
            }
            v -= u64::from(*x);
        }
        unreachable!()
    }
    /// A size biased to small values but reaching `max`.
    pub fn size(&mut self, max: usize) -> usize {
        let cap = match self.below(8) {
            0..=2 => 3,
            3..=5 => 9,
            6 => 24,
            _ => max,
        };
        self.us(cap.min(max) + 1)
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(4) {
            0 => self.below(16),
            1 => {
                let b = [0u64, 1, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 52, 1 << 53, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX];
                *self.pick(&b)
            }
            _ => (self.below(1 << 32) << 32) | self.below(1 << 32),
        }
    }
    pub fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    pub fn f64(&mut self) -> f64 {
        let specials = [0.0, -0.0, 1.0, -1.0, 0.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX, 5e-324];
        if self.coin() { *self.pick(&specials) } else { f64::from_bits(self.u64()) }
    }
    pub fn f32(&mut self) -> f32 {
        let specials = [0.0, -0.0, 1.0, -1.0, 0.5, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, f32::MAX, 1e-45];
        if self.coin() { *self.pick(&specials) } else { f32::from_bits(self.u64() as u32) }
    }
    /// Record that this case exercised something beyond the trivial.
    pub fn nontrivial(&mut self) {
        self.interesting = true;
    }
    /// Optional distinctness key (defaults to the hash of the choice sequence).
    pub fn key(&mut self, bytes: &[u8]) {
        self.key = self.key.rotate_left(7) ^ hash64(bytes);
        self.keyed = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.notes.push_str(&s);
            self.notes.push('\n');
            if let Some(sh) = &self.shared {
                sh.push_text(&s);
            }
        }
    }
    pub fn notes(&self) -> &str {
        &self.notes
    }
    fn final_key(&self) -> u64 {
        if !self.interesting {
            return 0;
        }
        let k = if self.keyed {
            self.key
        } else {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            for v in &self.log {
                h = (h ^ v).wrapping_mul(0x0000_0100_0000_01B3);
                h ^= h >> 29;
            }
            h
        };
        k | 1
    }
}

/// Text helpers shared by generators.
pub fn gen_char(s: &mut Src) -> char {
    match s.below(8) {
        0..=2 => (b'a' + s.below(26) as u8) as char,
        3 => *s.pick(&['\0', '\n', '"', '\\', '\'', '\u{7f}', ' ', '{']),
        4 => *s.pick(&['é', 'ß', '\u{80}', '\u{7ff}', 'ÿ', 'Ā']),
        5 => *s.pick(&['\u{800}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '漢']),
        6 => *s.pick(&['\u{10000}', '\u{10ffff}', '😀', '\u{1f980}']),
        _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{fffd}'),
    }
}

pub fn gen_text(s: &mut Src, max: usize) -> String {
    let n = s.size(max);
    (0..n).map(|_| gen_char(s)).collect()
}

/// Byte strings which are nearly UTF-8: valid text with damaged spots.
pub fn gen_bytes(s: &mut Src, max: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let n = s.size(max);
    let mut buf = [0u8; 4];
    for _ in 0..n {
        match s.below(12) {
            0..=6 => out.extend_from_slice(gen_char(s).encode_utf8(&mut buf).as_bytes()),
            7 => out.push(s.below(256) as u8),
            8 => out.push(*s.pick(&[0x80, 0xbf, 0xc0, 0xc1, 0xf5, 0xff, 0xfe, 0xc2, 0xe0, 0xed, 0xf0, 0xf4])),
            9 => {
                // truncated sequence
                let c = gen_char(s);
                let e = c.encode_utf8(&mut buf).as_bytes().to_vec();
                let k = s.us(e.len());
                out.extend_from_slice(&e[..k.max(1).min(e.len())]);
            }
            10 => {
                let alts: [&[u8]; 12] = [b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xc0\x80", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\xf4\x8f\xbf\xbf"];
                out.extend_from_slice(alts[s.us(alts.len())]);
            }
            _ => {
                let lead = s.range(0xc2, 0xf7) as u8;
                out.push(lead);
                for _ in 0..s.below(4) {
                    out.push(s.range(0x7f, 0xc0) as u8);
                }
            }
        }
    }
    out
}

pub fn gen_u16s(s: &mut Src, max: usize) -> Vec<u16> {
    let n = s.size(max);
    let mut out = Vec::new();
    let mut buf = [0u16; 2];
    for _ in 0..n {
        match s.below(8) {
            0..=4 => out.extend_from_slice(gen_char(s).encode_utf16(&mut buf)),
            5 => out.push(*s.pick(&[0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xffff, 0])),
            6 => out.push(s.range(0xd800, 0xdfff) as u16),
            _ => out.push(s.below(65536) as u16),
        }
    }
    out
}

pub type Outcome = Result<(), String>;
pub type CaseFn = fn(&mut Src) -> Outcome;

pub struct Prop {
    /// Sub-check name, unique within the property.
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Config {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub rule: String,
    pub evidence: PathBuf,
    pub replay_dir: PathBuf,
    pub jobs: usize,
    /// Seconds one case may run before it counts as hanging.
    pub case_timeout: u32,
    pub assumptions: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub per_sub: Vec<(String, u64, u64)>,
}

pub struct Failure {
    pub sub: String,
    pub choices: Vec<u64>,
    pub message: String,
    pub notes: String,
}

fn case_seed(seed: u64, sub: &str, i: u64) -> u64 {
    let mut s = seed ^ hash64(sub.as_bytes()).wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95));
    splitmix(&mut s)
}

fn run_case(f: CaseFn, src: &mut Src) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| f(src))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_owned())).unwrap_or_else(|| "panic".to_owned());
            Err(format!("panic: {m}"))
        }
    }
}

/// Result of one isolated execution.
enum Exec {
    Pass,
    Fail(String),
}

/// One case running in a forked child; crashes and timeouts are failures.
struct Isolated {
    pid: i32,
    shared: sys::Shared,
    errfile: PathBuf,
}

impl Isolated {
    fn start(f: CaseFn, choices: &[u64], verbose: bool, timeout: u32) -> Isolated {
        let shared = sys::Shared::new();
        let errfile = sys::temp_path("stderr");
        let pid = sys::fork();
        if pid == 0 {
            sys::redirect_stderr(&errfile);
            sys::alarm(timeout);
            let mut src = Src::replay(choices.to_vec());
            src.verbose = verbose;
            src.shared = Some(shared.clone());
            let r = run_case(f, &mut src);
            if let Err(m) = r {
                shared.set_fail(&m);
                sys::exit_now(1);
            }
            sys::exit_now(0);
        }
        Isolated { pid, shared, errfile }
    }

    fn finish(self) -> (Exec, Vec<u64>, String, String) {
        let Isolated { pid, shared, errfile } = self;
        let st = sys::wait(pid);
        let log = shared.choices();
        let err = fs::read_to_string(&errfile).unwrap_or_default();
        let _ = fs::remove_file(&errfile);
        let text = shared.text();
        let e = match st {
            sys::Status::Exited(0) => Exec::Pass,
            sys::Status::Exited(1) if !shared.fail().is_empty() => Exec::Fail(shared.fail()),
            sys::Status::Exited(c) => Exec::Fail(format!("process exited with code {c}: {}", crash_summary(&err))),
            sys::Status::Signaled(14) => Exec::Fail("hang: case did not finish in time".to_owned()),
            sys::Status::Signaled(s) => Exec::Fail(format!("process killed by signal {s}: {}", crash_summary(&err))),
        };
        shared.free();
        (e, log, text, err)
    }
}

fn exec_isolated(f: CaseFn, choices: &[u64], verbose: bool, timeout: u32) -> (Exec, Vec<u64>, String, String) {
    Isolated::start(f, choices, verbose, timeout).finish()
}

fn crash_summary(err: &str) -> String {
    for l in err.lines() {
        if l.contains("ERROR: AddressSanitizer") || l.contains("runtime error") || l.starts_with("SUMMARY") {
            // Drop addresses and pids so that the text is stable.
            let t: Vec<&str> = l.split_whitespace().filter(|w| !w.starts_with("0x") && !w.starts_with("==")).collect();
            return t.join(" ");
        }
    }
    err.lines().rev().find(|l| !l.trim().is_empty()).unwrap_or("").chars().take(300).collect()
}

fn class(m: &str) -> &str {
    // Shrinking keeps the broad failure class so that one bug is not traded for a harness limit.
    let end = m.match_indices(' ').nth(1).map_or(m.len(), |(i, _)| i);
    &m[..end]
}

fn shrink(f: CaseFn, start: Vec<u64>, msg: &str, timeout: u32, budget: Duration, max_execs: u32) -> Vec<u64> {
    let t0 = Instant::now();
    let mut best = start;
    let mut execs = 0;
    let want = class(msg).to_owned();
    // Candidates are tried a few at a time; the first success in order counts.
    let width = std::thread::available_parallelism().map_or(4, |n| n.get()).min(8);
    let mut try_any = |cands: &[Vec<u64>], best: &mut Vec<u64>| -> Option<usize> {
        for (base, group) in cands.chunks(width).enumerate() {
            if execs >= max_execs || t0.elapsed() > budget {
                return None;
            }
            execs += group.len() as u32;
            let handles: Vec<Isolated> = group.iter().map(|c| Isolated::start(f, c, false, timeout)).collect();
            let results: Vec<(Exec, Vec<u64>)> = handles.into_iter().map(|h| { let (e, log, _, _) = h.finish(); (e, log) }).collect();
            for (k, (e, log)) in results.into_iter().enumerate() {
                if let Exec::Fail(m) = e {
                    if class(&m) == want {
                        // Use the effective sequence when it is simpler.
                        let cand = &group[k];
                        let mut eff = log;
                        while eff.last() == Some(&0) { eff.pop(); }
                        if (eff.len(), &eff[..]) <= (cand.len(), &cand[..]) { *best = eff; } else { *best = cand.clone(); }
                        return Some(base * width + k);
                    }
                }
            }
        }
        None
    };
    loop {
        let before = best.clone();
        // Delete spans.
        let mut span = (best.len() / 2).max(1);
        while span >= 1 {
            let mut i = best.len();
            while i > 0 {
                // Candidates from the end backwards.
                let mut cands = Vec::new();
                let mut ends = Vec::new();
                let mut j = i;
                while j > 0 && cands.len() < width {
                    let lo = j.saturating_sub(span);
                    let mut c = best.clone();
                    c.drain(lo..j.min(best.len()));
                    cands.push(c);
                    ends.push(lo);
                    j = lo;
                }
                match try_any(&cands, &mut best) {
                    Some(k) => i = ends[k].min(best.len()),
                    None => i = j,
                }
            }
            if span == 1 { break; }
            span /= 2;
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut vals = vec![0];
                let mut step = v / 2;
                while step > 0 && vals.len() < 16 {
                    if !vals.contains(&(v - step)) { vals.push(v - step); }
                    step /= 2;
                }
                vals.sort_unstable();
                let cands: Vec<Vec<u64>> = vals.iter().map(|x| { let mut c = best.clone(); c[i] = *x; c }).collect();
                if try_any(&cands, &mut best).is_some() && i < best.len() && best[i] > 0 && best[i] < v { continue; }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget { break; }
    }
    best
}

/// Explore one sub-check over `cases` cases with `jobs` forked workers.
fn explore(cfg: &Config, p: &Prop, cases: u64, stats: &mut Stats, earlier: bool) -> Option<Failure> {
    let jobs = cfg.jobs.max(1) as u64;
    let keys = sys::SharedU64::new(cases as usize);
    // Two verbose samples taken from fixed positions.
    let mut kids = Vec::new();
    for w in 0..jobs {
        let shared = sys::Shared::new();
        let errfile = sys::temp_path("stderr");
        let pid = sys::fork();
        if pid == 0 {
            sys::redirect_stderr(&errfile);
            let mut i = w;
            while i < cases {
                shared.begin_case(i);
                sys::alarm(cfg.case_timeout);
                let mut src = Src::random(case_seed(cfg.seed, p.name, i));
                src.index = i;
                src.shared = Some(shared.clone());
                let r = run_case(p.f, &mut src);
                sys::alarm(0);
                if let Err(m) = r {
                    shared.set_fail(&m);
                    sys::exit_now(1);
                }
                keys.set(i as usize, src.final_key() | (1 << 63));
                if src.final_key() == 0 { keys.set(i as usize, 2); }
                i += jobs;
            }
            sys::exit_now(0);
        }
        kids.push((pid, shared, errfile));
    }
    let mut first: Option<(u64, Vec<u64>, String)> = None;
    for (pid, shared, errfile) in kids {
        let st = sys::wait(pid);
        let msg = match st {
            sys::Status::Exited(0) => None,
            sys::Status::Exited(1) if !shared.fail().is_empty() => Some(shared.fail()),
            other => {
                let err = fs::read_to_string(&errfile).unwrap_or_default();
                Some(match other {
                    sys::Status::Signaled(14) => "hang: case did not finish in time".to_owned(),
                    sys::Status::Signaled(s) => format!("process killed by signal {s}: {}", crash_summary(&err)),
                    sys::Status::Exited(c) => format!("process exited with code {c}: {}", crash_summary(&err)),
                })
            }
        };
        let _ = fs::remove_file(&errfile);
        if let Some(m) = msg {
            let idx = shared.current();
            if first.as_ref().map_or(true, |(i, _, _)| idx < *i) {
                first = Some((idx, shared.choices(), m));
            }
        }
        shared.free();
    }
    let mut evals = 0;
    let mut nontriv = 0;
    let mut sample_at = Vec::new();
    for i in 0..cases {
        let k = keys.get(i as usize);
        if k != 0 {
            evals += 1;
            if k != 2 {
                nontriv += 1;
                stats.nontrivial.insert(k ^ hash64(p.name.as_bytes()) & !(1 << 63));
                if sample_at.len() < 64 { sample_at.push(i); }
            }
        }
    }
    keys.free();
    stats.evaluations += evals;
    stats.per_sub.push((p.name.to_owned(), evals, nontriv));
    if first.is_none() {
        // Samples: re-run verbosely, isolated.
        for &i in sample_at.iter().step_by((sample_at.len() / 2).max(1)).take(2) {
            let mut src = Src::random(case_seed(cfg.seed, p.name, i));
            src.index = i;
            let shared = sys::Shared::new();
            let pid = sys::fork();
            if pid == 0 {
                sys::redirect_stderr(Path::new("/dev/null"));
                sys::alarm(cfg.case_timeout);
                src.verbose = true;
                src.shared = Some(shared.clone());
                let _ = run_case(p.f, &mut src);
                sys::exit_now(0);
            }
            sys::wait(pid);
            let mut t = shared.text();
            if t.len() > 1500 {
                let mut k = 1500;
                while !t.is_char_boundary(k) { k -= 1; }
                t.truncate(k);
                t.push_str("…");
            }
            stats.samples.push(format!("[{} case {}] {}", p.name, i, t.replace('\n', "; ")));
            shared.free();
        }
    }
    let (_, choices, msg) = first?;
    Some(finish_failure(cfg, p, choices, msg, if earlier { 6 } else { std::env::var("PBT_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(30) }))
}

fn finish_failure(cfg: &Config, p: &Prop, choices: Vec<u64>, msg: String, secs: u64) -> Failure {
    let mut choices = choices;
    let mut msg = msg;
    // Confirm by replay, alone.
    let (e, _, _, _) = exec_isolated(p.f, &choices, false, cfg.case_timeout);
    if let Exec::Fail(m) = e {
        msg = m;
        choices = shrink(p.f, choices, &msg, cfg.case_timeout, Duration::from_secs(secs), 3000);
    } else {
        msg.push_str(" (not reproduced alone: depends on earlier cases of the same worker)");
    }
    let (e, _, notes, err) = exec_isolated(p.f, &choices, true, cfg.case_timeout);
    if let Exec::Fail(m) = e {
        msg = m;
    }
    let mut notes = notes;
    if msg.contains("process") && !err.is_empty() {
        let _ = write!(notes, "\n--- stderr ---\n{}", err.lines().take(14).map(|l| l.chars().take(180).collect::<String>()).collect::<Vec<_>>().join("\n"));
    }
    Failure { sub: p.name.to_owned(), choices, message: msg, notes }
}

pub fn write_replay(cfg: &Config, f: &Failure) -> PathBuf {
    let _ = fs::create_dir_all(&cfg.replay_dir);
    let path = cfg.replay_dir.join(format!("{}-{}.replay", cfg.id, f.sub));
    let mut t = String::new();
    let _ = writeln!(t, "property {}", cfg.id);
    let _ = writeln!(t, "sub {}", f.sub);
    let _ = writeln!(t, "choices {}", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(t, "# failure: {}", f.message.replace('\n', "\n#   "));
    for l in f.notes.lines() {
        let _ = writeln!(t, "# {l}");
    }
    fs::write(&path, t).unwrap();
    path
}

pub fn read_replay(path: &Path) -> (String, String, Vec<u64>) {
    let t = fs::read_to_string(path).expect("replay file");
    let mut id = String::new();
    let mut sub = String::new();
    let mut ch = Vec::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("property ") { id = r.trim().to_owned(); }
        if let Some(r) = l.strip_prefix("sub ") { sub = r.trim().to_owned(); }
        if let Some(r) = l.strip_prefix("choices ") { ch = r.split_whitespace().map(|x| x.parse().unwrap()).collect(); }
        else if l.trim() == "choices" { ch = vec![]; }
    }
    (id, sub, ch)
}

/// Replay a file; returns the process exit code.
pub fn replay(props: &[Prop], path: &Path) -> i32 {
    let (id, sub, ch) = read_replay(path);
    let p = props.iter().find(|p| p.name == sub).expect("unknown sub-check in replay file");
    let (e, _, notes, err) = exec_isolated(p.f, &ch, true, 120);
    println!("{notes}");
    match e {
        Exec::Pass => { println!("replay of {id}/{sub}: passes"); 0 }
        Exec::Fail(m) => {
            println!("replay of {id}/{sub}: FAILS: {m}");
            eprintln!("{err}");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
    }
}

pub fn evidence_json(cfg: &Config, stats: &Stats, wall: f64, violations: &[String]) -> String {
    let mut o = json::Obj::new();
    o.str("property", &cfg.id);
    o.str("tier", &cfg.tier);
    o.num("seed", cfg.seed as f64);
    o.str("level", "exploration");
    let mut c = json::Obj::new();
    c.num("evaluations", stats.evaluations as f64);
    c.num("distinct_nontrivial", stats.nontrivial.len() as f64);
    let per: Vec<String> = stats.per_sub.iter().map(|(n, e, t)| format!("{n}: {e} cases, {t} non-trivial")).collect();
    c.str("rule", &format!("{} Per sub-check: {}.", cfg.rule, per.join("; ")));
    c.raw("samples", &json::arr_str(&stats.samples));
    o.raw("coverage", &c.done());
    o.num("wall_s", (wall * 100.0).round() / 100.0);
    o.raw("assumptions", &json::arr_str(&cfg.assumptions));
    if !violations.is_empty() {
        o.raw("violations", &json::arr_str(violations));
    }
    o.done()
}

/// Run all sub-checks of a property; prints VIOLATION lines, writes evidence,
/// returns the exit code.
pub fn run_property(cfg: &Config, props: &[Prop]) -> i32 {
    let t0 = Instant::now();
    let mut stats = Stats::default();
    let mut violations = Vec::new();
    for p in props {
        let cases = if cfg.tier == "thorough" { p.thorough } else { p.quick };
        let t = Instant::now();
        if let Some(f) = explore(cfg, p, cases, &mut stats, !violations.is_empty()) {
            let path = write_replay(cfg, &f);
            println!("[{}] {}: FAILED after {:.1}s: {}", cfg.id, p.name, t.elapsed().as_secs_f64(), f.message);
            for l in f.notes.lines().take(40) { println!("    {l}"); }
            println!("VIOLATION property={} replay={}", cfg.id, path.display());
            violations.push(format!("{}: {}", f.sub, f.message));
        } else {
            println!("[{}] {}: {} cases ok in {:.1}s", cfg.id, p.name, cases, t.elapsed().as_secs_f64());
        }
        let _ = std::io::stdout().flush();
    }
    if let Some(d) = cfg.evidence.parent() { let _ = fs::create_dir_all(d); }
    fs::write(&cfg.evidence, evidence_json(cfg, &stats, t0.elapsed().as_secs_f64(), &violations)).unwrap();
    println!("[{}] {} evaluations, {} distinct non-trivial, {:.1}s", cfg.id, stats.evaluations, stats.nontrivial.len(), t0.elapsed().as_secs_f64());
    i32::from(!violations.is_empty())
}

/// Standard command line: `BIN check ID --tier T --seed N --evidence F --replays D`, `BIN replay FILE`.
pub struct Entry {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub props: Vec<Prop>,
}

pub fn main_with(entries: Vec<Entry>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    // Quiet panic hook: failures are reported through the outcome.
    std::panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(String::as_str) {
        Some("check") => {
            let id = args[2].clone();
            let e = entries.into_iter().find(|e| e.id == id).unwrap_or_else(|| { eprintln!("no such property {id}"); std::process::exit(3) });
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let cfg = Config {
                id,
                tier: get("--tier").unwrap_or_else(|| "quick".into()),
                seed,
                rule: e.rule.into(),
                evidence: get("--evidence").unwrap_or_else(|| "/verif/evidence/x.json".into()).into(),
                replay_dir: get("--replays").unwrap_or_else(|| "/verif/replays".into()).into(),
                jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                case_timeout: get("--case-timeout").and_then(|s| s.parse().ok()).unwrap_or(60),
                assumptions: e.assumptions.iter().map(|s| (*s).to_owned()).collect(),
            };
            let only = get("--sub");
            let props: Vec<Prop> = e.props.into_iter().filter(|p| only.as_ref().map_or(true, |o| o == p.name)).collect();
            std::process::exit(run_property(&cfg, &props))
        }
        Some("replay") => {
            let path = PathBuf::from(&args[2]);
            let (id, _, _) = read_replay(&path);
            let e = entries.into_iter().find(|e| e.id == id).expect("unknown property");
            std::process::exit(replay(&e.props, &path))
        }
        _ => {
            eprintln!("usage: check ID [--tier quick|thorough] [--seed N] | replay FILE");
            std::process::exit(3)
        }
    }
}
