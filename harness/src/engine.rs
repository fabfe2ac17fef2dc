//! Choice-sequence property-testing engine.
//!
//! Every random decision of a generator is drawn through [`G`], which records it. A failing case is
//! therefore a list of integers; shrinking deletes and lowers those integers and re-runs the case, so
//! any generator (including stateful operation sequences) shrinks without extra code, and the shrunk
//! list is the replay file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

#[derive(Clone)]
pub struct Fail(pub String);

pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Fail(format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($l:expr, $r:expr, $($a:tt)*) => {{
        let (l, r) = (&$l, &$r);
        if l != r { return Err($crate::engine::Fail(format!("{}\n   got: {:?}\n  want: {:?}", format!($($a)*), l, r))); }
    }};
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100_0000_01b3);
        }
    }
}

/// Generator context: source of choices plus the observations a case reports.
pub struct G {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
    labels: Vec<&'static str>,
    nontrivial: bool,
    key: Option<u64>,
    pub describing: bool,
    desc: String,
    pub cases_inside: u64,
}

impl G {
    fn random(seed: u64) -> Self {
        G { rng: seed, replay: None, pos: 0, rec: Vec::new(), labels: vec![], nontrivial: false, key: None, describing: false, desc: String::new(), cases_inside: 0 }
    }
    /// A generator whose choices all follow from one recorded choice of the main one.
    pub fn derived(seed: u64) -> Self {
        G::random(mix(seed))
    }
    fn replaying(ch: Vec<u64>) -> Self {
        let mut g = G::random(0);
        g.replay = Some(ch);
        g
    }
    /// Uniform in 0..bound.
    pub fn below(&mut self, bound: u64) -> u64 {
        if bound <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(c) => c.get(self.pos).copied().unwrap_or(0).min(bound - 1),
            None => {
                self.rng = self.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
                mix(self.rng) % bound
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn i32(&mut self, lo: i32, hi: i32) -> i32 {
        self.int(lo as i64, hi as i64) as i32
    }
    pub fn u16(&mut self, lo: u16, hi: u16) -> u16 {
        self.int(lo as i64, hi as i64) as u16
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// True with probability num/den (shrinks to false).
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &'a [&'a T]) -> &'a T {
        xs[self.below(xs.len() as u64) as usize]
    }
    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let n = self.usize(lo, hi);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// True when this exact deviation is listed in known_findings.txt ("finding: property=ID key=KEY text").
    pub fn known(&mut self, key: &'static str) -> bool {
        let listed = LISTED.get_or_init(|| {
            let t = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
            t.lines()
                .filter_map(|l| {
                    let (p, rest) = l.strip_prefix("finding: property=")?.split_once(" key=")?;
                    let (k, text) = rest.split_once(' ')?;
                    Some((k.to_string(), (p.to_string(), text.to_string())))
                })
                .collect()
        });
        if !listed.contains_key(key) {
            return false;
        }
        self.label(key);
        FOUND.lock().unwrap().insert(key);
        true
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// What identifies the case for counting distinct ones (default: the choice sequence).
    pub fn key(&mut self, k: &impl Hash) {
        let mut h = Fnv(self.key.unwrap_or(0xcbf2_9ce4_8422_2325));
        k.hash(&mut h);
        self.key = Some(h.finish());
    }
    /// Human-readable description; only evaluated when the case is being written out.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.describing {
            let s = f();
            let _ = writeln!(self.desc, "{s}");
        }
    }
}

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut G) -> R,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: &'static [Part],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

enum Outcome {
    Ok,
    Fail(String),
}

fn run_case(f: fn(&mut G) -> R, g: &mut G) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| f(g))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(Fail(m))) => Outcome::Fail(m),
        Err(_) => {
            let (msg, loc) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                // On the tree the checks were written for this never happens: the code under test gave something
                // that the oracle takes for impossible (a missing child, a list too short).
                Outcome::Fail(format!("the code under test gave a result the oracle cannot read (at {loc}): {msg}"))
            } else {
                if std::env::var_os("VP_WHERE").is_some() {
                    eprintln!("panic at {loc}");
                }
                Outcome::Fail(format!("PANIC in the code under test: {msg}"))
            }
        }
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    inner: u64,
    distinct: HashSet<u64>,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    sample: Vec<(u64, Vec<u64>)>,
}

pub struct RunResult {
    pub violations: Vec<(String, String)>,
    pub error: Option<String>,
}

fn case_seed(seed: u64, part: &str, idx: u64) -> u64 {
    mix(mix(seed ^ 0x5151).wrapping_add(fnv(part.as_bytes())).wrapping_add(mix(idx)))
}

static LISTED: std::sync::OnceLock<std::collections::HashMap<String, (String, String)>> = std::sync::OnceLock::new();
static FOUND: Mutex<std::collections::BTreeSet<&'static str>> = Mutex::new(std::collections::BTreeSet::new());

/// Per worker: case index + 1 of the running case (0 = idle).
static SLOTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static CURRENT: Mutex<Option<(String, String, u64, String)>> = Mutex::new(None);

/// The running cases, for the parent process to read should this one be killed (stack overflow, out of memory).
static PROGRESS: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();

fn note_case(slot: usize, part: usize, idx1: u64) {
    use std::os::unix::fs::FileExt;
    let f = PROGRESS.get_or_init(|| {
        let p = std::env::var("VP_PROGRESS").ok()?;
        std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(p).ok()
    });
    if let Some(f) = f {
        let v = if idx1 == 0 { 0 } else { ((part as u64 + 1) << 48) | idx1 };
        let _ = f.write_at(&v.to_le_bytes(), slot as u64 * 8);
    }
}

/// Runs `vp run` in a child process; if a signal ends it, finds the case that does that and reports it.
pub fn supervise(p: &Property, args: &[String], seed: u64, out_dir: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let progress = std::env::temp_dir().join(format!("vp-progress-{}-{}", p.id, std::process::id()));
    let _ = std::fs::write(&progress, [0u8; 512]);
    let st = std::process::Command::new(&exe).args(args).env("VP_PROGRESS", &progress).status().expect("child");
    let slots = std::fs::read(&progress).unwrap_or_default();
    let _ = std::fs::remove_file(&progress);
    if let Some(c) = st.code() {
        return c;
    }
    let how = format!("the process was ended by signal {}", st.signal().unwrap_or(0));
    println!("{how}");
    let mut cases: Vec<u64> = slots.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v != 0).collect();
    cases.sort();
    for v in cases {
        let part = p.parts[(v >> 48) as usize - 1].name;
        let idx = (v & 0xffff_ffff_ffff) - 1;
        let dir = format!("{out_dir}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.json", p.id, part.replace(' ', "_"));
        let _ = std::fs::write(&path, format!(
            "{{\"property\": {}, \"part\": {}, \"seed\": {seed}, \"case\": {idx}, \"message\": {}, \"regenerate\": 1}}\n",
            js(p.id), js(part), js(&how)));
        let again = std::process::Command::new(&exe).args(["replay", p.id, &path]).stdout(std::process::Stdio::null()).status().expect("child");
        if again.code() != Some(0) {
            println!("--- case {idx} of {part}: {how}");
            println!("VIOLATION property={} replay={path}", p.id);
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    println!("ERROR: {how}, and none of the running cases does it again");
    2
}

/// A case takes milliseconds; one that is still running after `limit_s` seconds does not terminate.
fn start_watchdog(limit_s: u64) {
    let t0 = Instant::now();
    std::thread::spawn(move || {
        let mut seen = [(0u64, 0u64); 64];
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = t0.elapsed().as_secs();
            for (i, s) in SLOTS.iter().enumerate() {
                let v = s.load(Ordering::Relaxed);
                if v == 0 || v != seen[i].0 {
                    seen[i] = (v, now);
                } else if now - seen[i].1 > limit_s {
                    let cur = CURRENT.lock().unwrap().clone();
                    let Some((id, part, seed, dir)) = cur else { std::process::exit(3) };
                    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
                    let path = format!("{dir}/replays/{id}-{}.json", part.replace(' ', "_"));
                    let msg = format!("the case did not finish within {limit_s} s");
                    let _ = std::fs::write(&path, format!(
                        "{{\"property\": {}, \"part\": {}, \"seed\": {seed}, \"case\": {}, \"message\": {}, \"regenerate\": 1}}\n",
                        js(&id), js(&part), v - 1, js(&msg)));
                    println!("--- {msg}\nVIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            }
        }
    });
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

pub fn run_property(p: &Property, tier: &str, seed: u64, out_dir: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    start_watchdog(90);
    let scale: f64 = std::env::var("VP_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let mut total_evals = 0u64;
    let mut total_nontrivial = 0u64;
    let mut parts_json = String::new();
    let mut samples_json: Vec<String> = vec![];
    let mut violation: Option<(String, String)> = None;
    for (part_no, part) in p.parts.iter().enumerate() {
        if only.is_some_and(|o| o != part.name) {
            continue;
        }
        let tp = Instant::now();
        let n = ((if tier == "thorough" { part.thorough } else { part.quick }) as f64 * scale).max(1.0) as u64;
        *CURRENT.lock().unwrap() = Some((p.id.into(), part.name.into(), seed, out_dir.into()));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let slot = AtomicUsize::new(0);
        let fails: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(vec![]);
        let stats: Mutex<Stats> = Mutex::new(Stats::default());
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                let body = || {
                    let my = slot.fetch_add(1, Ordering::Relaxed) % 63;
                    let mut st = Stats::default();
                    'outer: loop {
                        let chunk = 16u64.min((n / 64).max(1));
                        let lo = next.fetch_add(chunk, Ordering::Relaxed);
                        if lo >= n || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        for idx in lo..(lo + chunk).min(n) {
                            SLOTS[my].store(idx + 1, Ordering::Relaxed);
                            note_case(my, part_no, idx + 1);
                            let mut g = G::random(case_seed(seed, part.name, idx));
                            let out = run_case(part.f, &mut g);
                            st.evals += 1;
                            st.inner += g.cases_inside;
                            let k = g.key.unwrap_or_else(|| {
                                let mut h = Fnv(0xcbf2_9ce4_8422_2325);
                                g.rec.hash(&mut h);
                                h.finish()
                            });
                            st.distinct.insert(k);
                            if g.nontrivial && st.nontrivial.insert(k) && idx < 64 {
                                st.sample.push((idx, g.rec.clone()));
                            }
                            for l in &g.labels {
                                *st.labels.entry(l).or_default() += 1;
                            }
                            match out {
                                Outcome::Ok => {}
                                Outcome::Fail(m) => {
                                    fails.lock().unwrap().push((idx, g.rec.clone(), m));
                                    stop.store(true, Ordering::Relaxed);
                                    break 'outer;
                                }
                            }
                        }
                    }
                    SLOTS[my].store(0, Ordering::Relaxed);
                    note_case(my, part_no, 0);
                    let mut s = stats.lock().unwrap();
                    s.evals += st.evals;
                    s.inner += st.inner;
                    s.distinct.extend(st.distinct);
                    s.nontrivial.extend(st.nontrivial);
                    s.sample.extend(st.sample);
                    for (l, c) in st.labels {
                        *s.labels.entry(l).or_default() += c;
                    }
                };
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, body).unwrap();
            }
        });
        let st = stats.into_inner().unwrap();
        total_evals += st.evals;
        total_nontrivial += st.nontrivial.len() as u64;
        let labels: Vec<String> = st.labels.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
        let _ = write!(
            parts_json,
            "{}{}: {{\"evaluations\": {}, \"distinct\": {}, \"distinct_nontrivial\": {}, {}\"labels\": {{{}}}, \"wall_s\": {:.2}}}",
            if parts_json.is_empty() { "" } else { ", " },
            js(part.name), st.evals, st.distinct.len(), st.nontrivial.len(), if st.inner > 0 { format!("\"inputs_inside_the_cases\": {}, ", st.inner) } else { String::new() }, labels.join(", "), tp.elapsed().as_secs_f64()
        );
        println!("{} {}: {} cases, {} distinct non-trivial, {:.1}s {{{}}}", p.id, part.name, st.evals, st.nontrivial.len(), tp.elapsed().as_secs_f64(), labels.join(", "));
        let mut smp = st.sample;
        smp.sort();
        for (idx, rec) in smp.into_iter().take(2) {
            let (_, desc, _) = eval(part.f, rec);
            samples_json.push(format!("{{\"part\": {}, \"case\": {idx}, \"input\": {}}}", js(part.name), js(&clip(&desc, 1500))));
        }
        let mut fails = fails.into_inner().unwrap();
        fails.sort();
        if let Some((idx, rec, msg)) = fails.into_iter().next() {
            SLOTS[63].store(idx + 1, Ordering::Relaxed);
            note_case(63, part_no, idx + 1);
            let (rec, msg) = shrink(part.f, rec, msg);
            SLOTS[63].store(0, Ordering::Relaxed);
            let (_, desc, _) = eval(part.f, rec.clone());
            let dir = format!("{out_dir}/replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{}.json", p.id, part.name.replace(' ', "_"));
            let nums: Vec<String> = rec.iter().map(|v| v.to_string()).collect();
            let _ = std::fs::write(&path, format!(
                "{{\"property\": {}, \"part\": {}, \"seed\": {seed}, \"case\": {idx},\n \"message\": {},\n \"input\": {},\n \"choices\": [{}]}}\n",
                js(p.id), js(part.name), js(&msg), js(&desc), nums.join(",")));
            println!("--- shrunk failing case ({}/{}) ---\n{}--- {}", p.id, part.name, desc, msg);
            violation = Some((part.name.to_string(), path));
            break;
        }
    }
    for k in FOUND.lock().unwrap().iter() {
        if let Some((pid, text)) = LISTED.get().and_then(|l| l.get(*k)) {
            if pid == p.id {
                println!("KNOWN-FINDING: property={pid} {text}");
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let assumptions: Vec<String> = p.assumptions.iter().map(|s| js(s)).collect();
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\"evaluations\": {total_evals}, \"distinct_nontrivial\": {total_nontrivial}, \"rule\": {},\n  \"parts\": {{{parts_json}}},\n  \"samples\": [{}]}},\n \"assumptions\": [{}], \"wall_s\": {wall:.3}, \"violations\": {}}}\n",
        js(p.id), js(tier), js(p.rule), samples_json.join(",\n   "), assumptions.join(", "), violation.is_some() as u8
    );
    let _ = std::fs::create_dir_all(format!("{out_dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{out_dir}/evidence/{}.json", p.id), ev) {
        println!("ERROR: cannot write evidence: {e}");
        return 2;
    }
    match violation {
        Some((_, path)) => {
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("OK property={} evaluations={total_evals} nontrivial={total_nontrivial} wall={wall:.1}s", p.id);
            0
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n { s.to_string() } else { s.chars().take(n).collect::<String>() + "…" }
}

/// Run one recorded case; returns (failure message, description, choices actually used).
fn eval(f: fn(&mut G) -> R, ch: Vec<u64>) -> (Option<String>, String, Vec<u64>) {
    let mut g = G::replaying(ch);
    g.describing = true;
    let o = run_case(f, &mut g);
    let m = match o {
        Outcome::Fail(m) => Some(m),
        _ => None,
    };
    (m, g.desc, g.rec)
}

fn try_case(f: fn(&mut G) -> R, ch: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut g = G::replaying(ch.to_vec());
    match run_case(f, &mut g) {
        Outcome::Fail(m) => {
            let mut rec = g.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            Some((rec, m))
        }
        _ => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

fn shrink(f: fn(&mut G) -> R, start: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = start;
    let mut bmsg = msg;
    let mut budget = 6000i32;
    let attempt = |c: Vec<u64>, best: &mut Vec<u64>, bmsg: &mut String, budget: &mut i32| -> bool {
        *budget -= 1;
        if *budget < 0 || t0.elapsed().as_secs() > 60 {
            return false;
        }
        if let Some((r, m)) = try_case(f, &c) {
            if simpler(&r, best) {
                *best = r;
                *bmsg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut bmsg, &mut budget) {
                    // also try deleting while lowering an earlier count by one
                    i += if size > 8 { size / 2 } else { 1 };
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            let mut c = best.clone();
            c[i] = 0;
            if attempt(c, &mut best, &mut bmsg, &mut budget) {
                continue;
            }
            // a length followed by its items: lower the length and drop one item
            for d in 1..=6usize {
                if i < best.len() && best[i] > 0 && i + 1 + d <= best.len() {
                    let mut c = best.clone();
                    c[i] -= 1;
                    c.drain(i + 1..i + 1 + d);
                    if attempt(c, &mut best, &mut bmsg, &mut budget) {
                        break;
                    }
                }
            }
            let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
            while lo + 1 < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                c[i] = mid;
                if attempt(c, &mut best, &mut bmsg, &mut budget) { hi = mid } else { lo = mid }
            }
        }
        if best == before || budget < 0 || t0.elapsed().as_secs() > 60 {
            break;
        }
    }
    (best, bmsg)
}

pub fn replay(p: &Property, path: &str) -> i32 {
    install_panic_hook();
    let txt = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        let pat = format!("\"{k}\": \"");
        let s = txt.find(&pat).expect(k) + pat.len();
        txt[s..].split('"').next().unwrap().to_string()
    };
    let part = get("part");
    if txt.contains("\"regenerate\": 1") {
        let num = |k: &str| -> u64 {
            let pat = format!("\"{k}\": ");
            let s = txt.find(&pat).expect(k) + pat.len();
            txt[s..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap()
        };
        let f = p.parts.iter().find(|x| x.name == part).expect("part").f;
        let path = path.to_string();
        let id = p.id;
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(60));
            println!("does not terminate\nVIOLATION property={id} replay={path}");
            std::process::exit(1);
        });
        let mut g = G::random(case_seed(num("seed"), &part, num("case")));
        g.describing = true;
        let _ = run_case(f, &mut g);
        println!("{}replayed case terminates", g.desc);
        return 0;
    }
    let s = txt.rfind("\"choices\": [").unwrap() + 12;
    let ch: Vec<u64> = txt[s..].split(']').next().unwrap().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let f = p.parts.iter().find(|x| x.name == part).expect("part").f;
    let (m, desc, _) = eval(f, ch);
    println!("{desc}");
    match m {
        Some(m) => {
            println!("{m}\nVIOLATION property={} replay={path}", p.id);
            1
        }
        None => {
            println!("replayed case passes");
            0
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
