//! Generation from recorded choice sequences, shrinking, running, evidence.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use serde::{de::DeserializeOwned, Deserialize, Serialize};

// ---------------------------------------------------------------- randomness

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

/// Reads JSON of any depth, as a case may be deep.
pub fn parse_json<T: serde::de::DeserializeOwned>(text: &[u8]) -> serde_json::Result<T> {
    let mut d = serde_json::Deserializer::from_slice(text);
    d.disable_recursion_limit();
    let v = T::deserialize(&mut d)?;
    d.end()?;
    Ok(v)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    let mut r = Rng(h);
    r.next()
}

/// A source of choices. `0` is always the simplest choice.
pub struct Src<'a> {
    pre: &'a [u64],
    pos: usize,
    rng: Option<Rng>,
    bytes: Option<&'a [u8]>,
    pub rec: Vec<u64>,
}

impl<'a> Src<'a> {
    pub fn random(seed: u64) -> Src<'static> {
        Src { pre: &[], pos: 0, rng: Some(Rng::new(seed)), bytes: None, rec: vec![] }
    }
    pub fn replay(pre: &'a [u64]) -> Src<'a> {
        Src { pre, pos: 0, rng: None, bytes: None, rec: vec![] }
    }
    pub fn from_bytes(bytes: &'a [u8]) -> Src<'a> {
        Src { pre: &[], pos: 0, rng: None, bytes: Some(bytes), rec: vec![] }
    }

    /// Draws a number in `0..=max`.
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = if self.pos < self.pre.len() {
            let v = self.pre[self.pos];
            self.pos += 1;
            if v > max { if max == u64::MAX { v } else { v % (max + 1) } } else { v }
        } else if let Some(rng) = &mut self.rng {
            let v = rng.next();
            if max == u64::MAX { v } else { ((v as u128 * (max as u128 + 1)) >> 64) as u64 }
        } else if let Some(bytes) = &mut self.bytes {
            let n = if max < 1 << 8 { 1 } else if max < 1 << 16 { 2 } else if max < 1 << 32 { 4 } else { 8 };
            let mut v = 0u64;
            for i in 0..n {
                v |= (bytes.get(i).copied().unwrap_or(0) as u64) << (8 * i);
            }
            *bytes = &bytes[n.min(bytes.len())..];
            if max == u64::MAX { v } else { v % (max + 1) }
        } else {
            0
        };
        self.rec.push(v);
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { self.draw(n as u64 - 1) as usize }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.draw((hi - lo) as u64) as i64 }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    /// True with probability `num/den`; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den - 1) >= den - num }
    pub fn bool(&mut self) -> bool { self.draw(1) == 1 }
    pub fn u64(&mut self) -> u64 { self.draw(u64::MAX) }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.below(xs.len()); xs[i].clone() }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total - 1);
        for (i, w) in ws.iter().enumerate() {
            if v < *w { return i }
            v -= w;
        }
        unreachable!()
    }
    /// A list with an average of roughly `avg` elements, at most `max`.
    pub fn vec<T>(&mut self, min: usize, max: usize, avg: usize, mut f: impl FnMut(&mut Src<'a>) -> T) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max {
            if out.len() >= min && self.draw(avg as u64) == 0 { break }
            out.push(f(self));
        }
        out
    }
}

// ------------------------------------------------------------------ contexts

pub struct Cx {
    pub nontrivial: bool,
    pub evals: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub scratch: PathBuf,
    counting: bool,
}

impl Cx {
    pub fn class(&mut self, name: &'static str) {
        if self.counting { *self.classes.entry(name).or_insert(0) += 1; }
    }
    pub fn class_if(&mut self, c: bool, name: &'static str) { if c { self.class(name) } }
    /// Marks the case as non-trivial.
    pub fn hit(&mut self, c: bool) { if c { self.nontrivial = true } }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } }
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) }
    }}
}

// -------------------------------------------------------------------- checks

pub trait DynSub: Sync {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: &str) -> u64;
    fn rule(&self) -> &'static str;
    fn run_shard(&self, job: &Job) -> SubResult;
    fn replay(&self, case: &serde_json::Value, scratch: &Path) -> Outcome;
    fn fuzz(&self, bytes: &[u8], scratch: &Path) -> Option<(String, serde_json::Value)>;
}

pub struct Sub<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub gen: fn(&mut Src) -> C,
    pub check: fn(&C, &mut Cx) -> Outcome,
}

pub struct Property {
    pub id: &'static str,
    pub subs: Vec<Box<dyn DynSub>>,
    pub assumptions: &'static [&'static str],
}

pub struct Job {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub scratch: PathBuf,
    pub journal: Option<PathBuf>,
    pub replay_dir: PathBuf,
}

#[derive(Default, Serialize, Deserialize)]
pub struct SubResult {
    pub name: String,
    pub evaluations: u64,
    pub hashes: Vec<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub violation: Option<Violation>,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Violation {
    pub message: String,
    pub replay: PathBuf,
    pub size: usize,
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub sub: String,
    pub message: String,
    pub seed: u64,
    pub case: serde_json::Value,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Set to silence panics on every thread (used by checks that spawn threads).
pub static QUIET_ALL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| q.get()) || QUIET_ALL.load(std::sync::atomic::Ordering::Relaxed);
        if quiet {
            let msg = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = msg);
        } else {
            old(info)
        }
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|e: Box<dyn Any + Send>| {
        let m = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
        if !m.is_empty() { return m.replace('\n', " ") }
        e.downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into())
    })
}

impl<C: Serialize + DeserializeOwned + Clone + Debug + 'static> Sub<C> {
    fn cx(scratch: &Path, counting: bool) -> Cx {
        Cx { nontrivial: false, evals: 1, classes: BTreeMap::new(), scratch: scratch.into(), counting }
    }

    fn exec(&self, case: &C, cx: &mut Cx) -> Outcome {
        match guard(|| (self.check)(case, cx)) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {}", p)),
        }
    }

    fn try_choices(&self, choices: &[u64], scratch: &Path) -> Option<(Vec<u64>, C, String)> {
        let mut src = Src::replay(choices);
        let case = match guard(|| (self.gen)(&mut src)) { Ok(c) => c, Err(_) => return None };
        let mut cx = Self::cx(scratch, false);
        match self.exec(&case, &mut cx) {
            Ok(()) => None,
            Err(m) => {
                let mut rec = src.rec;
                while rec.last() == Some(&0) { rec.pop(); }
                Some((rec, case, m))
            }
        }
    }

    fn shrink(&self, first: (Vec<u64>, C, String), scratch: &Path) -> (Vec<u64>, C, String) {
        let deadline = Instant::now() + Duration::from_secs(40);
        let mut best = first;
        let mut budget = 6000i64;
        let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
        macro_rules! attempt {
            ($c:expr) => {{
                budget -= 1;
                if budget < 0 || Instant::now() > deadline { return best }
                match self.try_choices(&$c, scratch) {
                    Some(r) if better(&r.0, &best.0) => { best = r; true }
                    _ => false,
                }
            }}
        }

        loop {
            let before = best.0.clone();
            // Delete chunks.
            for size in [64usize, 32, 16, 8, 5, 4, 3, 2, 1] {
                let mut i = best.0.len();
                while i > 0 {
                    i = i.min(best.0.len());
                    if i < size { break }
                    let start = i - size;
                    let mut c = best.0.clone();
                    c.drain(start..i);
                    if !attempt!(c) { i -= 1 } else { i = start.min(best.0.len()) + size.min(best.0.len().saturating_sub(start)) }
                }
            }
            // Zero chunks, then reduce single values.
            for size in [8usize, 4, 2, 1] {
                let mut i = 0;
                while i + size <= best.0.len() {
                    if best.0[i..i + size].iter().any(|v| *v != 0) {
                        let mut c = best.0.clone();
                        c[i..i + size].iter_mut().for_each(|v| *v = 0);
                        attempt!(c);
                    }
                    i += size;
                }
            }
            let mut i = 0;
            while i < best.0.len() {
                let (mut lo, mut hi) = (0u64, best.0[i]);
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.0.clone();
                    if i >= c.len() { break }
                    c[i] = mid;
                    if attempt!(c) { hi = mid } else { lo = mid + 1 }
                }
                i += 1;
            }
            if best.0 == before { return best }
        }
    }

    fn write_replay(&self, job: &Job, case: &serde_json::Value, message: &str) -> PathBuf {
        let file = ReplayFile {
            property: job.property.clone(), sub: self.name.into(), message: message.into(),
            seed: job.seed, case: case.clone(),
        };
        let _ = std::fs::create_dir_all(&job.replay_dir);
        let path = job.replay_dir.join(format!("{}-{}-{}.json", job.property, self.name, job.shard));
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("write replay");
        path
    }
}

impl<C: Serialize + DeserializeOwned + Clone + Debug + 'static> DynSub for Sub<C> {
    fn name(&self) -> &'static str { self.name }
    fn rule(&self) -> &'static str { self.rule }
    fn cases(&self, tier: &str) -> u64 { if tier == "thorough" { self.thorough } else { self.quick } }

    fn run_shard(&self, job: &Job) -> SubResult {
        let total = self.cases(&job.tier);
        let n = total / job.shards + u64::from(job.shard < total % job.shards);
        let base = fnv(format!("{}/{}/{}/{}", job.seed, job.property, self.name, job.shard).as_bytes());
        let mut out = SubResult { name: self.name.into(), ..Default::default() };
        let mut seen: HashSet<u64> = HashSet::new();
        let mut seeds = Rng::new(base);
        let watch = Watch::start(job, self.name, self.gen);
        for _ in 0..n {
            let seed = seeds.next();
            watch.now(Some(seed));
            let mut src = Src::random(seed);
            let case = (self.gen)(&mut src);
            if let Some(j) = &job.journal {
                let file = ReplayFile {
                    property: job.property.clone(), sub: self.name.into(),
                    message: "the process died".into(), seed: job.seed,
                    case: serde_json::to_value(&case).unwrap(),
                };
                std::fs::write(j, serde_json::to_vec(&file).unwrap()).expect("journal");
            }
            let mut cx = Self::cx(&job.scratch, true);
            let r = self.exec(&case, &mut cx);
            out.evaluations += cx.evals;
            for (k, v) in cx.classes { *out.classes.entry(k.into()).or_insert(0) += v; }
            if cx.nontrivial && r.is_ok() {
                let json = serde_json::to_vec(&case).expect("case serializes");
                if seen.insert(fnv(&json)) && out.samples.len() < 2 && json.len() < 3000 {
                    out.samples.push(parse_json(&json).unwrap());
                }
            }
            if let Err(m) = r {
                watch.now(None);
                let rec = std::mem::take(&mut src.rec);
                let (_, case, m) = self.shrink((rec, case, m), &job.scratch);
                let json = serde_json::to_value(&case).expect("case serializes");
                // The replay file must reproduce on its own.
                let m2 = self.replay(&json, &job.scratch).err();
                let note = if m2.is_none() { " (not reproduced from the replay file)" } else { "" };
                let message = format!("{}{}", m, note);
                let replay = self.write_replay(job, &json, &message);
                out.violation = Some(Violation { message, replay, size: json.to_string().len() });
                break;
            }
        }
        watch.now(None);
        out.hashes = seen.into_iter().collect();
        out
    }

    fn replay(&self, case: &serde_json::Value, scratch: &Path) -> Outcome {
        // Through text: exactly what a replay file holds.
        let text = case.to_string();
        let case: C = parse_json(text.as_bytes()).map_err(|e| format!("bad replay case: {e}"))?;
        let mut cx = Self::cx(scratch, false);
        self.exec(&case, &mut cx)
    }

    fn fuzz(&self, bytes: &[u8], scratch: &Path) -> Option<(String, serde_json::Value)> {
        let mut src = Src::from_bytes(bytes);
        let case = (self.gen)(&mut src);
        let mut cx = Self::cx(scratch, false);
        match self.exec(&case, &mut cx) {
            Ok(()) => None,
            Err(_) => {
                let rec = std::mem::take(&mut src.rec);
                let m = self.exec(&case, &mut Self::cx(scratch, false)).err()?;
                let (_, case, m) = self.shrink((rec, case, m), scratch);
                Some((m, serde_json::to_value(&case).unwrap()))
            }
        }
    }
}

// ------------------------------------------------------------------ watchdog

/// Reports a case that does not come to an end.
struct Watch(std::sync::Arc<std::sync::Mutex<(Option<u64>, Instant)>>);

const HANG: Duration = Duration::from_secs(150);
const HUNG: i32 = 3;

impl Watch {
    fn start<C: Serialize + 'static>(job: &Job, sub: &'static str, gen: fn(&mut Src) -> C) -> Watch {
        let cell = std::sync::Arc::new(std::sync::Mutex::new((None, Instant::now())));
        let (c, property, seed, shard, dir) = (cell.clone(), job.property.clone(), job.seed, job.shard, job.replay_dir.clone());
        std::thread::Builder::new().stack_size(512 << 20).spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            // The checking thread has ended.
            if std::sync::Arc::strong_count(&c) == 1 { return }
            let (now, since): (Option<u64>, Instant) = *c.lock().unwrap();
            let Some(choices) = now else { continue };
            if since.elapsed() < HANG { continue }
            let case = serde_json::to_value(gen(&mut Src::random(choices))).expect("case serializes");
            let message = format!("did not come to an end within {HANG:?}");
            let file = ReplayFile { property: property.clone(), sub: sub.into(), message, seed, case };
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{property}-hang-{shard}.json"));
            std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("write replay");
            std::process::exit(HUNG);
        }).expect("watchdog");
        Watch(cell)
    }
    fn now(&self, choices: Option<u64>) { *self.0.lock().unwrap() = (choices, Instant::now()); }
}

// ------------------------------------------------- an unprivileged process

/// What the unprivileged process answers.
#[derive(Serialize, Deserialize)]
struct Answer { outcome: Outcome, nontrivial: bool, evals: u64, classes: BTreeMap<String, u64> }

struct Remote { kid: std::process::Child, lines: std::sync::mpsc::Receiver<String>, area: PathBuf }

impl Drop for Remote {
    fn drop(&mut self) {
        let _ = self.kid.kill();
        let _ = self.kid.wait();
        let _ = std::fs::remove_dir_all(&self.area);
    }
}

thread_local!(static REMOTE: RefCell<Option<Remote>> = const { RefCell::new(None) });

const NOBODY: u32 = 65534;

impl Remote {
    fn start(scratch: &Path) -> std::io::Result<Remote> {
        use std::io::BufRead;
        use std::os::unix::fs::{chown, PermissionsExt};
        use std::os::unix::process::CommandExt;
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let area = scratch.join(format!("area{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&area)?;
        let exe = scratch.join("figcheck-remote");
        if !exe.exists() {
            std::fs::copy(std::env::current_exe()?, &exe)?;
            std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755))?;
        }
        let root = unsafe { libc::geteuid() } == 0;
        if root { chown(&area, Some(NOBODY), Some(NOBODY))?; }
        std::fs::set_permissions(&area, std::fs::Permissions::from_mode(0o700))?;
        let spawn = |exe: &Path| {
            let mut c = std::process::Command::new(exe);
            c.arg("remote").arg(&area).env_clear().current_dir("/").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
            if root { c.uid(NOBODY).gid(NOBODY); }
            c.spawn()
        };
        // Programs in the scratch directory may not be allowed to run.
        let mut kid = spawn(&exe).or_else(|_| spawn(&std::env::current_exe()?))?;
        let out = kid.stdout.take().unwrap();
        let (tx, lines) = std::sync::mpsc::channel();
        std::thread::spawn(move || for l in std::io::BufReader::new(out).lines() { match l { Ok(l) => if tx.send(l).is_err() { return }, Err(_) => return } });
        Ok(Remote { kid, lines, area })
    }
}

/// Runs `checks::remote(name)` on the case in a process of an unprivileged
/// user, which can write to a scratch directory of its own only.
pub fn remote<C: Serialize>(name: &str, case: &C, cx: &mut Cx) -> Outcome {
    let line = serde_json::to_string(&(name, case)).expect("case serializes");
    let mut r = match REMOTE.with(|r| r.borrow_mut().take()) {
        Some(r) => r,
        None => Remote::start(&cx.scratch).expect("starting an unprivileged process"),
    };
    let sent = writeln!(r.kid.stdin.as_mut().unwrap(), "{line}").and_then(|_| r.kid.stdin.as_mut().unwrap().flush());
    if sent.is_err() { return Err("the unprivileged process died".into()) }
    match r.lines.recv_timeout(Duration::from_secs(30)) {
        Ok(l) => {
            let a: Answer = parse_json(l.as_bytes()).expect("answer");
            REMOTE.with(|x| *x.borrow_mut() = Some(r));
            cx.nontrivial |= a.nontrivial;
            cx.evals = a.evals;
            for (k, v) in a.classes { if cx.counting { *cx.classes.entry(Box::leak(k.into_boxed_str())).or_insert(0) += v; } }
            a.outcome
        }
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err("no answer within 30 s: blocked".into()),
        Err(_) => { let st = r.kid.wait(); Err(format!("the process died: {}", st.map(|s| s.to_string()).unwrap_or_default())) }
    }
}

/// The unprivileged process.
pub fn serve(area: &Path, table: fn(&str, serde_json::Value, &mut Cx) -> Outcome) -> i32 {
    use std::io::BufRead;
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return 0 };
        let (name, case): (String, serde_json::Value) = parse_json(line.as_bytes()).expect("case");
        let mut cx = Cx { nontrivial: false, evals: 1, classes: BTreeMap::new(), scratch: area.into(), counting: true };
        let outcome = match guard(|| table(&name, case, &mut cx)) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) };
        let a = Answer { outcome, nontrivial: cx.nontrivial, evals: cx.evals, classes: cx.classes.into_iter().map(|(k, v)| (k.to_string(), v)).collect() };
        println!("{}", serde_json::to_string(&a).unwrap());
    }
    0
}

// ----------------------------------------------------------------- processes

pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().expect("worker thread")
}

pub struct Dirs { pub root: PathBuf }

impl Dirs {
    pub fn get() -> Dirs {
        let root = std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| "/verif".into());
        Dirs { root }
    }
    pub fn replays(&self) -> PathBuf { self.root.join("evidence/replays") }
}

/// A new directory, in memory where that is possible.
pub fn scratch_dir(name: &str) -> std::io::Result<PathBuf> {
    let shm = Path::new("/dev/shm").join(name);
    if std::fs::create_dir(&shm).is_ok() { return Ok(shm) }
    let dir = std::env::temp_dir().join(name);
    std::fs::create_dir_all(&dir)?;
    Ok(dir)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}

const SHARDS: u64 = 8;

pub fn worker(prop: &Property, args: &[String]) -> i32 {
    // args: id tier seed shard shards scratch out [journal]
    let job = Job {
        property: prop.id.into(), tier: args[1].clone(), seed: args[2].parse().unwrap(),
        shard: args[3].parse().unwrap(), shards: args[4].parse().unwrap(),
        scratch: PathBuf::from(&args[5]), journal: args.get(7).map(PathBuf::from),
        replay_dir: Dirs::get().replays(),
    };
    std::fs::create_dir_all(&job.scratch).expect("scratch");
    let results: Vec<SubResult> = prop.subs.iter().map(|s| s.run_shard(&job)).collect();
    std::fs::write(&args[6], serde_json::to_vec(&results).unwrap()).expect("write result");
    0
}

fn spawn(args: &[String]) -> std::process::Child {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(args).spawn().expect("spawn worker")
}

fn wait_all(mut kids: Vec<(u64, std::process::Child)>, limit: Duration) -> Result<Vec<(u64, std::process::ExitStatus)>, String> {
    let start = Instant::now();
    let mut done = vec![];
    while !kids.is_empty() {
        let mut i = 0;
        while i < kids.len() {
            match kids[i].1.try_wait().map_err(|e| e.to_string())? {
                Some(st) => { let (s, _) = kids.remove(i); done.push((s, st)); }
                None => i += 1,
            }
        }
        if start.elapsed() > limit {
            for (_, k) in kids.iter_mut() { let _ = k.kill(); let _ = k.wait(); }
            return Err(format!("{} worker(s) did not finish within {:?}", kids.len(), limit));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    Ok(done)
}

pub struct Known { pub property: String, pub replay: PathBuf, pub what: String }

pub fn known(dirs: &Dirs, id: &str) -> Vec<Known> {
    let text = std::fs::read_to_string(dirs.root.join("known_findings.txt")).unwrap_or_default();
    text.lines().filter_map(|l| {
        let rest = l.strip_prefix("known: property=")?;
        let (prop, rest) = rest.split_once(' ')?;
        let (replay, what) = rest.strip_prefix("replay=")?.split_once(' ')?;
        (prop == id).then(|| Known { property: prop.into(), replay: dirs.root.join(replay), what: what.into() })
    }).collect()
}

pub fn replay_file(props: &[Property], path: &Path, scratch: &Path) -> Result<Outcome, String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
    let file: ReplayFile = parse_json(text.as_bytes()).map_err(|e| format!("{}: {e}", path.display()))?;
    let prop = props.iter().find(|p| p.id == file.property).ok_or("unknown property")?;
    let sub = prop.subs.iter().find(|s| s.name() == file.sub).ok_or_else(|| format!("unknown sub {}", file.sub))?;
    Ok(sub.replay(&file.case, scratch))
}

fn run_replay_process(path: &Path) -> Result<std::process::ExitStatus, String> {
    let kid = spawn(&["replay-quiet".into(), path.display().to_string()]);
    Ok(wait_all(vec![(0, kid)], Duration::from_secs(120))?[0].1)
}

pub fn run(prop: &Property) -> i32 {
    match run_inner(prop) {
        Ok(code) => code,
        Err(e) => { eprintln!("ERROR property={} {}", prop.id, e); 2 }
    }
}

fn run_inner(prop: &Property) -> Result<i32, String> {
    let start = Instant::now();
    let dirs = Dirs::get();
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| t == "thorough").unwrap_or_else(|| "quick".into());
    let seed = seed();
    let scratch = scratch_dir(&format!("figcheck-{}-{}", prop.id, std::process::id())).map_err(|e| e.to_string())?;
    struct Cleanup(PathBuf);
    impl Drop for Cleanup { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    let _cleanup = Cleanup(scratch.clone());
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::set_permissions(&scratch, std::fs::Permissions::from_mode(0o755));
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 800 });

    let mut violations: Vec<Violation> = vec![];
    let mut known_failing = 0;

    // Committed regressions, then known findings.
    let mut regressions = 0u64;
    if let Ok(rd) = std::fs::read_dir(dirs.root.join("regressions")) {
        let mut files: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        files.sort();
        for f in files {
            let name = f.file_name().unwrap().to_string_lossy().to_string();
            if !name.starts_with(&format!("{}-", prop.id)) || !name.ends_with(".json") { continue }
            regressions += 1;
            let st = run_replay_process(&f)?;
            match st.code() {
                Some(0) => {}
                Some(2) => return Err(format!("regression {} could not be replayed", f.display())),
                _ => violations.push(Violation { message: "regression fails".into(), replay: f, size: 0 }),
            }
        }
    }
    for k in known(&dirs, prop.id) {
        let st = run_replay_process(&k.replay)?;
        match st.code() {
            Some(1) => {
                known_failing += 1;
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
            Some(0) => println!("note: known finding no longer fails: property={} {}", k.property, k.what),
            _ => return Err(format!("known finding {} could not be replayed", k.replay.display())),
        }
    }

    let mk_args = |shard: u64, journal: bool| {
        let sdir = scratch.join(format!("w{shard}"));
        let mut a = vec![
            "worker".to_string(), prop.id.into(), tier.clone(), seed.to_string(), shard.to_string(),
            SHARDS.to_string(), sdir.display().to_string(),
            scratch.join(format!("out{shard}.json")).display().to_string(),
        ];
        if journal { a.push(scratch.join(format!("journal{shard}.json")).display().to_string()); }
        a
    };

    let kids = (0..SHARDS).map(|s| (s, spawn(&mk_args(s, false)))).collect();
    let done = wait_all(kids, limit)?;
    let mut results: Vec<SubResult> = vec![];
    for (shard, st) in done {
        use std::os::unix::process::ExitStatusExt;
        if st.success() {
            let bytes = std::fs::read(scratch.join(format!("out{shard}.json"))).map_err(|e| e.to_string())?;
            results.extend(parse_json::<Vec<SubResult>>(&bytes).map_err(|e| e.to_string())?);
            continue;
        }
        if st.code() == Some(HUNG) {
            let replay = dirs.replays().join(format!("{}-hang-{}.json", prop.id, shard));
            violations.push(Violation { message: format!("a case did not come to an end within {HANG:?}"), replay, size: 0 });
            continue;
        }
        match st.signal() {
            Some(libc::SIGSEGV) | Some(libc::SIGABRT) | Some(libc::SIGBUS) | Some(libc::SIGILL) => {
                // The code under test brought the process down: find the case.
                let j = scratch.join(format!("journal{shard}.json"));
                let again = wait_all(vec![(shard, spawn(&mk_args(shard, true)))], limit)?[0].1;
                if again.signal().is_none() {
                    return Err(format!("worker {shard} died with {st} but not when repeated ({again})"));
                }
                std::fs::create_dir_all(dirs.replays()).map_err(|e| e.to_string())?;
                let replay = dirs.replays().join(format!("{}-crash-{}.json", prop.id, shard));
                std::fs::copy(&j, &replay).map_err(|e| format!("journal: {e}"))?;
                let st = run_replay_process(&replay)?;
                if st.signal().is_some() {
                    violations.push(Violation { message: format!("process died: {st}"), replay, size: 0 });
                } else {
                    return Err(format!("worker {shard} died with {again}; its last case does not reproduce it"));
                }
            }
            _ => return Err(format!("worker {shard} failed: {st}")),
        }
    }

    let mut evaluations = regressions;
    let mut distinct: HashSet<(String, u64)> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut per_sub: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut sampled: BTreeMap<String, usize> = BTreeMap::new();
    for r in &results {
        evaluations += r.evaluations;
        *per_sub.entry(r.name.clone()).or_insert(0) += r.evaluations;
        distinct.extend(r.hashes.iter().map(|h| (r.name.clone(), *h)));
        for (k, v) in &r.classes { *classes.entry(format!("{}: {}", r.name, k)).or_insert(0) += v; }
        for s in &r.samples {
            let n = sampled.entry(r.name.clone()).or_insert(0);
            if *n < 3 { *n += 1; samples.push(serde_json::json!({"sub": r.name, "case": s})); }
        }
        violations.extend(r.violation.clone());
    }

    // One report per sub-check: the smallest reproduction.
    violations.sort_by_key(|v| v.size);
    let mut reported: Vec<Violation> = vec![];
    let mut seen_subs = HashSet::new();
    for v in violations {
        let name = v.replay.file_stem().unwrap().to_string_lossy().to_string();
        let key = name.rsplit_once('-').map(|x| x.0.to_string()).unwrap_or(name);
        if seen_subs.insert(key) { reported.push(v) }
    }

    let rules: Vec<String> = prop.subs.iter().map(|s| format!("[{}] {}", s.name(), s.rule())).collect();
    let evidence = serde_json::json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": rules.join(" "),
            "samples": samples,
            "evaluations_per_subcheck": per_sub,
            "classes": classes,
            "regressions_replayed": regressions,
            "known_findings_failing": known_failing,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": reported.len(),
    });
    std::fs::create_dir_all(dirs.root.join("evidence")).map_err(|e| e.to_string())?;
    let mut f = std::fs::File::create(dirs.root.join(format!("evidence/{}.json", prop.id))).map_err(|e| e.to_string())?;
    f.write_all(serde_json::to_string_pretty(&evidence).unwrap().as_bytes()).map_err(|e| e.to_string())?;

    println!("{}: {} evaluations, {} distinct non-trivial, {:.1}s", prop.id, evaluations, distinct.len(), start.elapsed().as_secs_f64());
    for v in &reported {
        println!("  {}", v.message.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", prop.id, v.replay.display());
    }
    if reported.is_empty() && distinct.is_empty() { return Err("no non-trivial case was generated".into()) }
    Ok(if reported.is_empty() { 0 } else { 1 })
}

/// A file name, with a byte that is not UTF-8 for each '\u{E0FF}'.
pub fn raw(s: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut out = vec![];
    for c in s.chars() {
        if c == '\u{E0FF}' { out.push(0xFF) } else { out.extend(c.encode_utf8(&mut [0; 4]).as_bytes()) }
    }
    std::ffi::OsString::from_vec(out)
}
