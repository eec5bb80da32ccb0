//! A jail restores environment and directory on every exit and excludes others.

use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

use crate::core::*;
use crate::gen::*;
use figment::Jail;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Set(usize, String),
    /// This many variables.
    SetMany(usize),
    /// A name or value the system does not allow: the call panics.
    SetBad(usize),
    /// The value panics when displayed.
    SetPanics(usize),
    Clear,
    /// Not through the jail: a variable the jail does not touch.
    Direct(usize, Option<String>),
    File(String, Vec<u8>), Dir(String), Cd(String), CdHome,
    /// Not through the jail.
    CdOut, SelfDestruct, Link, CdGone,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End { Ok, Err(String), Question, Panic(String), PanicNumber, PanicInThread }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Jailed { steps: Vec<Step>, end: End, expect: bool, temp: Temp }

/// Where temporary directories go.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Temp { Plain, Link, Missing, Relative }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    before: Vec<(usize, Vec<u8>)>, cwd: usize, jails: Vec<Jailed>,
    /// There is also a variable whose name is not UTF-8.
    #[serde(default)] odd: bool,
}

const NAMES: &[&str] = &["A", "B", "FIG_X", "PATH", "a", "ünï", "A B", "A.B", "HOME", "x-y", "_", "FIG_Y", "TMPDIR"];
const BAD: &[&str] = &["", "A=B", "=", "A\0B", "\0"];

fn value(s: &mut Src) -> String { match s.below(4) { 0 => String::new(), 1 => s.pick(&["1", "x=y", " ", "ä", "a\nb"]).into(), _ => string(s).replace('\0', "") } }

/// A value, often almost the one the variable had before.
fn near(s: &mut Src, was: &[u8]) -> String {
    let text = String::from_utf8_lossy(was).into_owned();
    match s.below(7) {
        0 | 1 => text,
        2 => text.to_uppercase(),
        3 => text.trim().into(),
        4 => { let mut t = text; t.pop(); t }
        5 => text + " ",
        _ => text.chars().rev().collect(),
    }
}

fn gen(s: &mut Src) -> Case {
    let before = s.vec(0, 6, 3, |s| (s.below(NAMES.len() - 1), if s.chance(1, 6) { s.pick(&[&b"\xffx\xfe"[..], b"a\xff", b"\x80"]).to_vec() } else { value(s).into_bytes() }));
    let jails = s.vec(1, 5, 2, |s| Jailed {
        steps: s.vec(0, 14, 5, |s| match s.weighted(&[8, 1, 1, 3, 2, 3, 2, 2, 1, 1, 1, 1, 1]) {
            0 if !before.is_empty() && s.chance(1, 3) => { let (i, v) = s.pick(&before); let v = near(s, &v); Step::Set(i, v) }
            0 if s.chance(1, 80) => Step::SetMany(s.pick(&[33, 65, 100, 129, 257])),
            0 => Step::Set(s.below(NAMES.len()), value(s)),
            1 => Step::SetBad(s.below(BAD.len() + 1)),
            2 => Step::SetPanics(s.below(NAMES.len())),
            3 => Step::Clear,
            4 => Step::Direct(s.below(3), if s.bool() { Some(value(s)) } else { None }),
            5 => Step::File(s.pick(&["f", "d/g", "../f", "e/f/g", "ä"]).into(), s.vec(0, 5, 2, |s| s.draw(255) as u8)),
            6 => Step::Dir(s.pick(&["d", "d/e", "e/f/g/h", "../x", "d/.."]).into()),
            7 => Step::Cd(s.pick(&["d", "d/e", "..", ".", "e/f", "/"]).into()),
            8 => Step::CdHome, 9 => Step::CdOut, 10 => Step::SelfDestruct, 11 => Step::CdGone, _ => Step::Link,
        }),
        end: match s.weighted(&[4, 3, 1, 3, 1, 1]) {
            0 => End::Ok, 1 => End::Err(value(s)), 2 => End::Question, 3 => End::Panic(value(s)), 4 => End::PanicNumber, _ => End::PanicInThread,
        },
        expect: s.bool(),
        temp: s.pick(&[Temp::Plain, Temp::Plain, Temp::Plain, Temp::Link, Temp::Missing, Temp::Relative]),
    });
    Case { before, cwd: s.below(3), jails, odd: s.chance(1, 4) }
}

type Env = BTreeMap<OsString, OsString>;

fn env() -> Env { std::env::vars_os().collect() }

struct Panics;
impl std::fmt::Display for Panics { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { panic!("display") } }

/// All files and directories below, links not followed.
fn tree(p: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let m = e.path().symlink_metadata();
        let is_dir = m.map(|m| m.is_dir()).unwrap_or(false);
        out.insert(e.path(), if is_dir { None } else { Some(std::fs::read(e.path()).unwrap_or_default()) });
        if is_dir { tree(&e.path(), out) }
    }
}

pub fn inside(c: &Case, cx: &mut Cx) -> Outcome {
    let area = cx.scratch.clone();
    let work = area.join("c18");
    let _ = std::fs::remove_dir_all(&work);
    for d in ["tmp", "home", "home/deep", "out"] { std::fs::create_dir_all(work.join(d)).unwrap() }
    std::fs::write(work.join("out/keep"), "keep").unwrap();
    std::os::unix::fs::symlink(work.join("tmp"), work.join("tmplink")).unwrap();
    for (k, _) in env() { std::env::remove_var(k) }
    for (i, v) in &c.before { std::env::set_var(NAMES[*i], OsStr::from_bytes(v)) }
    if c.odd { std::env::set_var(OsStr::from_bytes(b"N\xff"), OsStr::from_bytes(b"\xfe")) }
    std::env::set_current_dir(&work).unwrap();
    let cwd = work.join(["home", "home/deep", "."][c.cwd]);
    std::env::set_current_dir(&cwd).unwrap();
    let result = jails(c, cx, &work);
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&work);
    result
}

fn jails(c: &Case, cx: &mut Cx, work: &Path) -> Outcome {
    for (i, j) in c.jails.iter().enumerate() {
        std::env::set_var("TMPDIR", match j.temp {
            Temp::Plain => work.join("tmp"), Temp::Link => work.join("tmplink"), Temp::Missing => work.join("no such"),
            Temp::Relative => { if !std::env::current_dir().unwrap().join("rel").is_dir() { std::fs::create_dir("rel").unwrap() } "rel".into() }
        });
        one(j, cx, work).map_err(|e| format!("jail {i}: {e}"))?;
    }
    Ok(())
}

fn one(j: &Jailed, cx: &mut Cx, work: &Path) -> Outcome {
    let before = env();
    let cwd = std::env::current_dir().unwrap();
    let mut files = BTreeMap::new();
    tree(work, &mut files);
    // What should be: updated as the jail runs.
    let problem = std::cell::RefCell::new(None::<String>);
    let fail = |m: String| { problem.borrow_mut().get_or_insert(m); };
    let directory = std::cell::RefCell::new(None::<PathBuf>);
    let mut directs: Vec<&str> = vec![];
    let (mut touched, mut entered, mut bad) = (0, false, false);
    let body = |jail: &mut Jail| -> figment::error::Result<()> {
        entered = true;
        *directory.borrow_mut() = Some(jail.directory().to_path_buf());
        let mut now = env();
        if now != before { fail(format!("entering the jail changed the environment from {before:?} to {now:?}")) }
        if std::env::current_dir().ok().as_deref() != Some(jail.directory()) { fail(format!("the jail starts in {:?}, its directory is {:?}", std::env::current_dir(), jail.directory())) }
        if std::fs::read_dir(jail.directory()).map(|d| d.count()).ok() != Some(0) { fail("the jail's directory is not an empty directory".into()) }
        for st in &j.steps {
            match st {
                Step::Set(i, v) => { jail.set_env(NAMES[*i], v); now.insert(NAMES[*i].into(), v.into()); touched += 1; }
                Step::SetMany(n) => for i in 0..*n { let (k, v) = (format!("MANY_{i}"), i.to_string()); jail.set_env(&k, &v); now.insert(k.into(), v.into()); touched += 1; },
                Step::SetBad(i) => { bad = true; if *i < BAD.len() { jail.set_env(BAD[*i], "v") } else { jail.set_env("OKAY", "v\0w") } }
                Step::SetPanics(i) => { bad = true; jail.set_env(NAMES[*i], Panics) }
                Step::Clear => { jail.clear_env(); now.clear(); touched += 1; }
                Step::Direct(i, v) => {
                    let k = ["DIRECT1", "DIRECT2", "DIRECT3"][*i];
                    directs.push(k);
                    match v { Some(v) => { std::env::set_var(k, v); now.insert(k.into(), v.into()); } None => { std::env::remove_var(k); now.remove(OsStr::new(k)); } }
                }
                Step::File(p, b) => { let _ = jail.create_binary(p, b); }
                Step::Dir(p) => { let _ = jail.create_dir(p); }
                Step::Cd(p) => { let _ = jail.change_dir(p); }
                Step::CdHome => { let _ = jail.change_dir(jail.directory()); }
                // The directory it is in disappears.
                Step::CdGone => { if jail.create_dir("gone/x").is_ok() && jail.change_dir("gone/x").is_ok() { let _ = std::fs::remove_dir(std::env::current_dir().unwrap()); } }
                Step::CdOut => { std::env::set_current_dir(work.join("out")).unwrap(); return Ok(()) }
                Step::SelfDestruct => { std::env::set_current_dir(work).unwrap(); std::fs::remove_dir_all(jail.directory()).unwrap(); return Ok(()) }
                Step::Link => { let _ = std::os::unix::fs::symlink(work.join("out"), jail.directory().join("link")); }
            }
            let real = env();
            if real != now { fail(format!("after {st:?} the environment is {real:?}, expected {now:?}")) }
        }
        match &j.end {
            End::Ok => Ok(()),
            End::Err(m) => Err(m.clone().into()),
            End::Question => { jail.create_file("no/such/dir/f", "x")?; Ok(()) }
            End::Panic(m) => panic!("{}", m),
            End::PanicNumber => std::panic::panic_any(42u8),
            End::PanicInThread => { QUIET_ALL.store(true, Ordering::SeqCst); let r = std::thread::spawn(|| panic!("in a thread")).join(); QUIET_ALL.store(false, Ordering::SeqCst); std::panic::resume_unwind(r.unwrap_err()) }
        }
    };
    enum Left { Returned(Result<(), String>), Panicked(String) }
    let left = match guard(|| if j.expect { Jail::expect_with(body); Ok(()) } else { Jail::try_with(body).map_err(|e| e.to_string()) }) {
        Ok(r) => Left::Returned(r), Err(m) => Left::Panicked(m),
    };
    if let Some(p) = problem.into_inner() { return Err(p) }
    let how = format!("after leaving by {:?}{}", j.end, if entered { "" } else { " (it could not start)" });
    let short = j.steps.iter().any(|s| matches!(s, Step::CdOut | Step::SelfDestruct));
    if entered && !bad && !short {
        match (&left, &j.end, j.expect) {
            (Left::Returned(Ok(())), End::Ok, _) => {}
            (Left::Returned(Err(e)), End::Err(m), false) => ensure!(e == m, "the error {m:?} became {e:?}"),
            (Left::Returned(Err(_)), End::Question, false) => {}
            (Left::Panicked(p), End::Err(m), true) => ensure!(p.replace('\n', " ").contains(&m.replace('\n', " ")), "the panic {p:?} does not say {m:?}"),
            (Left::Panicked(_), End::Question, true) => {}
            (Left::Panicked(_), End::Panic(_) | End::PanicNumber | End::PanicInThread, _) => {}
            (Left::Returned(r), e, x) => return Err(format!("{e:?} (expect: {x}) made the jail return {r:?}")),
            (Left::Panicked(m), e, x) => return Err(format!("{e:?} (expect: {x}) made the jail panic: {m}")),
        }
    }
    // Everything the jail touched is as before; what was changed past it is not its business.
    let drop_direct = |mut e: Env| { for d in &directs { e.remove(OsStr::new(d)); } e };
    let (a, b) = (drop_direct(env()), drop_direct(before.clone()));
    ensure!(a == b, "{how} the environment is {:?}, it was {:?}", show(&a), show(&b));
    for d in &directs { std::env::remove_var(d) }
    ensure!(std::env::current_dir().ok().as_ref() == Some(&cwd), "{how} the directory is {:?}, it was {cwd:?}", std::env::current_dir());
    if let Some(d) = directory.into_inner() { ensure!(d.symlink_metadata().is_err(), "{how} the jail's directory {d:?} is still there"); }
    let mut now = BTreeMap::new();
    tree(work, &mut now);
    ensure!(now == files, "{how} other files changed: {:?}, before: {:?}", now, files);
    cx.hit(touched > 1);
    cx.class(match left { Left::Returned(Ok(())) => "returned", Left::Returned(Err(_)) => "returned an error", Left::Panicked(_) => "panicked" });
    cx.class_if(bad, "a call to the jail panicked");
    cx.class_if(!entered, "could not start");
    Ok(())
}

fn show(e: &Env) -> BTreeMap<String, String> { e.iter().map(|(k, v)| (format!("{k:?}"), format!("{:?}", OsString::from_vec(v.as_bytes().to_vec())))).collect() }

fn check(c: &Case, cx: &mut Cx) -> Outcome { remote("c18", c, cx) }

// ------------------------------------------------------------------- threads

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads { per: Vec<Vec<(u8, u64, bool)>> }

fn gen_threads(s: &mut Src) -> Threads {
    let n = s.size(2, 6);
    Threads { per: (0..n).map(|_| s.vec(1, 5, 3, |s| (s.below(4) as u8, if s.chance(1, 3) { s.draw(300) } else { 0 }, s.bool()))).collect() }
}

pub fn inside_threads(c: &Threads, cx: &mut Cx) -> Outcome {
    let work = cx.scratch.join("c18t");
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(work.join("tmp")).unwrap();
    for (k, _) in env() { std::env::remove_var(k) }
    std::env::set_var("TMPDIR", work.join("tmp"));
    std::env::set_var("SHARED", "before");
    std::env::set_current_dir(&work).unwrap();
    let before = env();
    let running = AtomicUsize::new(0);
    let clash = AtomicBool::new(false);
    let ran = AtomicUsize::new(0);
    let problem = std::sync::Mutex::new(None::<String>);
    let gate = std::sync::Barrier::new(c.per.len());
    QUIET_ALL.store(true, Ordering::SeqCst);
    std::thread::scope(|s| for (t, jails) in c.per.iter().enumerate() {
        let (running, clash, ran, problem, gate) = (&running, &clash, &ran, &problem, &gate);
        s.spawn(move || {
            gate.wait();
            for (i, (end, spin, expect)) in jails.iter().enumerate() {
                let me = format!("{t}-{i}");
                let name = format!("MINE_{t}");
                let body = |jail: &mut Jail| -> figment::error::Result<()> {
                    if running.fetch_add(1, Ordering::SeqCst) != 0 { clash.store(true, Ordering::SeqCst) }
                    struct Leave<'a>(&'a AtomicUsize);
                    impl Drop for Leave<'_> { fn drop(&mut self) { self.0.fetch_sub(1, Ordering::SeqCst); } }
                    let _leave = Leave(running);
                    ran.fetch_add(1, Ordering::SeqCst);
                    let bad = |m: String| { problem.lock().unwrap().get_or_insert(m); };
                    let others: Vec<_> = std::env::vars().filter(|v| v.0.starts_with("MINE_")).collect();
                    if !others.is_empty() { bad(format!("jail {me} starts with another's variables {others:?}")) }
                    if std::env::var("SHARED").as_deref() != Ok("before") { bad(format!("jail {me} starts with SHARED={:?}", std::env::var("SHARED"))) }
                    jail.set_env(&name, &me);
                    jail.set_env("SHARED", &me);
                    jail.create_file("f", &me)?;
                    for _ in 0..*spin { std::thread::yield_now() }
                    if *spin > 250 { std::thread::sleep(std::time::Duration::from_micros(300)) }
                    if std::env::current_dir().ok().as_deref() != Some(jail.directory()) { bad(format!("jail {me} was moved to {:?}", std::env::current_dir())) }
                    if std::env::var("SHARED").as_deref() != Ok(&*me) { bad(format!("in jail {me} another changed SHARED to {:?}", std::env::var("SHARED"))) }
                    if std::fs::read_to_string("f").ok().as_deref() != Some(&*me) { bad(format!("in jail {me} the file holds {:?}", std::fs::read_to_string("f"))) }
                    match end { 0 | 1 => Ok(()), 2 => Err("fails".to_string().into()), _ => panic!("jail {me}") }
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if *expect { Jail::expect_with(body); true } else { Jail::try_with(body).is_ok() }));
                let fine = match end { 0 | 1 => matches!(r, Ok(true)), 2 if *expect => r.is_err(), 2 => matches!(r, Ok(false)), _ => r.is_err() };
                if !fine { problem.lock().unwrap().get_or_insert(format!("jail {me} with end {end} (expect: {expect}) ended otherwise")); }
            }
        });
    });
    QUIET_ALL.store(false, Ordering::SeqCst);
    let total: usize = c.per.iter().map(|j| j.len()).sum();
    let result = (|| {
        if clash.load(Ordering::SeqCst) { return Err("two jails ran at the same time".into()) }
        if let Some(p) = problem.into_inner().unwrap() { return Err(p) }
        ensure!(ran.load(Ordering::SeqCst) == total, "{} of {total} jails ran", ran.load(Ordering::SeqCst));
        ensure!(env() == before, "the environment is {:?}, it was {before:?}", env());
        ensure!(std::env::current_dir().ok().as_ref() == Some(&work), "the directory is {:?}", std::env::current_dir());
        ensure!(std::fs::read_dir(work.join("tmp")).unwrap().count() == 0, "jail directories are left");
        Ok(())
    })();
    cx.hit(total > 2);
    cx.class_if(c.per.iter().flatten().any(|j| j.0 == 3), "a jail panics");
    std::env::set_current_dir("/").unwrap();
    let _ = std::fs::remove_dir_all(&work);
    result
}

fn check_threads(c: &Threads, cx: &mut Cx) -> Outcome { remote("c18-threads", c, cx) }

pub fn property() -> Property {
    Property {
        id: "C18",
        subs: vec![
            Box::new(Sub { name: "sequence", quick: 60_000, thorough: 1_500_000, rule: "the jail sets or clears variables at least twice", gen, check }),
            Box::new(Sub { name: "threads", quick: 6_000, thorough: 150_000, rule: "at least three jails run on several threads", gen: gen_threads, check: check_threads }),
        ],
        assumptions: &[
            "Variables changed inside a jail without going through it are not covered.",
            "Jails are not nested in one thread, which waits for itself.",
            "Thread schedules are sampled, not enumerated.",
        ],
    }
}
