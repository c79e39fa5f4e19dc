//! Drives a property: parallel proptest runners in a supervised worker process, shrinking, replay files, evidence.

use crate::pt::*;
use crate::src::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a case did.
#[derive(Default)]
pub struct Ctx {
    pub tags: Vec<&'static str>,
    pub nontrivial: bool,
    pub hash: u64,
    /// human-readable input of the case
    pub desc: String,
    pub note: Vec<String>,
}
impl Ctx {
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push(t);
    }
    pub fn tag_if(&mut self, c: bool, t: &'static str) {
        if c {
            self.tags.push(t);
        }
    }
    pub fn input(&mut self, s: impl Into<String>) {
        self.desc = s.into();
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.desc.hash(&mut h);
        self.hash = h.finish();
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.note.push(s.into());
    }
}

pub struct Fail {
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}

pub struct Check {
    pub id: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Src, &mut Ctx) -> R,
}

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    static PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}
/// Marks the code under test: a panic inside is the library's.
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            IN_SUT.with(|c| c.set(c.get() - 1));
        }
    }
    IN_SUT.with(|c| c.set(c.get() + 1));
    let _g = G;
    f()
}

pub enum Res {
    Ok,
    Violation(String),
    /// the harness itself failed
    Broken(String),
}

pub fn run_case(c: &Check, src: &mut Src, ctx: &mut Ctx) -> Res {
    PANIC.with(|p| *p.borrow_mut() = None);
    IN_SUT.with(|c| c.set(0));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.run)(src, ctx)));
    match r {
        Ok(Ok(())) => Res::Ok,
        Ok(Err(f)) => Res::Violation(f.msg),
        Err(_) => {
            let (insut, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or((false, "unknown panic".into()));
            if insut { Res::Violation(format!("the library panicked: {msg}")) } else { Res::Broken(msg) }
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let insut = IN_SUT.with(|c| c.get()) > 0;
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut()
                && p.is_none()
            {
                *p = Some((insut, format!("{msg} at {loc}")));
            }
        });
    }));
}

const THREADS: usize = 8;
const SLOT: usize = MAX_CHOICES + 16;

struct Shm {
    base: *mut AtomicU32,
}
unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}
impl Shm {
    fn open(path: &Path) -> Shm {
        use std::os::fd::AsRawFd;
        let len = THREADS * SLOT * 4;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shm file");
        f.set_len(len as u64).unwrap();
        let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED, "mmap");
        Shm { base: p as *mut AtomicU32 }
    }
    fn log(&self, t: usize) -> Log {
        Log { base: unsafe { self.base.add(t * SLOT) }, cap: MAX_CHOICES + 8 }
    }
    fn slot(&self, t: usize) -> Option<Vec<u32>> {
        unsafe {
            let b = self.base.add(t * SLOT);
            if (*b).load(Ordering::SeqCst) != 1 {
                return None;
            }
            let n = (*b.add(1)).load(Ordering::SeqCst) as usize;
            Some((0..n.min(MAX_CHOICES)).map(|i| (*b.add(2 + i)).load(Ordering::Relaxed)).collect())
        }
    }
    /// changes whenever the thread starts a case
    fn beat(&self, t: usize) -> u32 {
        unsafe { (*self.base.add(t * SLOT + MAX_CHOICES + 14)).load(Ordering::SeqCst) }
    }
    fn tick(&self, t: usize) {
        unsafe {
            (*self.base.add(t * SLOT + MAX_CHOICES + 14)).fetch_add(1, Ordering::SeqCst);
        }
    }
}

pub fn known_sites(id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .map(|(_, w)| w.trim().to_string())
        .collect()
}

/// Whether a listed finding still shows on its own input (the line is only printed while it does).
fn finding_stands(id: &str) -> bool {
    if id != "P07" {
        return true;
    }
    // the scale's components have handles of their own: linear for x
    let doc = r#"{"v":"5.5.2","fr":60,"ip":0,"op":60,"w":100,"h":100,"layers":[{"ty":4,"ip":0,"op":60,"st":0,"ks":{"p":{"k":[0,0]},
        "s":{"a":1,"k":[{"t":0,"s":[0,0],"o":{"x":[0,0.9],"y":[0,0]},"i":{"x":[1,1],"y":[1,1]}},{"t":10,"s":[100,100]}]}},
        "shapes":[{"ty":"rc","p":{"k":[0,0]},"s":{"k":[10,10]},"r":{"k":0}},{"ty":"fl","c":{"k":[0,0,0]},"o":{"k":100}}]}]}"#;
    let r = std::panic::catch_unwind(|| {
        let c = velato::Composition::from_slice(doc.as_bytes()).ok()?;
        crate::sink::render(&c, 5.0, kurbo::Affine::IDENTITY, 1.0).into_iter().find_map(|o| match o {
            crate::sink::Op::Draw { xf, .. } => Some(xf.as_coeffs()[0]),
            _ => None,
        })
    });
    !matches!(r, Ok(Some(a)) if (a - 0.5).abs() < 1e-6)
}

pub fn root() -> PathBuf {
    std::env::var_os("VH_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

#[derive(Default)]
struct Acc {
    evals: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    tags: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

enum Out {
    Pass,
    Violation { msg: String, choices: Vec<u32> },
    Broken(String),
}

fn thread_main(c: &'static Check, cases: u32, mini: bool, seed: u64, t: usize, shm: &Shm, acc: &Mutex<Acc>, stop: &AtomicU32) -> Out {
    let log = shm.log(t);
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&(t as u64 + 1).to_le_bytes());
    for (k, b) in c.id.bytes().enumerate() {
        bytes[16 + k % 16] ^= b;
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let cfg = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: if mini { 0 } else { u32::MAX - 1 },
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, rng);
    let broken: RefCell<Option<String>> = RefCell::new(None);
    let last: RefCell<Option<(String, Vec<u32>)>> = RefCell::new(None);
    let local = RefCell::new(Acc::default());
    let res = runner.run(&CaseStrategy, |case: Case| {
        // a lower thread that failed decides the verdict: no need to go on
        if (stop.load(Ordering::Relaxed) as usize) < t {
            return Ok(());
        }
        shm.tick(t);
        log.begin();
        let (mut src, fresh) = match &case.spec {
            Spec::Seed(s) => (Src::random(*s, Some(&log)), true),
            Spec::Choices(v) => (Src::replay(v.clone(), Some(&log)), false),
        };
        let mut ctx = Ctx::default();
        let r = run_case(c, &mut src, &mut ctx);
        log.end();
        *case.used.borrow_mut() = src.rec.clone();
        if fresh {
            let mut l = local.borrow_mut();
            l.evals += 1;
            for t in &ctx.tags {
                *l.tags.entry(t).or_default() += 1;
            }
            if ctx.nontrivial {
                l.nontrivial += 1;
                if l.hashes.len() < 3_000_000 {
                    l.hashes.insert(ctx.hash);
                }
                let n = l.samples.len();
                if n < 2 || (n < 4 && l.evals % 997 == 0) {
                    let s: String = ctx.desc.chars().take(1200).collect();
                    l.samples.push(s);
                }
            }
        }
        match r {
            Res::Ok => Ok(()),
            Res::Violation(m) => {
                stop.fetch_min(t as u32, Ordering::Relaxed);
                *last.borrow_mut() = Some((m.clone(), src.rec.clone()));
                Err(TestCaseError::fail(m))
            }
            Res::Broken(m) => {
                let mut b = broken.borrow_mut();
                if b.is_none() {
                    *b = Some(format!("{m}\nchoices: {:?}", src.rec));
                }
                Ok(())
            }
        }
    });
    {
        let l = local.into_inner();
        let mut a = acc.lock().unwrap();
        a.evals += l.evals;
        a.nontrivial += l.nontrivial;
        a.hashes.extend(l.hashes);
        for (k, v) in l.tags {
            *a.tags.entry(k).or_default() += v;
        }
        if a.samples.len() < 8 {
            a.samples.extend(l.samples);
        }
    }
    match res {
        Err(TestError::Fail(reason, case)) => {
            let choices = match &case.spec {
                Spec::Choices(v) => v.clone(),
                Spec::Seed(_) => last.borrow().as_ref().map(|l| l.1.clone()).unwrap_or_default(),
            };
            Out::Violation { msg: reason.to_string(), choices }
        }
        Err(TestError::Abort(r)) => Out::Broken(format!("aborted: {r}")),
        Ok(()) => match broken.into_inner() {
            Some(b) => Out::Broken(b),
            None => Out::Pass,
        },
    }
}

fn limit(res: libc::__rlimit_resource_t, v: u64) {
    let l = libc::rlimit { rlim_cur: v, rlim_max: v };
    unsafe {
        libc::setrlimit(res, &l);
    }
}

/// Runs in the worker process.
pub fn worker(c: &'static Check, tier: &str, seed: u64, shm_path: &Path, out: &Path) -> i32 {
    limit(libc::RLIMIT_AS, 14 << 30);
    limit(libc::RLIMIT_CORE, 0);
    install_hook();
    // a short search without shrinking, for trying many changes of the code (tools/mutrun.py)
    let mini = tier == "mini";
    let cases = match tier {
        "thorough" => c.thorough,
        "mini" => c.quick / 8 + 1,
        _ => c.quick,
    };
    let shm = Arc::new(Shm::open(shm_path));
    let acc = Arc::new(Mutex::new(Acc::default()));
    let stop = Arc::new(AtomicU32::new(u32::MAX));
    let mut hs = vec![];
    for t in 0..THREADS {
        let (shm, acc, stop) = (shm.clone(), acc.clone(), stop.clone());
        let n = cases / THREADS as u32 + ((t as u32) < cases % THREADS as u32) as u32;
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || thread_main(c, n, mini, seed, t, &shm, &acc, &stop))
            .unwrap();
        hs.push(h);
    }
    let mut verdict = Out::Pass;
    for h in hs {
        let o = h.join().unwrap_or_else(|_| Out::Broken("worker thread died".into()));
        match (&verdict, &o) {
            (Out::Violation { .. }, _) => {}
            (_, Out::Violation { .. }) => verdict = o,
            (Out::Pass, Out::Broken(_)) => verdict = o,
            _ => {}
        }
    }
    let a = acc.lock().unwrap();
    let mut j = json!({
        "evals": a.evals, "nontrivial": a.nontrivial, "distinct": a.hashes.len(), "tags": a.tags,
        "samples": a.samples.iter().take(6).collect::<Vec<_>>(),
    });
    match verdict {
        Out::Pass => j["verdict"] = json!("pass"),
        Out::Violation { msg, choices } => {
            j["verdict"] = json!("violation");
            j["msg"] = json!(msg);
            j["choices"] = json!(choices);
        }
        Out::Broken(m) => {
            j["verdict"] = json!("broken");
            j["msg"] = json!(m);
        }
    }
    std::fs::write(out, j.to_string()).unwrap();
    0
}

/// One case in this process; exit code 0 ok, 1 violation, 2 broken. Prints what happened.
pub fn one(c: &Check, choices: Vec<u32>, cpu: u64, verbose: bool) -> i32 {
    limit(libc::RLIMIT_AS, 6 << 30);
    limit(libc::RLIMIT_CORE, 0);
    if cpu > 0 {
        limit(libc::RLIMIT_CPU, cpu);
    }
    install_hook();
    let c2 = c.run as usize;
    let _ = c2;
    let (id, run) = (c.id, c.run);
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let c = Check { id, quick: 0, thorough: 0, rule: "", assumptions: &[], run };
            let mut src = Src::replay(choices, None);
            let mut ctx = Ctx::default();
            let r = run_case(&c, &mut src, &mut ctx);
            if verbose {
                println!("input: {}", ctx.desc);
                for n in &ctx.note {
                    println!("{n}");
                }
            }
            r
        })
        .unwrap();
    match h.join() {
        Ok(Res::Ok) => 0,
        Ok(Res::Violation(m)) => {
            println!("violated: {m}");
            1
        }
        Ok(Res::Broken(m)) => {
            println!("harness failure: {m}");
            2
        }
        Err(_) => 2,
    }
}

fn describe(c: &Check, choices: &[u32]) -> (String, Vec<String>) {
    let mut src = Src::replay(choices.to_vec(), None);
    let mut ctx = Ctx::default();
    let _ = run_case(c, &mut src, &mut ctx);
    (ctx.desc, ctx.note)
}

fn spawn_one(c: &Check, choices: &[u32], cpu: u64, tmp: &Path) -> (i32, Option<i32>, String) {
    use std::os::unix::process::ExitStatusExt;
    let f = tmp.join("one.json");
    std::fs::write(&f, json!(choices).to_string()).unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["one", c.id, f.to_str().unwrap(), &cpu.to_string()])
        .output()
        .unwrap();
    (o.status.code().unwrap_or(-1), o.status.signal(), String::from_utf8_lossy(&o.stdout).into_owned() + &String::from_utf8_lossy(&o.stderr))
}

fn signame(s: i32) -> String {
    match s {
        libc::SIGSEGV => "SIGSEGV (stack overflow or bad access)".into(),
        libc::SIGABRT => "SIGABRT (abort, e.g. stack overflow or allocation failure)".into(),
        libc::SIGXCPU | libc::SIGKILL => "out of CPU time".into(),
        s => format!("signal {s}"),
    }
}

/// The command registered in the manifest.
pub fn check(c: &'static Check, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let t0 = Instant::now();
    let tmp = std::env::temp_dir().join(format!("vh-{}-{}", c.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let shm_path = tmp.join("shm");
    let out = tmp.join("out.json");
    let shm = Shm::open(&shm_path);
    let mut child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["worker", c.id, tier, &seed.to_string(), shm_path.to_str().unwrap(), out.to_str().unwrap()])
        .spawn()
        .expect("worker");
    let mut beats = [(0u32, Instant::now()); THREADS];
    let mut hung = None;
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break s;
        }
        std::thread::sleep(Duration::from_millis(50));
        for (t, b) in beats.iter_mut().enumerate() {
            let n = shm.beat(t);
            if n != b.0 || shm.slot(t).is_none() {
                *b = (n, Instant::now());
            } else if b.1.elapsed() > Duration::from_secs(if tier == "mini" { 8 } else { 60 }) && hung.is_none() {
                hung = Some(t);
            }
        }
        if hung.is_some() {
            let _ = child.kill();
            break child.wait().unwrap();
        }
    };
    if tier == "mini" && (hung.is_some() || !status.success()) {
        println!("VIOLATION property={} (hung or died)", c.id);
        let _ = std::fs::remove_dir_all(&tmp);
        return 1;
    }
    let known = known_sites(c.id);
    let mut code = 0;
    let mut violation: Option<(String, Vec<u32>)> = None;
    let mut broken: Option<String> = None;
    let mut j: Value = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!({}));
    if hung.is_none() && status.success() && j["verdict"].is_string() {
        match j["verdict"].as_str().unwrap() {
            "violation" => {
                let ch: Vec<u32> = serde_json::from_value(j["choices"].clone()).unwrap();
                violation = Some((j["msg"].as_str().unwrap_or("").to_string(), ch));
            }
            "broken" => broken = Some(j["msg"].as_str().unwrap_or("").to_string()),
            _ => {}
        }
    } else {
        // the worker died or hung: find the case that did it
        let mut cands: Vec<Vec<u32>> = vec![];
        if let Some(t) = hung {
            cands.extend(shm.slot(t));
        }
        for t in 0..THREADS {
            if hung != Some(t) {
                cands.extend(shm.slot(t));
            }
        }
        let crashes = |ch: &[u32], cpu: u64| -> Option<String> {
            let (code, sig, text) = spawn_one(c, ch, cpu, &tmp);
            match (code, sig) {
                (_, Some(s)) => Some(format!("the process died: {}", signame(s))),
                (1, None) => Some(text.trim().trim_start_matches("violated: ").to_string()),
                _ => None,
            }
        };
        for ch in cands {
            if let Some(m) = crashes(&ch, 30) {
                // shrink in fresh processes
                let t1 = Instant::now();
                let mut sh = Shrinker::new(ch.clone());
                let (mut best, mut msg) = (ch, m);
                let slow = hung.is_some();
                while t1.elapsed() < Duration::from_secs(if slow { 45 } else { 60 }) {
                    let Some(cand) = sh.next() else { break };
                    match crashes(&cand, if slow { 5 } else { 20 }) {
                        Some(m) => {
                            sh.accept(cand);
                            best = sh.best.clone();
                            msg = m;
                        }
                        None => sh.reject(),
                    }
                }
                violation = Some((msg, best));
                break;
            }
        }
        if violation.is_none() {
            let how = status.signal().map(signame).unwrap_or_else(|| format!("exit {:?}", status.code()));
            broken = Some(format!("worker ended abnormally ({how}) and no single case reproduces it"));
        }
        if j["evals"].is_null() {
            let n: u64 = (0..THREADS).map(|t| shm.beat(t) as u64).sum();
            j["evals"] = json!(n.max(1));
            j["distinct"] = json!(0);
        }
    }
    let mut nviol = 0;
    for k in &known {
        if finding_stands(c.id) {
            println!("KNOWN-FINDING: property={} {k}", c.id);
        }
    }
    if let Some((msg, choices)) = &violation {
        nviol = 1;
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", c.id, seed));
        let crashed = msg.starts_with("the process died");
        install_hook();
        let (input, notes) = if crashed { (String::new(), vec![]) } else { describe(c, choices) };
        let doc = json!({"property": c.id, "message": msg, "choices": choices, "input": input, "notes": notes,
            "replay": format!("/verif/run.sh {} replay {}", c.id, path.display())});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}: {}", c.id, msg);
        println!("minimal input: {}", input.chars().take(3000).collect::<String>());
        println!("VIOLATION property={} replay={}", c.id, path.display());
        code = 1;
    } else if let Some(b) = &broken {
        println!("{}: the check itself failed: {b}", c.id);
        code = 2;
    }
    let evals = j["evals"].as_u64().unwrap_or(0);
    let ev = json!({
        "property": c.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": j["distinct"].as_u64().unwrap_or(0),
            "nontrivial": j["nontrivial"].as_u64().unwrap_or(0),
            "rule": c.rule,
            "samples": j["samples"].as_array().cloned().unwrap_or_default(),
            "classes": j["tags"].clone(),
            "threads": THREADS,
            "verdict": if nviol > 0 { "violation" } else if broken.is_some() { "inconclusive" } else { "held" },
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nviol,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", c.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    println!(
        "{} {tier}: {} cases, {} distinct non-trivial, {:.1} s: {}",
        c.id,
        evals,
        j["distinct"].as_u64().unwrap_or(0),
        t0.elapsed().as_secs_f64(),
        if nviol > 0 { "VIOLATED" } else if broken.is_some() { "INCONCLUSIVE" } else { "held" }
    );
    code
}
