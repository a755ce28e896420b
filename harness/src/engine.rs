//! Generation, execution, shrinking, known-finding matching and evidence.
//!
//! The parent process generates and shrinks cases with proptest; every case is evaluated in a
//! child process (`vh exec`) so that a library call that panics, aborts, exits the process,
//! overflows the stack or never returns is observed instead of taking the check down.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::Instant;

/// What evaluating one case told us.
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
pub struct Verdict {
    /// None when the property held on this case
    pub fail: Option<Fail>,
    /// whether the case exercised the behaviour (by the property's stated rule)
    pub nontrivial: bool,
    /// classification labels, counted in the evidence
    pub labels: Vec<String>,
    /// the check itself is at fault
    #[serde(default)]
    pub error: Option<String>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fail {
    /// stable, specific signature (used only for known findings and to keep shrinking on track)
    pub sig: String,
    pub msg: String,
}

impl Verdict {
    pub fn ok(nontrivial: bool) -> Self {
        Verdict { nontrivial, ..Default::default() }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn labels(mut self, l: impl IntoIterator<Item = String>) -> Self {
        self.labels.extend(l);
        self
    }
    pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Verdict {
            fail: Some(Fail { sig: sig.into(), msg: msg.into() }),
            nontrivial: true,
            ..Default::default()
        }
    }
}

pub type Check = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

/// One generator/oracle pair of a property.
pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn() -> BoxedStrategy<Value>,
    pub eval: fn(&Value) -> Verdict,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
    /// fixed inputs that fail on the unchanged tree (known findings), re-evaluated on each run
    pub known_inputs: fn() -> Vec<(String, String, Value)>,
}

pub fn no_known() -> Vec<(String, String, Value)> {
    vec![]
}

pub fn typed<T, S>(s: S) -> BoxedStrategy<Value>
where
    S: Strategy<Value = T> + 'static,
    T: Serialize + std::fmt::Debug + 'static,
{
    s.prop_map(|t| serde_json::to_value(t).expect("case serializes")).boxed()
}

// ---------------------------------------------------------------- child side

fn case_cpu_secs() -> i64 {
    std::env::var("VH_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(20)
}

pub fn scratch_root() -> PathBuf {
    PathBuf::from(std::env::var("VH_SCRATCH").unwrap_or_else(|_| "/tmp/vh-scratch".into()))
}

fn arm_cpu_timer(secs: i64) {
    // CPU time of this process only: independent of machine load
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
    };
    unsafe { libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut()) };
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let site = panic_site().unwrap_or(loc);
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((site, msg)));
    }));
}

/// innermost function of the crate under test on the panicking stack
fn panic_site() -> Option<String> {
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let mut name = String::new();
    for line in bt.lines() {
        let l = line.trim();
        if let Some(path) = l.strip_prefix("at ") {
            if let Some(i) = path.find("/repo/src/") {
                let file = path[i + 6..].split(':').next().unwrap_or("");
                let f = name.rsplit("::").find(|s| !s.starts_with('{')).unwrap_or(&name);
                return Some(format!("{file} {f}"));
            }
        } else if let Some((_, n)) = l.split_once(": ") {
            let n = n.rsplit_once("::h").map(|(a, _)| a).unwrap_or(n);
            name = n.split('<').next().unwrap_or(n).trim_end_matches("::").to_string();
        }
    }
    None
}

/// Runs `f`, turning a panic into Err((site, message)).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| ("unknown".into(), String::new()))),
    }
}

/// Main loop of `vh exec <ID> <part>`
pub fn exec_loop(part: &Part) {
    install_panic_hook();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    // replies go to a private copy of fd 1; anything the code under test prints is discarded
    let out_fd = unsafe { libc::dup(1) };
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
    }
    let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(out_fd) };
    let mut inp = std::io::stdin();
    loop {
        let mut len = [0u8; 4];
        if inp.read_exact(&mut len).is_err() {
            return;
        }
        let mut buf = vec![0u8; u32::from_le_bytes(len) as usize];
        if inp.read_exact(&mut buf).is_err() {
            return;
        }
        let case: Value = serde_json::from_slice(&buf).expect("request");
        arm_cpu_timer(case_cpu_secs());
        let v = match guard(|| (part.eval)(&case)) {
            Ok(v) => v,
            // calls to the code under test are guarded on their own
            Err((site, msg)) => Verdict { error: Some(format!("{site}: {msg}")), ..Default::default() },
        };
        arm_cpu_timer(0);
        let reply = serde_json::to_vec(&v).expect("reply");
        if out.write_all(&(reply.len() as u32).to_le_bytes()).is_err()
            || out.write_all(&reply).is_err()
        {
            return;
        }
    }
}

// --------------------------------------------------------------- parent side

struct Exec {
    id: String,
    part: usize,
    child: Option<(Child, ChildStdin, ChildStdout)>,
}

impl Exec {
    fn new(id: &str, part: usize) -> Self {
        Exec { id: id.into(), part, child: None }
    }
    fn spawn(&mut self) {
        let mut c = Command::new(std::env::current_exe().expect("exe"))
            .args(["exec", &self.id, &self.part.to_string()])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .env("RUST_BACKTRACE", "0")
            .spawn()
            .unwrap_or_else(|e| die(&format!("cannot start executor: {e}")));
        let i = c.stdin.take().unwrap();
        let o = c.stdout.take().unwrap();
        self.child = Some((c, i, o));
    }
    /// what there is to say about a case; Err if the check cannot tell
    fn eval(&mut self, case: &Value) -> Result<Verdict, String> {
        if self.child.is_none() {
            self.spawn();
        }
        let (_, i, o) = self.child.as_mut().unwrap();
        let buf = serde_json::to_vec(case).expect("case");
        let sent = i
            .write_all(&(buf.len() as u32).to_le_bytes())
            .and_then(|_| i.write_all(&buf))
            .and_then(|_| i.flush());
        let mut len = [0u8; 4];
        if sent.is_ok() && o.read_exact(&mut len).is_ok() {
            let mut b = vec![0u8; u32::from_le_bytes(len) as usize];
            if o.read_exact(&mut b).is_ok() {
                if let Ok(v) = serde_json::from_slice::<Verdict>(&b) {
                    if let Some(e) = &v.error {
                        return Err(format!("{e}; case {case}"));
                    }
                    return Ok(v);
                }
            }
        }
        // the executor died on this case
        let (mut c, i, o) = self.child.take().unwrap();
        drop(i);
        drop(o);
        let st = c.wait().unwrap_or_else(|e| die(&format!("wait: {e}")));
        use std::os::unix::process::ExitStatusExt;
        let (sig, msg) = match (st.code(), st.signal()) {
            (Some(c), _) => (
                format!("process exit({c})"),
                format!("the library called process::exit({c}) instead of returning"),
            ),
            (_, Some(libc::SIGPROF)) => (
                "no termination".to_string(),
                format!("did not finish within {} s of CPU time", case_cpu_secs()),
            ),
            (_, Some(libc::SIGSEGV)) | (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGBUS)) => (
                "process aborted".to_string(),
                "the process aborted (stack overflow, allocation failure or abort)".to_string(),
            ),
            (_, s) => die(&format!("executor ended by signal {s:?}")),
        };
        // whether everything ends is for C01 to say; elsewhere there is no answer to judge
        if self.id != "C01" && st.code().is_none() {
            return Err(format!("{msg}; case {case}"));
        }
        Ok(Verdict::fail(sig, msg))
    }
}

impl Drop for Exec {
    fn drop(&mut self) {
        if let Some((mut c, i, o)) = self.child.take() {
            drop(i);
            drop(o);
            let _ = c.wait();
        }
    }
}

pub fn die(msg: &str) -> ! {
    eprintln!("check error: {msg}");
    std::process::exit(2)
}

#[derive(Deserialize)]
struct KnownFinding {
    property: String,
    #[serde(default)]
    sig: Option<String>,
    what: String,
    #[serde(default)]
    status: String,
}

fn known_findings(id: &str) -> Vec<KnownFinding> {
    let path = verif_dir().join("known-findings.jsonl");
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    s.lines()
        .filter(|l| l.trim_start().starts_with('{'))
        .map(|l| serde_json::from_str::<KnownFinding>(l).unwrap_or_else(|e| die(&format!("known-findings: {e}"))))
        .filter(|k| k.property == id && k.status == "known")
        .collect()
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn rng_for(seed: i64, id: &str, part: &str, shard: u64) -> TestRng {
    let mut s = [0u8; 32];
    for (i, chunk) in s.chunks_mut(8).enumerate() {
        let v = fnv(&[
            &seed.to_le_bytes(),
            id.as_bytes(),
            part.as_bytes(),
            &shard.to_le_bytes(),
            &[i as u8],
        ]);
        chunk.copy_from_slice(&v.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

const SHARDS: u64 = 16;
/// cases that cannot be judged before the check gives up
const MAX_ERRORS: usize = 8;

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    known: BTreeMap<String, u64>,
}

struct Violation {
    part: usize,
    case: Value,
    fail: Fail,
    original: Value,
}

pub fn run(prop: &Prop) -> i32 {
    let seed: i64 = match std::env::var("VERIF_SEED") {
        Ok(s) => s.trim().parse().unwrap_or_else(|_| (fnv(&[s.as_bytes()]) >> 1) as i64),
        Err(_) => 0,
    };
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let start = Instant::now();
    let known = known_findings(prop.id);
    let stats = Mutex::new(Stats::default());
    let viol: Mutex<Option<Violation>> = Mutex::new(None);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    // development aid: list every distinct failure instead of stopping at the first
    let explore = std::env::var("VH_EXPLORE").is_ok();
    let keep: usize = std::env::var("VH_EXPLORE").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let explored = Mutex::new(BTreeMap::<String, (u64, Vec<(usize, Value, String)>)>::new());
    let mut per_part = BTreeMap::new();

    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8);
    for (pi, part) in prop.parts.iter().enumerate() {
        if let Ok(only) = std::env::var("VH_PART") {
            if only != part.name {
                continue;
            }
        }
        let total = ((if thorough { part.thorough } else { part.quick }) as f64 * scale) as u64;
        let next = std::sync::atomic::AtomicU64::new(0);
        let before = stats.lock().unwrap().evaluations;
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let mut ex = Exec::new(prop.id, pi);
                    let strat = (part.strategy)();
                    loop {
                        let shard = next.fetch_add(1, Ordering::SeqCst);
                        if shard >= SHARDS || stop.load(Ordering::SeqCst) {
                            return;
                        }
                        let n = total / SHARDS + u64::from(shard < total % SHARDS);
                        let mut runner = TestRunner::new_with_rng(
                            Config { failure_persistence: None, ..Config::default() },
                            rng_for(seed, prop.id, part.name, shard),
                        );
                        let mut local = Stats::default();
                        for k in 0..n {
                            if stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let mut tree = strat
                                .new_tree(&mut runner)
                                .unwrap_or_else(|e| die(&format!("generator: {e}")));
                            let case = tree.current();
                            local.evaluations += 1;
                            let v = match ex.eval(&case) {
                                Ok(v) => v,
                                Err(e) => {
                                    // others may still show a violation
                                    let mut g = errors.lock().unwrap();
                                    g.push(e);
                                    if g.len() >= MAX_ERRORS {
                                        stop.store(true, Ordering::SeqCst);
                                    }
                                    continue;
                                }
                            };
                            for l in &v.labels {
                                *local.labels.entry(l.clone()).or_default() += 1;
                            }
                            if let Some(f) = &v.fail {
                                if known.iter().any(|kf| kf.sig.as_deref() == Some(&f.sig)) {
                                    *local.known.entry(f.sig.clone()).or_default() += 1;
                                    continue;
                                }
                                if explore {
                                    let sz = case.to_string().len();
                                    let mut g = explored.lock().unwrap();
                                    let e = g.entry(f.sig.clone()).or_default();
                                    e.0 += 1;
                                    e.1.push((sz, case.clone(), f.msg.clone()));
                                    e.1.sort_by_key(|x| x.0);
                                    e.1.truncate(keep);
                                    continue;
                                }
                                stop.store(true, Ordering::SeqCst);
                                let original = case.clone();
                                let (case, fail) = shrink(&mut *tree, case, f.clone(), &mut ex, &known);
                                let mut g = viol.lock().unwrap();
                                if g.is_none() {
                                    *g = Some(Violation { part: pi, case, fail, original });
                                }
                                break;
                            }
                            if v.nontrivial {
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                case.to_string().hash(&mut h);
                                part.name.hash(&mut h);
                                let hv = h.finish();
                                if local.nontrivial.insert(hv) && k % (n / 4 + 1) == 0 {
                                    local.samples.push((hv, case));
                                }
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        g.nontrivial.extend(local.nontrivial);
                        for (l, c) in local.labels {
                            *g.labels.entry(l).or_default() += c;
                        }
                        for (l, c) in local.known {
                            *g.known.entry(l).or_default() += c;
                        }
                        g.samples.extend(local.samples);
                    }
                });
            }
        });
        per_part.insert(part.name, stats.lock().unwrap().evaluations - before);
        if stop.load(Ordering::SeqCst) {
            break;
        }
    }

    if explore {
        for (sig, (n, cases)) in explored.lock().unwrap().iter() {
            println!("#### {n} x {sig}");
            for (_, case, msg) in cases {
                println!("{msg}\n{case}\n");
            }
        }
    }
    // known findings identified by a specific input
    let mut known_lines = vec![];
    let mut extra_evals = 0;
    if viol.lock().unwrap().is_none() {
        for (part, what, case) in (prop.known_inputs)() {
            let pi = prop.parts.iter().position(|p| p.name == part).unwrap_or_else(|| die("known input part"));
            let v = Exec::new(prop.id, pi).eval(&case).unwrap_or_else(|e| die(&e));
            extra_evals += 1;
            if v.fail.is_some() {
                known_lines.push(what);
            }
        }
    }

    let mut stats = stats.into_inner().unwrap();
    for sig in stats.known.keys() {
        let what = known.iter().find(|k| k.sig.as_deref() == Some(sig)).map(|k| k.what.clone()).unwrap_or_default();
        known_lines.push(what);
    }
    for l in &known_lines {
        println!("KNOWN-FINDING: property={} {}", prop.id, l);
    }

    let viol = viol.into_inner().unwrap();
    let evdir = verif_dir().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap_or_else(|e| die(&format!("evidence dir: {e}")));
    let mut code = 0;
    let mut violations = vec![];
    if let Some(v) = &viol {
        let part = &prop.parts[v.part];
        let rdir = evdir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}.json", prop.id, seed));
        let rep = json!({
            "property": prop.id, "part": part.name, "seed": seed, "tier": tier,
            "signature": v.fail.sig, "message": v.fail.msg,
            "case": v.case, "unshrunk_case": v.original,
            "replay_with": format!("bash checks/run.sh replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap())
            .unwrap_or_else(|e| die(&format!("replay file: {e}")));
        println!("{}: {}", v.fail.sig, v.fail.msg);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        violations.push(json!({"signature": v.fail.sig, "message": v.fail.msg, "replay": path.display().to_string()}));
        code = 1;
    }

    stats.samples.sort_by_key(|(h, _)| *h);
    let samples: Vec<Value> = stats
        .samples
        .iter()
        .take(12)
        .map(|(_, v)| {
            let s = v.to_string();
            if s.len() > 4000 {
                let cut = (0..=4000).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0);
                Value::String(s[..cut].to_string())
            } else {
                v.clone()
            }
        })
        .collect();
    let ev = json!({
        "property": prop.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations + extra_evals,
            "distinct_nontrivial": stats.nontrivial.len(),
            "rule": prop.rule,
            "samples": samples,
            "per_generator": per_part,
            "labels": stats.labels,
            "known_finding_hits": stats.known,
        },
        "assumptions": prop.assumptions,
        "violations": violations,
        "wall_s": start.elapsed().as_secs_f64(),
    });
    std::fs::write(evdir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap())
        .unwrap_or_else(|e| die(&format!("evidence: {e}")));
    if code == 0 {
        if let Some(e) = errors.into_inner().unwrap().first() {
            die(e);
        }
        println!(
            "{} held: {} cases, {} distinct non-trivial, {:.1}s",
            prop.id,
            stats.evaluations,
            stats.nontrivial.len(),
            start.elapsed().as_secs_f64()
        );
    }
    code
}

/// class of a signature: shrinking must stay within it
fn sig_class(s: &str) -> String {
    s.to_string()
}

fn shrink(
    tree: &mut dyn ValueTree<Value = Value>,
    first: Value,
    first_fail: Fail,
    ex: &mut Exec,
    known: &[KnownFinding],
) -> (Value, Fail) {
    let started = Instant::now();
    let mut best = (first, first_fail);
    let class = sig_class(&best.1.sig);
    let slow = best.1.sig == "no termination";
    let budget = if slow { 12 } else { 4000 };
    let mut tries = 0;
    if !tree.simplify() {
        return best;
    }
    loop {
        tries += 1;
        if tries > budget || started.elapsed().as_secs() > 150 {
            return best;
        }
        let cur = tree.current();
        let v = ex.eval(&cur).unwrap_or_default();
        let still = match v.fail {
            Some(f) => {
                if sig_class(&f.sig) == class && !known.iter().any(|k| k.sig.as_deref() == Some(&f.sig)) {
                    best = (cur, f);
                    true
                } else {
                    false
                }
            }
            None => false,
        };
        let more = if still { tree.simplify() } else { tree.complicate() };
        if !more {
            return best;
        }
    }
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| die(&format!("replay: {e}")));
    let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| die(&format!("replay: {e}")));
    let id = v["property"].as_str().unwrap_or("");
    let part = v["part"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else { die("unknown property") };
    let Some(pi) = p.parts.iter().position(|q| q.name == part) else { die("unknown part") };
    let verdict = Exec::new(p.id, pi).eval(&v["case"]).unwrap_or_else(|e| die(&e));
    match verdict.fail {
        Some(f) => {
            println!("{}: {}", f.sig, f.msg);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("held");
            0
        }
    }
}
