//! Runtime shared by every check: deterministic hash seeds, isolated case execution,
//! parallel exhaustive enumeration, evidence and violation reporting.
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static HSEED: Cell<u64> = const { Cell::new(0x1234_5678) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The standard library seeds HashMap through getrandom(2); interposing it makes the
/// iteration order of every HashMap a function of the thread's seed, so it can be enumerated.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    HSEED.with(|s| {
        let mut x = s.get();
        for i in 0..len {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *buf.add(i) = (z ^ (z >> 31)) as u8;
        }
        s.set(x);
    });
    len as isize
}

pub fn set_hash_seed(seed: u64) {
    HSEED.with(|s| s.set(seed.wrapping_mul(0x2545_F491_4F6C_DD1D).wrapping_add(77)));
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(p: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
}
static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
/// The library prints to stdout; keep our own lines apart from it.
pub fn quiet_stdout() {
    unsafe {
        let o = dup(1);
        let n = open(c"/dev/null".as_ptr(), 1);
        dup2(n, 1);
        OUT.store(o, Ordering::SeqCst);
        if std::env::var("MC_STDERR").is_err() {
            dup2(n, 2);
        }
    }
}
pub fn say(s: &str) {
    let l = format!("{s}\n");
    let mut b = l.as_bytes();
    while !b.is_empty() {
        let n = unsafe { write(OUT.load(Ordering::SeqCst), b.as_ptr(), b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit_once("/repo/").map(|x| x.1).unwrap_or(f);
                    // third-party code: the crate and its version, not where it was unpacked
                    let f = f.split_once("/registry/src/").and_then(|x| x.1.split_once('/')).map(|x| x.1).unwrap_or(f);
                    format!("{}:{}", f, l.line())
                })
                .unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
        } else {
            say(&format!("internal error: {info}"));
            default(info);
        }
    }));
}

/// Runs `f` catching a panic; Err carries the panic message and location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())
    })
}

/// Runs `f` in a fresh thread whose HashMaps all get the order chosen by `seed`.
pub fn isolated<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, String> {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, move || {
                set_hash_seed(seed);
                guard(f)
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV based, independent of the interposed seeds
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z ^ (z >> 27)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
            }
        }
    }
    let mut f = F(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.finish()
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// identifies the defect: a call site, input or history (matched against known_findings.json)
    pub key: String,
    pub msg: String,
}
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        let key = s
            .strip_prefix("panicked at ")
            .map(|r| format!("panic@{}", r.split(':').next().unwrap_or("")))
            .unwrap_or_else(|| "mismatch".into());
        Fail { key, msg: s }
    }
}
pub type Res = Result<(), Fail>;

/// Per-case counters a check reports while it runs.
#[derive(Default)]
pub struct Obs {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub extra: BTreeMap<String, u64>,
}
impl Obs {
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(h64(t));
    }
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.insert(h64(t));
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.into()).or_default() += n;
    }
    fn merge(&mut self, o: Obs) {
        self.states.extend(o.states);
        self.distinct.extend(o.distinct);
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evals += o.evals;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub obs: Mutex<Obs>,
    pub samples: Mutex<Vec<Value>>,
    pub fails: Mutex<Vec<(String, usize, Value, Fail)>>,
    pub notes: Mutex<BTreeMap<String, Value>>,
    pub truncated: AtomicBool,
    known: Vec<(String, String)>,
    case_limit: Duration,
}

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())) {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == prop {
                    known.push((
                        f["key"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap().to_string(),
                    ));
                }
            }
        }
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            start: Instant::now(),
            obs: Default::default(),
            samples: Default::default(),
            fails: Default::default(),
            notes: Default::default(),
            truncated: AtomicBool::new(false),
            known,
            case_limit: Duration::from_secs(if tier == Tier::Quick { 60 } else { 240 }),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn note(&self, k: &str, v: impl Serialize) {
        self.notes.lock().unwrap().insert(k.into(), serde_json::to_value(v).unwrap());
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|k| k.0 == key)
    }
    pub fn merge(&self, o: Obs) {
        self.obs.lock().unwrap().merge(o);
    }

    /// Runs `check` on every case, each in its own thread with a fixed hash seed, on 8 workers.
    pub fn run<C: Serialize + Sync>(
        &self,
        stage: &str,
        cases: &[C],
        check: impl Fn(&C, &mut Obs) -> Res + Sync,
    ) {
        let began = Instant::now();
        let next = AtomicUsize::new(0);
        let nfail = AtomicUsize::new(0);
        let busy: Arc<Mutex<BTreeMap<usize, (Instant, usize)>>> = Default::default();
        let done = AtomicBool::new(false);
        let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 8);
        let step = (cases.len() / 3).max(1);
        for (i, c) in cases.iter().enumerate() {
            if i % step == 0 {
                let mut s = self.samples.lock().unwrap();
                if s.len() < 24 {
                    s.push(json!({"stage": stage, "case": serde_json::to_value(c).unwrap()}));
                }
            }
        }
        let left = AtomicU64::new(workers as u64);
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (next, nfail, busy, check, left, done) = (&next, &nfail, &busy, &check, &left, &done);
                sc.spawn(move || {
                    let mut total = Obs::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases.len() || nfail.load(Ordering::SeqCst) >= 8 {
                            break;
                        }
                        busy.lock().unwrap().insert(w, (Instant::now(), i));
                        let mut o = Obs::default();
                        let r = isolated(self.seed, || check(&cases[i], &mut o));
                        busy.lock().unwrap().remove(&w);
                        let r = match r {
                            Ok(r) => r,
                            Err(p) => Err(Fail::from(p)),
                        };
                        total.merge(o);
                        if total.states.len() + total.distinct.len() > 4096 {
                            self.merge(std::mem::take(&mut total));
                        }
                        if let Err(f) = r {
                            if !self.is_known(&f.key) {
                                nfail.fetch_add(1, Ordering::SeqCst);
                            }
                            self.record(stage, i, &cases[i], f);
                        }
                    }
                    self.merge(total);
                    if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                        done.store(true, Ordering::SeqCst);
                    }
                });
            }
            // watchdog: a case that does not come back is a hang of the code under test
            sc.spawn(|| {
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    let b = busy.lock().unwrap();
                    for (t, i) in b.values() {
                        if t.elapsed() > self.case_limit {
                            self.record(
                                stage,
                                *i,
                                &cases[*i],
                                Fail { key: "hang".into(), msg: format!("no answer within {:?}", self.case_limit) },
                            );
                            std::process::exit(self.finish());
                        }
                    }
                }
            });
        });
        self.note(&format!("cases_{stage}"), cases.len());
        self.note(&format!("seconds_{stage}"), began.elapsed().as_secs());
        if nfail.load(Ordering::SeqCst) >= 8 {
            self.truncated.store(true, Ordering::SeqCst);
        }
    }

    pub fn record<C: Serialize>(&self, stage: &str, i: usize, c: &C, f: Fail) {
        let mut fl = self.fails.lock().unwrap();
        if fl.iter().filter(|x| x.3.key == f.key).count() < 50 {
            fl.push((stage.into(), i, serde_json::to_value(c).unwrap(), f));
        }
    }

    pub fn finish(&self) -> i32 {
        let mut fails = self.fails.lock().unwrap().clone();
        fails.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
        let mut unlisted = vec![];
        let mut listed: BTreeSet<String> = Default::default();
        for f in fails {
            if let Some(k) = self.known.iter().find(|k| k.0 == f.3.key) {
                listed.insert(k.1.clone());
            } else {
                unlisted.push(f);
            }
        }
        for k in &listed {
            say(&format!("KNOWN-FINDING: property={} {}", self.prop, k));
        }
        let o = self.obs.lock().unwrap();
        let mut cov = serde_json::Map::new();
        cov.insert("states".into(), json!(o.states.len()));
        cov.insert("transitions".into(), json!(o.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(o.traces));
        cov.insert("evaluations".into(), json!(o.evals));
        cov.insert("distinct_nontrivial".into(), json!(o.distinct.len()));
        // samples of the cases, large ones only by their beginning
        let mut s: Vec<Value> = self.samples.lock().unwrap().iter().map(|v| {
            let t = v.to_string();
            if t.len() > 3000 { json!(t.chars().take(1000).collect::<String>() + " ...") } else { v.clone() }
        }).collect();
        s.truncate(12);
        cov.insert("samples".into(), json!(s));
        cov.insert("exhaustive".into(), json!(unlisted.is_empty() && !self.truncated.load(Ordering::SeqCst)));
        for (k, v) in &o.extra {
            cov.insert(k.clone(), json!(v));
        }
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let (level, rule, assume) = crate::meta(&self.prop);
        cov.insert("rule".into(), json!(rule));
        let ev = json!({
            "property": self.prop,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assume,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": unlisted.len(),
        });
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
        if unlisted.is_empty() {
            say(&format!(
                "OK property={} states={} transitions={} traces={} evaluations={} wall={:.1}s",
                self.prop, o.states.len(), o.transitions, o.traces, o.evals, self.start.elapsed().as_secs_f64()
            ));
            return 0;
        }
        let rdir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&rdir);
        let mut seen = BTreeSet::new();
        for (n, (stage, i, case, f)) in unlisted.iter().enumerate() {
            if n >= 12 || !seen.insert(f.key.clone()) && n >= 4 {
                continue;
            }
            let path = format!("{rdir}/{}-{}-{}.json", self.prop, stage, i);
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({"property": self.prop, "stage": stage, "case": case, "key": f.key, "message": f.msg})).unwrap(),
            );
            say(&format!("  [{}] {}", f.key, f.msg.chars().take(1500).collect::<String>()));
            say(&format!("VIOLATION property={} replay={}", self.prop, path));
        }
        1
    }
}

pub fn parse_case<C: DeserializeOwned>(v: &Value) -> C {
    serde_json::from_value(v.clone()).expect("replay case")
}

/// All sequences over `alpha` of length 1..=depth.
pub fn sequences<T: Clone>(alpha: &[T], depth: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![];
    let mut layer: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..depth {
        let mut nxt = vec![];
        for l in &layer {
            for a in alpha {
                let mut v = l.clone();
                v.push(a.clone());
                nxt.push(v);
            }
        }
        out.extend(nxt.iter().cloned());
        layer = nxt;
    }
    out
}
