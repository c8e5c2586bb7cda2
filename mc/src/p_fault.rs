//! P29: storages and files that report errors.
use crate::alpha::*;
use crate::lang::*;
use crate::p_back::*;
use crate::p_misc::Scratch;
use crate::p_store::{mism, paths, pool};
use crate::rt::*;
use crate::store::*;
use crate::sys::*;
use crate::Entry;
use oca_rs::data_storage::*;
use oca_rs::Facade;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Arc;

pub static P29: Entry = (
    "P29",
    "model_checking",
    "for every history of builds and every storage operation of its last build, that operation, or every one from it on, answers with an error; the same for every file system call, reading or changing, of a build over files and the SQLite index; then the outcome, everything a client can ask, and a repetition with the same and with a new facade are compared with the history in which nothing failed; every query with every one of its storage operations and reading system calls failing",
    &["a panic counts as a report of the failure (the build reports most storage failures that way)"],
    p29,
    |st, c| match st {
        "calls" | "sled-calls" => p29_calls(&parse_case(c), &mut Obs::default()),
        "reads" => p29_reads(&parse_case(c), &mut Obs::default()),
        "file-queries" => p29_file_queries(&parse_case(c), &mut Obs::default()),
        "sled-queries" => p29_sled_queries(&parse_case(c), &mut Obs::default()),
        "queries" => p29_queries(&parse_case(c), &mut Obs::default()),
        _ => p29_ops(&parse_case(c), &mut Obs::default()),
    },
);
/// Which operation fails: shared by all storages of a facade.
#[derive(Default)]
pub struct Plan {
    at: AtomicI64,
    /// from that operation on
    on: AtomicBool,
    count: AtomicI64,
    hit: AtomicBool,
    armed: AtomicBool,
}
impl Plan {
    fn arm(&self, at: i64, on: bool) {
        self.at.store(at, Ordering::SeqCst);
        self.on.store(on, Ordering::SeqCst);
        self.count.store(0, Ordering::SeqCst);
        self.hit.store(false, Ordering::SeqCst);
        self.armed.store(true, Ordering::SeqCst);
    }
    fn disarm(&self) -> bool {
        self.armed.store(false, Ordering::SeqCst);
        self.hit.load(Ordering::SeqCst)
    }
    fn op(&self) -> Result<(), String> {
        if self.armed.load(Ordering::SeqCst) {
            let (n, at) = (self.count.fetch_add(1, Ordering::SeqCst), self.at.load(Ordering::SeqCst));
            if n == at || n > at && self.on.load(Ordering::SeqCst) {
                self.hit.store(true, Ordering::SeqCst);
                return Err("the storage fails".into());
            }
        }
        Ok(())
    }
}
#[derive(Clone)]
pub struct Failing {
    inner: Mem,
    plan: Arc<Plan>,
}
impl DataStorage for Failing {
    fn get(&self, n: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        self.plan.op()?;
        self.inner.get(n, key)
    }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        self.plan.op()?;
        self.inner.get_all(n)
    }
    fn insert(&mut self, n: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        self.plan.op()?;
        self.inner.insert(n, key, value)
    }
    fn new() -> Self {
        unreachable!()
    }
    fn config(&self, _: HashMap<String, String>) -> Self {
        self.clone()
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpCase {
    progs: Vec<Prog>,
    on: bool,
    every: i64,
}
fn p29_ops(c: &OpCase, o: &mut Obs) -> Res {
    let sc = StopCase { progs: c.progs.clone(), between: None, every: 1 };
    let (x, whole) = sc.expect()?;
    let (last, first) = c.progs.split_last().unwrap();
    let want = [contents(&whole.db)?, contents(&whole.cache)?];
    let mut k = 0;
    loop {
        let tell = |f: Fail| Fail { key: f.key, msg: format!("storage operation {k} of the last build {}: {}\n{}", if c.on { "and all after it failed" } else { "failed" }, f.msg, sc.text()) };
        // the index is kept in memory, so every point starts from the beginning
        let plan = Arc::new(Plan::default());
        let (db, cache) = (Mem::default(), Mem::default());
        let st = |m: &Mem| Box::new(Failing { inner: m.clone(), plan: plan.clone() });
        let mut f = Facade::new(st(&db), st(&cache), oca_rs::repositories::SQLiteConfig::build().unwrap());
        for p in first {
            guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)))?.map_err(mism)?;
        }
        plan.arm(k, c.on);
        o.traces += 1;
        let r = guard(|| f.build_from_ocafile(last.text()).map_err(|e| ferr(&e)));
        let hit = plan.disarm();
        if !hit {
            guard(|| r)?.map_err(mism)?.map_err(mism)?;
            break;
        }
        o.state(&(db.snapshot(), cache.snapshot()));
        o.nontrivial(&(k, c.on, &c.progs.len(), db.snapshot(), cache.snapshot()));
        o.evals += 1;
        let complete = |f: &Facade, what: &str| -> Res {
            if let Some(e) = mdiff(&x.after, &observe(f, &x.ids, &WORDS)) {
                return Err(tell(Fail { key: format!("{what}-observed"), msg: format!("{what}: {e}") }));
            }
            for (w, g, n) in [(&want[0], &db, "db"), (&want[1], &cache, "cache")] {
                same_contents(n, w, &contents(g)?).map_err(|e| tell(Fail { key: format!("{what}-contents"), msg: format!("{what}: {}", e.msg) }))?;
            }
            Ok(())
        };
        if let Ok(Ok(_)) = r {
            complete(&f, "succeeded")?;
        } else {
            after_stop(&f, &x).map_err(tell)?;
        }
        o.transitions += 1;
        guard(|| f.build_from_ocafile(last.text()).map_err(|e| ferr(&e))).map_err(|e| tell(e.into()))?.map_err(|e| tell(mism(format!("repeated: {e}"))))?;
        complete(&f, "repeated")?;
        k += c.every;
    }
    Ok(())
}
type Q = (String, Box<dyn Fn(&Facade) -> Result<String, String>>);
/// Everything a client can ask about what the model knows.
fn all_queries(sm: &SM) -> Vec<Q> {
    let mut qs: Vec<Q> = vec![];
    let text = |x: Vec<String>| x.join("; ");
    for id in sm.ids() {
        let i = id.clone();
        for dep in [false, true] {
            let i = i.clone();
            qs.push((format!("get_oca_bundle {i} {dep}"), Box::new(move |f| f.get_oca_bundle(sai(&i), dep).map(|b| encs(&b.bundle) + &b.dependencies.iter().map(encs).collect::<String>()).map_err(text))));
            let i = id.clone();
            qs.push((format!("get_oca_bundle_ocafile {i} {dep}"), Box::new(move |f| f.get_oca_bundle_ocafile(sai(&i), dep).map_err(text))));
        }
        let i = id.clone();
        qs.push((format!("get_oca_objects {i}"), Box::new(move |f| f.get_oca_objects(vec![i.clone()]).map(|v| serde_json::to_string(&v).unwrap()).map_err(text))));
        let i = id.clone();
        qs.push((format!("get_oca_bundle_steps {i}"), Box::new(move |f| f.get_oca_bundle_steps(sai(&i)).map(|v| v.iter().map(|s| format!("{:?} {} {}", s.parent_said, serde_json::to_string(&s.command).unwrap(), encs(&s.result))).collect::<String>()).map_err(text))));
        let i = id.clone();
        qs.push((format!("get_oca_bundle_ast {i}"), Box::new(move |f| f.get_oca_bundle_ast(sai(&i)).map(|v| serde_json::to_string(&v).unwrap()).map_err(text))));
        // absence is the only failure this one can tell of
        let i = id.clone();
        qs.push((
            format!("explore {i}"),
            Box::new(move |f| {
                f.explore(i.clone())
                    .map(|r| {
                        let mut v: Vec<String> = r.relations.iter().map(|x| serde_json::to_string(x).unwrap()).collect();
                        v.sort();
                        format!("{} {v:?}", serde_json::to_string(&r.base_object).unwrap())
                    })
                    .ok_or_else(|| "none".to_string())
            }),
        ));
    }
    qs.push(("fetch_all_refs".into(), Box::new(|f| f.fetch_all_refs().map(|m| format!("{:?}", m.into_iter().collect::<std::collections::BTreeMap<_, _>>())))));
    qs.push(("fetch_all_oca_bundle".into(), Box::new(move |f| f.fetch_all_oca_bundle(100, 1).map(|m| m.records.iter().map(encs).collect::<String>()).map_err(text))));
    qs.push(("fetch_all_capture_base".into(), Box::new(move |f| f.fetch_all_capture_base(100, 1).map(|m| serde_json::to_string(&m).unwrap()).map_err(text))));
    for w in WORDS {
        qs.push((format!("search {w}"), Box::new(move |f| Ok(f.search_oca_bundle(None, w.to_string(), 100, 1).records.iter().map(|r| encs(&r.oca_bundle)).collect::<String>()))));
    }
    qs
}
/// Every query with every operation it makes failing: the right answer or an error, and the right answer the next time.
fn ask_failing(f: &Facade, qs: &[Q], what: &str, arm: &dyn Fn(i64, bool), disarm: &dyn Fn() -> bool, o: &mut Obs) -> Res {
    for (name, q) in qs {
        let right = guard(|| q(f))?;
        for on in [false, true] {
            let mut k = 0;
            loop {
                arm(k, on);
                let r = guard(|| q(f));
                if !disarm() {
                    break;
                }
                o.traces += 1;
                o.evals += 1;
                o.nontrivial(&(name, k, on));
                if let (Ok(Ok(v)), Ok(w)) = (&r, &right) {
                    if v != w {
                        return fail("answer", format!("{name}: {what} {k} failed and the answer is {}\ninstead of {}", cut(v), cut(w)));
                    }
                }
                if let (Ok(Ok(v)), Err(_)) = (&r, &right) {
                    return fail("answer", format!("{name}: {what} {k} failed and the answer is {}, it should be an error", cut(v)));
                }
                if guard(|| q(f))? != right {
                    return fail("later", format!("{name}: {what} {k} failed once, and the next answer is wrong"));
                }
                o.transitions += 1;
                k += 1;
            }
        }
    }
    Ok(())
}
/// Every query of a complete store with every one of its storage operations failing.
fn p29_queries(progs: &Vec<Prog>, o: &mut Obs) -> Res {
    let plan = Arc::new(Plan::default());
    let (db, cache) = (Mem::default(), Mem::default());
    let st = |m: &Mem| Box::new(Failing { inner: m.clone(), plan: plan.clone() });
    let mut f = Facade::new(st(&db), st(&cache), oca_rs::repositories::SQLiteConfig::build().unwrap());
    let mut sm = SM::default();
    for p in progs {
        sm.build(p).map_err(mism)?;
        guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)))?.map_err(mism)?;
    }
    ask_failing(&f, &all_queries(&sm), "storage operation", &|k, on| plan.arm(k, on), &|| plan.disarm(), o)
}
/// The same over files: every system call of a query that reads a file.
fn p29_file_queries(progs: &Vec<Prog>, o: &mut Obs) -> Res {
    let scratch = Scratch::new("fault")?;
    let mut f = open_fs(&scratch.0)?.0;
    let mut sm = SM::default();
    for p in progs {
        sm.build(p).map_err(mism)?;
        guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)))?.map_err(mism)?;
    }
    ask_failing(&f, &all_queries(&sm), "reading system call", &|k, on| Calls::arm(k, on, false), &Calls::disarm, o)
}
/// The same over sled, which gives up after the first failure: each is tried on a store just opened.
fn p29_sled_queries(progs: &Vec<Prog>, o: &mut Obs) -> Res {
    let scratch = Scratch::new("fault")?;
    let open = |d: &str| -> Result<Facade, Fail> {
        let at = |x: &str| open_store("sled", &format!("{}/{d}/{x}", scratch.0));
        Ok(Facade::new(at("db")?, at("cache")?, sqlite(&format!("{}/{d}/index", scratch.0))))
    };
    let mut sm = SM::default();
    {
        let mut f = open("store")?;
        for p in progs {
            sm.build(p).map_err(mism)?;
            guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)))?.map_err(mism)?;
        }
    }
    let qs = all_queries(&sm);
    let right: Vec<_> = {
        let f = open("store")?;
        qs.iter().map(|(_, q)| guard(|| q(&f))).collect::<Result<_, _>>()?
    };
    for ((name, q), right) in qs.iter().zip(&right) {
        let mut k = 0;
        loop {
            let d = format!("k{k}");
            io(copy_tree(&format!("{}/store", scratch.0), &format!("{}/{d}", scratch.0)))?;
            let f = open(&d)?;
            Calls::arm(k, true, false);
            let r = guard(|| q(&f));
            let hit = Calls::disarm();
            drop(f);
            io(std::fs::remove_dir_all(format!("{}/{d}", scratch.0)))?;
            if !hit {
                break;
            }
            o.traces += 1;
            o.evals += 1;
            o.nontrivial(&(name, k));
            if let Ok(Ok(v)) = &r {
                if right.as_ref().ok() != Some(v) {
                    return fail("answer", format!("{name}: reading system call {k} and all after it failed and the answer is {}\ninstead of {}", cut(v), cut(&format!("{right:?}"))));
                }
            }
            o.transitions += 1;
            k += 1;
        }
    }
    Ok(())
}
type Opened = (Facade, Box<dyn DataStorage>, Box<dyn DataStorage>);
fn open_fs(dir: &str) -> Result<Opened, Fail> {
    open_over("fs", dir)
}
fn open_over(kind: &str, dir: &str) -> Result<Opened, Fail> {
    let (a, b) = (open_store(kind, &format!("{dir}/db"))?, open_store(kind, &format!("{dir}/cache"))?);
    Ok((Facade::new(a.clone(), b.clone(), sqlite(&format!("{dir}/index"))), a, b))
}
/// Every system call of the last build that reads a file (or changes one) fails, in the process that goes on.
fn p29_reads(c: &CallCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("fault")?;
    let sc = StopCase { progs: c.progs.clone(), between: None, every: 1 };
    let (x, _) = sc.expect()?;
    let (last, first) = c.progs.split_last().unwrap();
    let dir = |s: &str| format!("{}/{s}", scratch.0);
    let build = |f: &mut Facade, p: &Prog| guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)));
    {
        let mut f = open_fs(&dir("before"))?.0;
        for p in first {
            build(&mut f, p)?.map_err(mism)?;
        }
    }
    io(copy_tree(&dir("before"), &dir("whole")))?;
    let (mut wf, wdb, wcache) = open_fs(&dir("whole"))?;
    build(&mut wf, last)?.map_err(mism)?;
    let (wdb, wcache) = (contents(&*wdb)?, contents(&*wcache)?);
    let mut k = c.part.0;
    loop {
        let tell = |f: Fail| Fail { key: f.key, msg: format!("reading system call {k} {}: {}\n{}", if c.on { "and all after it failed" } else { "failed" }, f.msg, sc.text()) };
        io(copy_tree(&dir("before"), &dir("now")))?;
        let (mut f, db, cache) = open_fs(&dir("now"))?;
        Calls::arm(k, c.on, false);
        let r = build(&mut f, last);
        let hit = Calls::disarm();
        if !hit {
            r?.map_err(mism)?;
            break;
        }
        o.traces += 1;
        o.evals += 1;
        o.state(&(k, c.on, contents(&*db).map_err(tell)?, contents(&*cache).map_err(tell)?));
        o.nontrivial(&(k, c.on, c.progs.len(), sc.text()));
        let complete = |f: &Facade, what: &str| -> Res {
            if let Some(e) = mdiff(&x.after, &observe(f, &x.ids, &WORDS)) {
                return Err(tell(Fail { key: format!("{what}-observed"), msg: format!("{what}: {e}") }));
            }
            for (w, g, n) in [(&wdb, &db, "db"), (&wcache, &cache, "cache")] {
                same_contents(n, w, &contents(&**g)?).map_err(|e| tell(Fail { key: format!("{what}-contents"), msg: format!("{what}: {}", e.msg) }))?;
            }
            Ok(())
        };
        if let Ok(Ok(_)) = r {
            complete(&f, "succeeded")?;
        } else {
            after_stop(&f, &x).map_err(tell)?;
        }
        o.transitions += 1;
        build(&mut f, last).map_err(|e| tell(e.into()))?.map_err(|e| tell(mism(format!("repeated: {e}"))))?;
        complete(&f, "repeated")?;
        drop(f);
        io(std::fs::remove_dir_all(dir("now")))?;
        k += c.part.1;
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CallCase {
    progs: Vec<Prog>,
    on: bool,
    part: (i64, i64),
    #[serde(default = "fs")]
    backend: String,
}
fn fs() -> String {
    "fs".into()
}
/// Over sled the number of calls differs a little from run to run, and nothing works in the process after a failure.
fn p29_calls(c: &CallCase, o: &mut Obs) -> Res {
    let sled = c.backend == "sled";
    let scratch = Scratch::new("fault")?;
    let sc = StopCase { progs: c.progs.clone(), between: None, every: 1 };
    let (x, _) = sc.expect()?;
    let texts: Vec<String> = c.progs.iter().map(|p| p.text()).collect();
    let child = |dir: &str, stop: i64, again: bool| Child {
        backend: c.backend.clone(),
        dir: format!("{}/{dir}", scratch.0),
        progs: texts.clone(),
        stop,
        torn: false,
        abandon: false,
        write: -1,
        report: format!("{}/report", scratch.0),
        fails: if c.on { 2 } else { 1 },
        again,
    };
    let open = |dir: &str| open_over(&c.backend, &format!("{}/{dir}", scratch.0));
    let calls = failing_child(&child("whole", -1, false), &scratch.0)?;
    if calls.1 != "ok" {
        return fail("child", format!("nothing failed, and the build ends with {}", calls.1));
    }
    let calls = calls.0;
    let (_wf, wdb, wcache) = open("whole")?;
    let (wdb, wcache) = (contents(&*wdb)?, contents(&*wcache)?);
    o.add("system_calls", if c.part.0 == 0 { calls as u64 } else { 0 });
    let mut stop = c.part.0;
    while stop < calls {
        for again in if sled { vec![false] } else { vec![false, true] } {
            let tell = |f: Fail| Fail {
                key: f.key,
                msg: format!("file-changing system call {stop} of {calls} {}{}: {}\n{}", if c.on { "and all after it failed" } else { "failed" }, if again { ", repeated by the same process" } else { "" }, f.msg, sc.text()),
            };
            o.traces += 1;
            let (_, r) = failing_child(&child("now", stop, again), &scratch.0).map_err(tell)?;
            {
                let (mut f, db, cache) = open("now")?;
                o.state(&(stop, c.on, contents(&*db).map_err(tell)?, contents(&*cache).map_err(tell)?));
                o.nontrivial(&(stop, c.on, &texts));
                o.evals += 1;
                let complete = |f: &Facade, what: &str| -> Res {
                    if let Some(e) = mdiff(&x.after, &observe(f, &x.ids, &WORDS)) {
                        return Err(tell(Fail { key: format!("{what}-observed"), msg: format!("{what}: {e}") }));
                    }
                    for (w, g, n) in [(&wdb, &db, "db"), (&wcache, &cache, "cache")] {
                        same_contents(n, w, &contents(&**g)?).map_err(|e| tell(Fail { key: format!("{what}-contents"), msg: format!("{what}: {}", e.msg) }))?;
                    }
                    Ok(())
                };
                if r == "ok" {
                    complete(&f, "succeeded")?;
                } else if again {
                    return Err(tell(Fail { key: "again".into(), msg: format!("the repetition ends with {r}") }));
                } else {
                    after_stop(&f, &x).map_err(tell)?;
                    o.transitions += 1;
                    guard(|| f.build_from_ocafile(texts.last().unwrap().clone()).map_err(|e| ferr(&e))).map_err(|e| tell(e.into()))?.map_err(|e| tell(mism(format!("repeated: {e}"))))?;
                    complete(&f, "repeated")?;
                }
            }
            io(std::fs::remove_dir_all(format!("{}/now", scratch.0)))?;
        }
        stop += c.part.1;
    }
    Ok(())
}
fn p29(ctx: &Ctx) {
    let p = pool();
    let all: Vec<usize> = (0..p.len()).collect();
    let mut cases = vec![];
    for (i, h) in paths(&p, &all, 2).into_iter().enumerate() {
        for on in [false, true] {
            if !ctx.quick() || h.progs.len() == 1 || i % 2 == on as usize {
                cases.push(OpCase { progs: h.progs.clone(), on, every: 1 });
            }
        }
    }
    for w in wide_progs().into_iter().take(if ctx.quick() { 1 } else { 6 }) {
        let n = w.cmds.len();
        let mut sm = SM::default();
        if let Ok(b) = sm.build(&Prog::new(w.cmds[..n - 1].to_vec())) {
            cases.push(OpCase { progs: vec![Prog::new(w.cmds[..n - 1].to_vec()), Prog::new(vec![Cmd::From(b.said), w.cmds[n - 1].clone(), label("fr", &[("a", "again")])])], on: false, every: if ctx.quick() { 40 } else { 7 } });
        }
    }
    ctx.run("operations", &cases, p29_ops);
    let qs: Vec<Vec<Prog>> = paths(&p, &all, 2).into_iter().map(|h| h.progs).filter(|h| h.len() == 1 || !ctx.quick() || h[0].name.is_some()).collect();
    ctx.run("queries", &qs, p29_queries);
    let mut hs: Vec<Vec<Prog>> = vec![vec![p[1].clone()], vec![p[0].clone(), p[4].clone()]];
    if !ctx.quick() {
        hs = paths(&p, &all, 1).into_iter().map(|h| h.progs).collect();
        hs.extend(paths(&p, &[0, 1, 2, 3, 4, 5, 7, 8, 13, 15], 2).into_iter().map(|h| h.progs).filter(|h| h.len() == 2));
    }
    let mut cases = vec![];
    for h in &hs {
        for on in [false, true] {
            for i in 0..8 {
                cases.push(CallCase { progs: h.clone(), on, part: (i, 8), backend: fs() });
            }
        }
    }
    ctx.run("calls", &cases, p29_calls);
    ctx.run("reads", &cases, p29_reads);
    let cases: Vec<CallCase> = cases.into_iter().map(|c| CallCase { backend: "sled".into(), ..c }).collect();
    ctx.run("sled-calls", &cases, p29_calls);
    ctx.run("file-queries", &hs, p29_file_queries);
    ctx.run("sled-queries", &hs, p29_sled_queries);
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
