//! P26: several facades over one store, every interleaving of their storage operations up to a preemption bound.
use crate::alpha::*;
use crate::lang::*;
use crate::p_back::{relation_set, sqlite};
use crate::p_misc::Scratch;
use crate::p_store::{mism, pool};
use crate::rt::*;
use crate::store::*;
use crate::sys::*;
use crate::Entry;
use oca_rs::data_storage::*;
use oca_rs::Facade;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Condvar, Mutex};

pub static P26: Entry = (
    "P26",
    "model_checking",
    "every schedule of the storage operations and of the statements on the search index of two or three threads (builders, and a reader), each opening a facade of its own, with at most the stated number of preemptions, threads switching only at those operations and statements; non-trivial: the schedule preempts",
    &["a storage operation, and a statement on the index or a transaction of several, is atomic (for the file system storage the system calls of its operations are interleaved)", "the search index is one SQLite file shared by the facades"],
    p26,
    |st, c| match st {
        "files" => p26_files(&parse_case(c), &mut Obs::default()),
        "plan" => p26_check(&parse_case(c), &mut Obs::default()),
        _ => explore(&parse_case(c), &mut Obs::default()),
    },
);

// ---- the scheduler: one thread runs at a time; at every storage operation it may be another's turn
#[derive(Default)]
struct State {
    turn: Option<usize>,
    done: Vec<bool>,
    ready: usize,
    /// choice point -> thread
    plan: BTreeMap<usize, usize>,
    points: Vec<Point>,
    log: Vec<Access>,
}
#[derive(Clone, Debug)]
struct Point {
    options: Vec<usize>,
    chosen: usize,
    /// choosing another than this thread is a preemption
    running: Option<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Access {
    thread: usize,
    write: bool,
    key: (String, String),
    /// relation entries in the record after a write
    value: Vec<u8>,
}
#[derive(Clone)]
struct Scheduler(Arc<(Mutex<State>, Condvar)>);
impl Scheduler {
    fn new(n: usize, plan: &BTreeMap<usize, usize>) -> Self {
        Scheduler(Arc::new((Mutex::new(State { done: vec![false; n], plan: plan.clone(), ..Default::default() }), Condvar::new())))
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.0 .0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn choose(&self, s: &mut State, running: Option<usize>) {
        let mut options: Vec<usize> = (0..s.done.len()).filter(|t| !s.done[*t]).collect();
        if options.is_empty() {
            s.turn = None;
            return;
        }
        if let Some(r) = running {
            options.retain(|t| *t != r);
            options.insert(0, r);
        }
        let i = s.points.len();
        let chosen = s.plan.get(&i).copied().filter(|t| options.contains(t)).unwrap_or(options[0]);
        s.points.push(Point { options, chosen, running });
        s.turn = Some(chosen);
        self.0 .1.notify_all();
    }
    fn await_turn(&self, mut s: std::sync::MutexGuard<'_, State>, t: usize) {
        while s.turn != Some(t) {
            s = self.0 .1.wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }
    fn start(&self, t: usize) {
        let mut s = self.lock();
        s.ready += 1;
        if s.ready == s.done.len() {
            self.choose(&mut s, None);
        }
        self.await_turn(s, t);
    }
    fn op(&self, t: usize, a: Access) {
        let mut s = self.lock();
        self.choose(&mut s, Some(t));
        self.await_turn(s, t);
        self.lock().log.push(a);
    }
    fn point(&self, t: usize) {
        let mut s = self.lock();
        self.choose(&mut s, Some(t));
        self.await_turn(s, t);
    }
    fn finish(&self, t: usize) {
        let mut s = self.lock();
        s.done[t] = true;
        self.choose(&mut s, None);
        self.0 .1.notify_all();
    }
}
#[derive(Clone)]
struct Shared {
    mem: Mem,
    sched: Scheduler,
    thread: usize,
    name: &'static str,
}
impl Shared {
    fn at(&self, n: &Namespace, key: &str, value: Option<&[u8]>) {
        self.sched.op(
            self.thread,
            Access { thread: self.thread, write: value.is_some(), key: (format!("{}/{}", self.name, n.as_str()), key.to_string()), value: value.map(|v| v.to_vec()).unwrap_or_default() },
        );
    }
}
impl DataStorage for Shared {
    fn get(&self, n: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        self.at(&n, key, None);
        self.mem.get(n, key)
    }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        self.at(&n, "*", None);
        self.mem.get_all(n)
    }
    fn insert(&mut self, n: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        self.at(&n, key, Some(value));
        self.mem.insert(n, key, value)
    }
    fn new() -> Self {
        unreachable!()
    }
    fn config(&self, _: HashMap<String, String>) -> Self {
        self.clone()
    }
}

// ---- statements on the index as scheduling points
mod sql {
    use std::os::raw::{c_int, c_uint, c_void};
    extern "C" {
        fn sqlite3_auto_extension(f: Option<unsafe extern "C" fn(*mut c_void, *mut *mut i8, *const c_void) -> c_int>) -> c_int;
        fn sqlite3_trace_v2(db: *mut c_void, mask: c_uint, f: Option<unsafe extern "C" fn(c_uint, *mut c_void, *mut c_void, *mut c_void) -> c_int>, ctx: *mut c_void) -> c_int;
        fn sqlite3_next_stmt(db: *mut c_void, stmt: *mut c_void) -> *mut c_void;
        fn sqlite3_stmt_busy(stmt: *mut c_void) -> c_int;
        fn sqlite3_get_autocommit(db: *mut c_void) -> c_int;
    }
    thread_local! {
        pub static POINTS: std::cell::RefCell<Option<(super::Scheduler, usize)>> = const { std::cell::RefCell::new(None) };
    }
    unsafe extern "C" fn begins(_: c_uint, db: *mut c_void, stmt: *mut c_void, _: *mut c_void) -> c_int {
        let s = POINTS.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
        if let Ok(Some((s, t))) = s {
            // inside a transaction or another statement the connection may hold locks others wait for
            if sqlite3_get_autocommit(db) == 0 {
                return 0;
            }
            let mut other = sqlite3_next_stmt(db, std::ptr::null_mut());
            while !other.is_null() {
                if other != stmt && sqlite3_stmt_busy(other) != 0 {
                    return 0;
                }
                other = sqlite3_next_stmt(db, other);
            }
            s.point(t);
        }
        0
    }
    unsafe extern "C" fn opened(db: *mut c_void, _: *mut *mut i8, _: *const c_void) -> c_int {
        sqlite3_trace_v2(db, 1, Some(begins), db)
    }
    /// every connection opened from now on reports its statements
    pub fn watch() {
        unsafe {
            sqlite3_auto_extension(Some(opened));
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    /// built before, by one facade
    first: Vec<Prog>,
    /// one after another, a thread each
    threads: Vec<Vec<Prog>>,
    /// a further thread reads
    reader: bool,
    preemptions: usize,
    /// threads may also switch before every statement on the search index
    #[serde(default)]
    statements: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    setup: Setup,
    plan: BTreeMap<usize, usize>,
}
type Contents = BTreeMap<(String, String), Vec<u8>>;
struct End {
    points: Vec<Point>,
    log: Vec<Access>,
    contents: Contents,
    seen: BTreeMap<String, String>,
    read: Vec<String>,
}
fn snapshot(db: &Mem, cache: &Mem) -> Contents {
    let mut m = Contents::new();
    for (n, s) in [("db", db), ("cache", cache)] {
        for ((ns, k), v) in s.snapshot() {
            let rel = ns == "oca_relations" && !k.ends_with(".metadata");
            m.insert((format!("{n}/{ns}"), k), if rel { relation_set(&v) } else { v });
        }
    }
    m
}
const WORDS: [&str; 2] = ["alpha", "common"];
fn reads(f: &Facade) -> Result<String, String> {
    let mut out = String::new();
    let all = guard(|| f.fetch_all_oca_bundle(100, 1))?.map_err(|e| format!("{e:?}"))?;
    let found = guard(|| f.search_oca_bundle(None, "alpha".into(), 100, 1))?;
    let ids: Vec<String> = all.records.iter().map(said_of).chain(found.records.iter().map(|r| said_of(&r.oca_bundle))).collect();
    for id in &ids {
        guard(|| f.get_oca_bundle(sai(id), true))?.map_err(|e| format!("{id} is listed but cannot be retrieved: {e:?}"))?;
        guard(|| f.get_oca_bundle_steps(sai(id)))?.map_err(|e| format!("{id} is listed but its history cannot be retrieved: {e:?}"))?;
        let r = guard(|| f.explore(id.clone()))?;
        out.push_str(&format!("{id} {};", r.as_ref().map(|r| r.relations.len()).unwrap_or(0)));
        for x in r.map(|r| r.relations).unwrap_or_default() {
            let gone = match kind_name(&x.object_type).as_str() {
                "bundle" => guard(|| f.get_oca_bundle(sai(&x.said), false))?.is_err(),
                _ => guard(|| f.get_oca_objects(vec![x.said.clone()]))?.is_err(),
            };
            if gone {
                return Err(format!("the relations of {id} lead to {}, which cannot be retrieved", x.said));
            }
        }
    }
    guard(|| f.fetch_all_refs())?.map(|_| ()).map_err(|e| format!("refs: {e}"))?;
    Ok(out)
}
/// One execution under a schedule.
fn execute(setup: &Setup, start: &(Mem, Mem), plan: &BTreeMap<usize, usize>, index: &str, ids: &[String]) -> Result<End, Fail> {
    let (db, cache) = (Mem::restore(start.0.snapshot()), Mem::restore(start.1.snapshot()));
    let n = setup.threads.len() + setup.reader as usize;
    let sched = Scheduler::new(n, plan);
    let facade = |t: usize| {
        let s = |m: &Mem, name| Box::new(Shared { mem: m.clone(), sched: sched.clone(), thread: t, name });
        Facade::new(s(&db, "db"), s(&cache, "cache"), sqlite(index))
    };
    let mut results: Vec<Result<Vec<String>, String>> = vec![];
    let statements = setup.statements;
    static WATCH: std::sync::Once = std::sync::Once::new();
    WATCH.call_once(sql::watch);
    std::thread::scope(|sc| {
        let mut handles = vec![];
        for t in 0..n {
            let (opened, sched, progs) = (if statements { None } else { Some(facade(t)) }, sched.clone(), setup.threads.get(t).cloned());
            let facade = &facade;
            handles.push(sc.spawn(move || {
                sched.start(t);
                if statements {
                    sql::POINTS.with(|x| *x.borrow_mut() = Some((sched.clone(), t)));
                }
                // with statements as points, the facades are opened at the same time too
                let mut f = match opened.map(Ok).unwrap_or_else(|| guard(|| facade(t))) {
                    Ok(f) => f,
                    Err(e) => {
                        sql::POINTS.with(|x| x.borrow_mut().take());
                        sched.finish(t);
                        return Err(format!("opening: {e}"));
                    }
                };
                let r = match progs {
                    Some(ps) => guard(|| ps.iter().try_for_each(|p| f.build_from_ocafile(p.text()).map(|_| ()).map_err(|e| ferr(&e)))).and_then(|x| x).map(|_| vec![]),
                    None => reads(&f).and_then(|a| reads(&f).map(|b| vec![a, b])),
                };
                sql::POINTS.with(|x| x.borrow_mut().take());
                sched.finish(t);
                r
            }));
        }
        for h in handles {
            results.push(h.join().unwrap_or_else(|_| Err("thread ended".into())));
        }
    });
    let (points, log) = {
        let mut s = sched.lock();
        (std::mem::take(&mut s.points), std::mem::take(&mut s.log))
    };
    let mut read = vec![];
    for (t, r) in results.into_iter().enumerate() {
        match r {
            Ok(v) => read.extend(v),
            Err(e) => return fail(if t < setup.threads.len() { "builder" } else { "reader" }, format!("thread {t}: {e}")),
        }
    }
    let f = Facade::new(Box::new(db.clone()), Box::new(cache.clone()), sqlite(index));
    let seen = observe(&f, ids, &WORDS);
    Ok(End { points, log, contents: snapshot(&db, &cache), seen, read })
}
struct Serial {
    contents: Vec<Contents>,
    seen: Vec<BTreeMap<String, String>>,
    ids: Vec<String>,
}
fn serial(setup: &Setup) -> Result<(Serial, (Mem, Mem)), Fail> {
    let mut s = Serial { contents: vec![], seen: vec![], ids: vec![] };
    let mut start = None;
    // every merge of the threads' programs is a serial order; threads here have one or two programs
    let mut orders: Vec<Vec<(usize, usize)>> = vec![];
    fn merge(left: &mut Vec<(usize, usize)>, setup: &Setup, at: &mut Vec<usize>, out: &mut Vec<Vec<(usize, usize)>>) {
        let mut end = true;
        for t in 0..setup.threads.len() {
            if at[t] < setup.threads[t].len() {
                end = false;
                left.push((t, at[t]));
                at[t] += 1;
                merge(left, setup, at, out);
                at[t] -= 1;
                left.pop();
            }
        }
        if end {
            out.push(left.clone());
        }
    }
    merge(&mut vec![], setup, &mut vec![0; setup.threads.len()], &mut orders);
    let mut sm = SM::default();
    for p in setup.first.iter().chain(setup.threads.iter().flatten()) {
        sm.build(p).map_err(mism)?;
    }
    s.ids = sm.ids();
    for order in orders {
        let mut w = World::new();
        for p in &setup.first {
            guard(|| w.build(p))?.map_err(mism)?;
        }
        if start.is_none() {
            start = Some((Mem::restore(w.db.snapshot()), Mem::restore(w.cache.snapshot())));
        }
        for (t, i) in order {
            guard(|| w.build(&setup.threads[t][i]))?.map_err(mism)?;
        }
        s.contents.push(snapshot(&w.db, &w.cache));
        s.seen.push(observe(&w.f, &s.ids, &WORDS));
    }
    Ok((s, start.unwrap()))
}
fn entries(v: &[u8]) -> BTreeSet<Vec<u8>> {
    let mut parts = BTreeSet::new();
    let mut at = v;
    while at.len() >= 2 && at.len() >= 2 + at[1] as usize {
        let (a, r) = at.split_at(2 + at[1] as usize);
        parts.insert(a.to_vec());
        at = r;
    }
    parts
}
/// The record of `key` lost entries because a thread read it, another wrote it, and the first wrote back
/// what it had read: the entries missing are exactly ones so overwritten.
fn lost_update(log: &[Access], key: &(String, String), missing: &BTreeSet<Vec<u8>>) -> bool {
    let acc: Vec<&Access> = log.iter().filter(|a| a.key == *key).collect();
    let mut lost = BTreeSet::new();
    for (i, w) in acc.iter().enumerate().filter(|(_, a)| a.write) {
        let Some(r) = acc[..i].iter().rposition(|a| !a.write && a.thread == w.thread) else { continue };
        for between in &acc[r..i] {
            if between.write && between.thread != w.thread {
                lost.extend(entries(&between.value).difference(&entries(&w.value)).cloned());
            }
        }
    }
    missing.is_subset(&lost)
}
fn judge(e: &End, s: &Serial) -> Res {
    // every record is as some serial order leaves it
    let all: BTreeSet<&(String, String)> = e.contents.keys().chain(s.contents.iter().flat_map(|c| c.keys())).collect();
    let mut lost: Vec<String> = vec![];
    for k in all {
        let got = e.contents.get(k);
        if s.contents.iter().any(|c| c.get(k) == got) {
            continue;
        }
        let text = |v: Option<&Vec<u8>>| v.map(|v| String::from_utf8_lossy(v).chars().take(200).collect::<String>());
        let want = s.contents[0].get(k);
        if let (Some(g), Some(w), "db/oca_relations") = (got, want, k.0.as_str()) {
            let (g, w) = (entries(g), entries(w));
            let missing: BTreeSet<Vec<u8>> = w.difference(&g).cloned().collect();
            if g.is_subset(&w) && lost_update(&e.log, k, &missing) {
                lost.push(k.1.clone());
                continue;
            }
        }
        return fail("contents", format!("{k:?} is {:?}, one build after the other leaves {:?}", text(got), text(want)));
    }
    for (q, v) in &e.seen {
        if q.starts_with("explore ") && !lost.is_empty() && !v.starts_with("PANIC") {
            continue;
        }
        if !s.seen.iter().any(|x| x.get(q) == Some(v)) {
            return fail("observed", format!("{q}: {v}\none build after the other gives {:?}", s.seen.iter().map(|x| x.get(q)).collect::<Vec<_>>()));
        }
    }
    if !lost.is_empty() {
        return fail("lost-relation-update", format!("relations of {lost:?} were overwritten"));
    }
    Ok(())
}
fn show(s: &Setup, e: &[Access]) -> String {
    let mut t = String::new();
    for p in &s.first {
        t.push_str(&format!("before:\n{}", p.text()));
    }
    for (i, ps) in s.threads.iter().enumerate() {
        for p in ps {
            t.push_str(&format!("thread {i}:\n{}", p.text()));
        }
    }
    t.push_str("schedule:");
    let mut last = None;
    for a in e {
        if last != Some(a.thread) {
            t.push_str(&format!("\n thread {}:", a.thread));
            last = Some(a.thread);
        }
        t.push_str(&format!(" {}", if a.write { "w" } else { "r" }));
    }
    t
}
fn p26_check(c: &Sched, o: &mut Obs) -> Res {
    let (s, start) = serial(&c.setup)?;
    let scratch = Scratch::new("conc")?;
    one(&c.setup, &s, &start, &c.plan, &scratch.0, 0, o).map(|_| ())
}
fn index_with(setup: &Setup, dir: &str) -> Res {
    let mut f = Facade::new(Box::new(Mem::default()), Box::new(Mem::default()), sqlite(dir));
    setup.first.iter().try_for_each(|p| guard(|| f.build_from_ocafile(p.text()).map(|_| ()).map_err(|e| ferr(&e))).and_then(|x| x)).map_err(mism)
}
fn one(setup: &Setup, s: &Serial, start: &(Mem, Mem), plan: &BTreeMap<usize, usize>, scratch: &str, i: usize, o: &mut Obs) -> Result<Vec<Point>, Fail> {
    let index = format!("{scratch}/{i}");
    if !setup.statements || !setup.first.is_empty() {
        index_with(setup, &index)?;
    }
    o.traces += 1;
    let r = execute(setup, start, plan, &index, &s.ids);
    let _ = std::fs::remove_dir_all(&index);
    let e = r.map_err(|f| Fail { key: f.key, msg: format!("{}\n{}", f.msg, show(setup, &[])) })?;
    o.transitions += e.log.len() as u64;
    o.evals += 1;
    o.state(&e.contents);
    if !plan.is_empty() {
        o.nontrivial(&(plan, &e.read));
    }
    match judge(&e, s) {
        Ok(()) => Ok(e.points),
        Err(f) if f.key == "lost-relation-update" => {
            o.add("schedules_that_lose_relations", 1);
            LOST.with(|l| l.borrow_mut().get_or_insert(Fail { key: f.key, msg: format!("{}\n{}", f.msg, show(setup, &e.log)) }).key.len());
            Ok(e.points)
        }
        Err(f) => Err(Fail { key: f.key, msg: format!("{}\n{}", f.msg, show(setup, &e.log)) }),
    }
}
thread_local! {
    static LOST: std::cell::RefCell<Option<Fail>> = const { std::cell::RefCell::new(None) };
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    setup: Setup,
    part: (usize, usize),
}
/// Depth-first over the schedules: each is the default one up to its last planned choice.
fn explore(j: &Job, o: &mut Obs) -> Res {
    let (s, start) = serial(&j.setup)?;
    let scratch = Scratch::new("conc")?;
    LOST.with(|l| l.borrow_mut().take());
    let mut todo: Vec<(BTreeMap<usize, usize>, usize, usize)> = vec![(BTreeMap::new(), 0, 0)];
    let mut n = 0;
    let mut first = 0usize;
    while let Some((plan, from, used)) = todo.pop() {
        n += 1;
        let points = match one(&j.setup, &s, &start, &plan, &scratch.0, n, o) {
            Ok(p) => p,
            Err(f) => return Err(Fail { key: f.key, msg: format!("{}\nplan {plan:?}", f.msg) }),
        };
        for (i, p) in points.iter().enumerate().skip(from) {
            for t in &p.options {
                if *t == p.chosen {
                    continue;
                }
                let cost = used + p.running.is_some() as usize;
                if cost > j.setup.preemptions {
                    continue;
                }
                if plan.is_empty() {
                    // the jobs of a setup share the first deviations among them
                    first += 1;
                    if first % j.part.1 != j.part.0 {
                        continue;
                    }
                }
                let mut q = plan.clone();
                q.insert(i, *t);
                todo.push((q, i + 1, cost));
            }
        }
    }
    o.add("schedules", n as u64);
    match LOST.with(|l| l.borrow_mut().take()) {
        Some(f) => Err(f),
        None => Ok(()),
    }
}

// ---- one file system storage, every interleaving of the system calls of its operations
thread_local! {
    static CALLS: std::cell::RefCell<Option<(Scheduler, usize)>> = const { std::cell::RefCell::new(None) };
}
/// Called before every system call on files.
pub fn at_call() {
    let s = CALLS.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
    if let Ok(Some((s, t))) = s {
        s.point(t);
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum FOp {
    Put(usize, String, String),
    Get(usize, String),
    All(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    first: Vec<FOp>,
    threads: Vec<Vec<FOp>>,
    preemptions: usize,
    /// each thread has a handle of its own instead of a clone
    apart: bool,
}
#[derive(Clone, Debug)]
struct Done {
    op: FOp,
    /// numbers of the scheduling points before and after
    from: usize,
    to: usize,
    got: Result<BTreeMap<String, Vec<u8>>, String>,
}
fn fop(s: &mut dyn DataStorage, op: &FOp) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let ns = crate::p_back::ns;
    guard(|| match op {
        FOp::Put(n, k, v) => s.insert(ns(*n), k, v.as_bytes()).map(|_| BTreeMap::new()),
        FOp::Get(n, k) => s.get(ns(*n), k).map(|v| v.into_iter().map(|v| (k.clone(), v)).collect()),
        FOp::All(n) => s.get_all(ns(*n)).map(|m| m.into_iter().collect()),
    })
    .and_then(|x| x)
}
/// Is there an order of the operations on one key, consistent with when they began and ended, that explains what was read?
fn explained(writes: &[(usize, usize, Vec<u8>)], reads: &[(usize, usize, Option<Vec<u8>>)], now: &Option<Vec<u8>>) -> bool {
    if writes.is_empty() && reads.is_empty() {
        return true;
    }
    // one that no other, left, ended before
    let end = writes.iter().map(|w| w.1).chain(reads.iter().map(|r| r.1)).min().unwrap();
    for i in 0..writes.len() {
        if writes[i].0 <= end {
            let mut w = writes.to_vec();
            let x = w.remove(i);
            if explained(&w, reads, &Some(x.2)) {
                return true;
            }
        }
    }
    for i in 0..reads.len() {
        if reads[i].0 <= end && reads[i].2 == *now {
            let mut r = reads.to_vec();
            r.remove(i);
            if explained(writes, &r, now) {
                return true;
            }
        }
    }
    false
}
fn run_files(c: &FCase, plan: &BTreeMap<usize, usize>, dir: &str) -> Result<Vec<Point>, Fail> {
    let open = || FileSystemStorage::new().config(FileSystemStorageConfig::build().path(dir.into()).unwrap());
    let mut s = open();
    let mut done: Vec<Done> = vec![];
    for op in &c.first {
        let got = fop(&mut s, op);
        done.push(Done { op: op.clone(), from: 0, to: 0, got });
    }
    let n = c.threads.len();
    let sched = Scheduler::new(n, plan);
    let results: Vec<Vec<Done>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (sched, ops, mut s) = (sched.clone(), &c.threads[t], if c.apart { open() } else { s.clone() });
                sc.spawn(move || {
                    sched.start(t);
                    let now = || sched.lock().points.len();
                    CALLS.with(|x| *x.borrow_mut() = Some((sched.clone(), t)));
                    let mut v = vec![];
                    for op in ops {
                        let from = now();
                        let got = fop(&mut s, op);
                        v.push(Done { op: op.clone(), from, to: now(), got });
                        sched.point(t);
                    }
                    CALLS.with(|x| x.borrow_mut().take());
                    sched.finish(t);
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let points = std::mem::take(&mut sched.lock().points);
    done.extend(results.into_iter().flatten());
    let last = points.len() + 1;
    for n in c.first.iter().chain(c.threads.iter().flatten()).map(|o| match o { FOp::Put(n, ..) | FOp::Get(n, _) | FOp::All(n) => *n }).collect::<BTreeSet<_>>() {
        done.push(Done { op: FOp::All(n), from: last, to: last, got: fop(&mut s, &FOp::All(n)) });
    }
    for d in &done {
        if let Err(e) = &d.got {
            return fail("files", format!("{:?} ends with {e}", d.op));
        }
    }
    let mut keys: BTreeSet<(usize, String)> = BTreeSet::new();
    for d in &done {
        match &d.op {
            FOp::Put(n, k, _) | FOp::Get(n, k) => {
                keys.insert((*n, k.clone()));
            }
            FOp::All(n) => keys.extend(d.got.as_ref().unwrap().keys().map(|k| (*n, k.clone()))),
        }
    }
    for (n, k) in keys {
        let (mut w, mut r) = (vec![], vec![]);
        for d in &done {
            match &d.op {
                FOp::Put(m, x, v) if *m == n && *x == k => w.push((d.from, d.to, v.as_bytes().to_vec())),
                FOp::Get(m, x) if *m == n && *x == k => r.push((d.from, d.to, d.got.as_ref().unwrap().get(&k).cloned())),
                FOp::All(m) if *m == n => r.push((d.from, d.to, d.got.as_ref().unwrap().get(&k).cloned())),
                _ => {}
            }
        }
        if !explained(&w, &r, &None) {
            return fail("files", format!("{k:?} in {}: written {w:?}, read {r:?}: no order explains it", crate::p_back::ns(n).as_str()));
        }
    }
    Ok(points)
}
fn p26_files(c: &FCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("files")?;
    let mut todo: Vec<(BTreeMap<usize, usize>, usize, usize)> = vec![(BTreeMap::new(), 0, 0)];
    let mut n = 0;
    while let Some((plan, from, used)) = todo.pop() {
        n += 1;
        let dir = format!("{}/{n}", scratch.0);
        let points = run_files(c, &plan, &dir).map_err(|f| Fail { key: f.key, msg: format!("{}
{c:?}
plan {plan:?}", f.msg) })?;
        let _ = std::fs::remove_dir_all(&dir);
        o.traces += 1;
        o.evals += 1;
        o.transitions += points.len() as u64;
        if !plan.is_empty() {
            o.nontrivial(&(format!("{c:?}"), &plan));
        }
        for (i, p) in points.iter().enumerate().skip(from) {
            for t in p.options.iter().filter(|t| **t != p.chosen) {
                let cost = used + p.running.is_some() as usize;
                if cost <= c.preemptions {
                    let mut q = plan.clone();
                    q.insert(i, *t);
                    todo.push((q, i + 1, cost));
                }
            }
        }
    }
    o.add("file_schedules", n as u64);
    Ok(())
}
fn file_cases(quick: bool) -> Vec<FCase> {
    let put = |k: &str, v: &str| FOp::Put(0, k.into(), v.into());
    let ops = [put("a", "1"), put("a", "22"), put("b", "333"), FOp::Get(0, "a".into()), FOp::All(0), FOp::Put(1, "a".into(), "4".into())];
    let mut v = vec![];
    let firsts: Vec<Vec<FOp>> = vec![vec![], vec![put("a", "0")], vec![put("a", "0"), put("b", "00")]];
    for first in &firsts {
        for (i, x) in ops.iter().enumerate() {
            for y in &ops[i..] {
                if matches!((x, y), (FOp::Get(..) | FOp::All(_), FOp::Get(..) | FOp::All(_))) {
                    continue;
                }
                for apart in [false, true] {
                    v.push(FCase { first: first.clone(), threads: vec![vec![x.clone()], vec![y.clone()]], preemptions: if quick { 3 } else { 99 }, apart });
                }
                if !quick || first.len() < 2 {
                    for z in &ops {
                        v.push(FCase { first: first.clone(), threads: vec![vec![x.clone(), z.clone()], vec![y.clone()]], preemptions: if quick { 1 } else { 3 }, apart: false });
                    }
                }
                if !quick {
                    for z in &ops {
                        v.push(FCase { first: first.clone(), threads: vec![vec![x.clone()], vec![y.clone()], vec![z.clone()]], preemptions: 2, apart: true });
                    }
                }
            }
        }
    }
    v
}
fn p26(ctx: &Ctx) {
    ctx.run("files", &file_cases(ctx.quick()), p26_files);
    let p = pool();
    let q = ctx.quick();
    let mut setups = vec![];
    let b2 = if q { 1 } else { 2 };
    let mut two = |a: usize, b: usize, first: &[usize], bound: usize| {
        setups.push(Setup { first: first.iter().map(|i| p[*i].clone()).collect(), threads: vec![vec![p[a].clone()], vec![p[b].clone()]], reader: false, preemptions: bound, statements: false });
    };
    // pairs that share bundles, capture bases, overlays or names
    for (a, c) in [(0, 1), (1, 3), (2, 0), (2, 3), (4, 5), (1, 13), (7, 1), (3, 12), (0, 0), (1, 1), (3, 3)] {
        if [7].contains(&a) {
            two(a, c, &[4], b2);
        } else {
            two(a, c, &[], b2);
        }
    }
    two(0, 2, &[], 2);
    two(4, 5, &[], 2);
    two(8, 9, &[0, 1], b2);
    two(9, 15, &[1], b2);
    two(10, 8, &[0, 1], b2);
    // builders that undo what the other does
    let undo = |x: &str, y: &str| Prog::new(vec![attr(x, b("Text")), attr(y, b("Text")), rem(&[x])]);
    setups.push(Setup { first: vec![], threads: vec![vec![undo("a", "b")], vec![undo("b", "a")]], reader: false, preemptions: 2, statements: false });
    for (a, first) in [(1usize, vec![]), (3, vec![1usize]), (15, vec![1]), (13, vec![]), (7, vec![4]), (11, vec![0, 1, 10])] {
        setups.push(Setup { first: first.iter().map(|i| p[*i].clone()).collect(), threads: vec![vec![p[a].clone()]], reader: true, preemptions: if q { 1 } else { 2 }, statements: false });
    }
    setups.push(Setup { first: vec![], threads: vec![vec![p[0].clone()], vec![p[1].clone()]], reader: true, preemptions: 1, statements: false });
    setups.push(Setup { first: vec![], threads: vec![vec![p[0].clone(), p[4].clone()], vec![p[5].clone(), p[2].clone()]], reader: false, preemptions: b2, statements: false });
    if !q {
        setups.push(Setup { first: vec![], threads: vec![vec![p[0].clone()], vec![p[1].clone()], vec![p[2].clone()]], reader: false, preemptions: 1, statements: false });
        setups.push(Setup { first: vec![], threads: vec![vec![p[0].clone()], vec![p[2].clone()]], reader: false, preemptions: 3, statements: false });
    }
    let deepest = if q { 1 } else { 2 };
    let with: Vec<Setup> = setups.iter().map(|s| Setup { statements: true, preemptions: s.preemptions.min(deepest), ..s.clone() }).collect();
    // with more scheduling points the others are among the schedules already
    setups.retain(|s| s.preemptions > deepest);
    setups.extend(with);
    let parts = if q { 4 } else { 16 };
    let jobs: Vec<Job> = setups.iter().flat_map(|s| (0..parts).map(move |i| Job { setup: s.clone(), part: (i, parts) })).collect();
    ctx.note("setups", setups.len());
    ctx.run("schedules", &jobs, explore);
}
