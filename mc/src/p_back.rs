//! P17, P18: the storage backends, and what a stopped process leaves in them.
use crate::alpha::*;
use crate::lang::*;
use crate::p_misc::Scratch;
use crate::p_store::{mism, paths, pool};
use crate::rt::*;
use crate::store::*;
use crate::sys::*;
use crate::Entry;
use oca_rs::data_storage::*;
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::Arc;

pub const NSS: usize = 6;
pub fn ns(i: usize) -> Namespace {
    match i {
        0 => Namespace::OCA,
        1 => Namespace::OCABundlesJSON,
        2 => Namespace::OCAObjectsJSON,
        3 => Namespace::CoreModel,
        4 => Namespace::OCARelations,
        _ => Namespace::OCAReferences,
    }
}
fn path_config(dir: &str) -> HashMap<String, String> {
    FileSystemStorageConfig::build().path(dir.into()).unwrap()
}
/// Opens a storage; `dir` is where a persistent one keeps its data.
pub fn open_store(kind: &str, dir: &str) -> Result<Box<dyn DataStorage>, Fail> {
    match kind {
        "memory" => Ok(Box::new(InMemoryDataStorage::new())),
        "fs" => Ok(Box::new(FileSystemStorage::new().config(path_config(dir)))),
        _ => {
            // a closed sled database gives up its lock in the background
            for _ in 0..500 {
                let s = SledDataStorage::new().config(SledDataStorageConfig::build().path(dir.into()).unwrap());
                if s.get(Namespace::OCA, "x").is_ok() {
                    return Ok(Box::new(s));
                }
                std::thread::sleep(std::time::Duration::from_millis(10));
            }
            fail("open", format!("the {kind} storage does not open again"))
        }
    }
}

// ------------------------------------------------------------------ P17
pub static P17: Entry = (
    "P17",
    "model_checking",
    "every sequence of insert / reopen / clone operations up to the stated depth over namespaces, keys that contain, resemble or escape from one another, and values, for each backend; after every operation every key is read and every namespace listed; and every history of builds over every pair of backends compared with the same history over plain maps",
    &["keys of up to 100 characters; the file system backend is used on a case-sensitive file system"],
    p17,
    |st, c| match st {
        "facade" => p17_facade(&parse_case(c), &mut Obs::default()),
        "unopened" => p17_unopened(&parse_case(c), &mut Obs::default()),
        _ => p17_ops(&parse_case(c), &mut Obs::default()),
    },
);
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// namespace, key, value
    Ins(usize, String, Vec<u8>),
    Reopen,
    /// go on with a clone; the original is looked at in the end
    Clone,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpCase {
    kind: String,
    ops: Vec<Op>,
    keys: Vec<String>,
}
type Maps = BTreeMap<(usize, String), Vec<u8>>;
fn compare(st: &dyn DataStorage, m: &Maps, keys: &[String], ops: &dyn Fn() -> String, o: &mut Obs) -> Res {
    for n in 0..NSS {
        for k in keys {
            o.evals += 1;
            let got = guard(|| st.get(ns(n), k)).map_err(|e| mism(format!("get({}, {k:?}): {e}, {}", ns(n).as_str(), ops())))?;
            let want = m.get(&(n, k.clone()));
            if got.as_ref().ok().map(|x| x.as_ref()) != Some(want) {
                return fail("get", format!("get({}, {k:?}) is {}, expected {}, {}", ns(n).as_str(), short(&got), short(&want), ops()));
            }
        }
        let got = guard(|| st.get_all(ns(n))).map_err(|e| mism(format!("get_all({}): {e}, {}", ns(n).as_str(), ops())))?;
        let want: BTreeMap<String, Vec<u8>> = m.iter().filter(|(k, _)| k.0 == n).map(|(k, v)| (k.1.clone(), v.clone())).collect();
        let got: Result<BTreeMap<String, Vec<u8>>, String> = got.map(|g| g.into_iter().collect());
        if got.as_ref() != Ok(&want) {
            return fail("get_all", format!("get_all({}) is {}, expected {}, {}", ns(n).as_str(), short(&got), short(&want), ops()));
        }
    }
    Ok(())
}
fn short<T: std::fmt::Debug>(t: &T) -> String {
    format!("{t:?}").chars().take(300).collect()
}
fn p17_ops(c: &OpCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("ops")?;
    o.traces += 1;
    let dir = format!("{}/a/b/store", scratch.0);
    std::fs::create_dir_all(&dir).map_err(|e| mism(e.to_string()))?;
    let real = |k: &str| k.replace("$ABS", &scratch.0);
    let keys: Vec<String> = c.keys.iter().map(|k| real(k)).collect();
    let ops = || format!("{} backend, after {}", c.kind, short(&c.ops));
    if c.kind == "dag" {
        return p17_dag(c, &dir, &keys, &ops, o);
    }
    let mut m = Maps::new();
    let mut st = open_store(&c.kind, &dir)?;
    let mut left: Vec<(Box<dyn DataStorage>, Maps)> = vec![];
    compare(&*st, &m, &keys, &ops, o)?;
    for op in &c.ops {
        o.transitions += 1;
        match op {
            Op::Ins(n, k, v) => {
                let k = real(k);
                guard(|| st.insert(ns(*n), &k, v))?.map_err(|e| Fail { key: "insert".into(), msg: format!("insert({}, {k:?}): {e}, {}", ns(*n).as_str(), ops()) })?;
                m.insert((*n, k), v.clone());
            }
            Op::Reopen => {
                if c.kind != "memory" {
                    left.clear();
                    drop(st);
                    st = open_store(&c.kind, &dir)?;
                }
            }
            Op::Clone => {
                let next = st.clone();
                left.push((std::mem::replace(&mut st, next), m.clone()));
            }
        }
        o.state(&(&c.kind, &m));
        if m.len() > 1 {
            o.nontrivial(&(&c.kind, &m));
        }
        compare(&*st, &m, &keys, &ops, o)?;
    }
    // clones of a handle to a persistent storage share it, clones of an in-memory storage are copies
    for (old, then) in &left {
        compare(&**old, if c.kind == "memory" { then } else { &m }, &keys, &ops, o)?;
    }
    // nothing is written outside the storage
    let mut outside = vec![];
    for d in ["", "/a", "/a/b"] {
        for e in std::fs::read_dir(format!("{}{d}", scratch.0)).map_err(|e| mism(e.to_string()))?.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if !["a", "b", "store"].contains(&n.as_str()) {
                outside.push(n);
            }
        }
    }
    if !outside.is_empty() {
        return fail("outside", format!("{outside:?} written outside the storage's directory, {}", ops()));
    }
    Ok(())
}
fn p17_dag(c: &OpCase, dir: &str, keys: &[String], ops: &dyn Fn() -> String, o: &mut Obs) -> Res {
    use oca_dag_semantics::data_storage::{DataStorage as DagStorage, SledDataStorage as DagSled};
    let open = || -> Result<DagSled, Fail> {
        for _ in 0..500 {
            let s = DagSled::open(dir);
            if s.get("x").is_ok() {
                return Ok(s);
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        fail("open", "the version store does not open again")
    };
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut left = vec![];
    let mut st = open()?;
    let look = |s: &DagSled, m: &BTreeMap<String, Vec<u8>>, o: &mut Obs| -> Res {
        for k in keys {
            o.evals += 1;
            let got = guard(|| s.get(k))?;
            if got.as_ref().ok().map(|x| x.as_ref()) != Some(m.get(k)) {
                return fail("get", format!("get({k:?}) is {}, expected {}, {}", short(&got), short(&m.get(k)), ops()));
            }
        }
        Ok(())
    };
    for op in &c.ops {
        o.transitions += 1;
        match op {
            Op::Ins(_, k, v) => {
                guard(|| st.insert(k, v))?.map_err(|e| Fail { key: "insert".into(), msg: format!("insert({k:?}): {e}") })?;
                m.insert(k.clone(), v.clone());
            }
            Op::Reopen => {
                left.clear();
                drop(st);
                st = open()?;
            }
            Op::Clone => {
                let next = st.clone();
                left.push(std::mem::replace(&mut st, next));
            }
        }
        o.state(&("dag", &m));
        if m.len() > 1 {
            o.nontrivial(&("dag", &m));
        }
        look(&st, &m, o)?;
    }
    left.iter().try_for_each(|s| look(s, &m, o))
}
/// Without a place to keep its data a persistent storage answers with an error.
fn p17_unopened(kind: &String, o: &mut Obs) -> Res {
    o.traces += 1;
    let none = HashMap::new();
    let other: HashMap<String, String> = [("dir".to_string(), "x".to_string())].into();
    let list: Vec<Box<dyn DataStorage>> = match kind.as_str() {
        "fs" => vec![Box::new(FileSystemStorage::new()), Box::new(FileSystemStorage::new().config(none)), Box::new(FileSystemStorage::new().config(other))],
        _ => vec![Box::new(SledDataStorage::new()), Box::new(SledDataStorage::new().config(none)), Box::new(SledDataStorage::new().config(other))],
    };
    for mut s in list {
        for n in 0..NSS {
            o.evals += 3;
            o.nontrivial(&(kind, n));
            let (a, b, c) = (guard(|| s.get(ns(n), "k"))?, guard(|| s.get_all(ns(n)))?, guard(|| s.insert(ns(n), "k", b"v"))?);
            if a.is_ok() || b.is_ok() || c.is_ok() {
                return fail("unopened", format!("an unopened {kind} storage answers {a:?} {b:?} {c:?}"));
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FacadeCase {
    db: String,
    cache: String,
    progs: Vec<Prog>,
}
pub fn sqlite(dir: &str) -> SQLiteConfig {
    SQLiteConfig::build().path(dir.into()).unwrap()
}
fn p17_facade(c: &FacadeCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("facade")?;
    o.traces += 1;
    let mut plain = World::new();
    let mut sm = SM::default();
    let open = || -> Result<Facade, Fail> {
        Ok(Facade::new(
            open_store(&c.db, &format!("{}/db", scratch.0))?,
            open_store(&c.cache, &format!("{}/cache", scratch.0))?,
            sqlite(&format!("{}/index", scratch.0)),
        ))
    };
    let mut f = open()?;
    for p in &c.progs {
        o.transitions += 1;
        let _ = sm.build(p);
        let want = guard(|| plain.build(p))?;
        let got = guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)))?;
        if want.as_ref().map(encs) != got.as_ref().map(encs) {
            return fail("built", format!("over {} and {} the result is {}, over plain maps {}\n{}", c.db, c.cache, short(&got.map(|b| said_of(&b))), short(&want.map(|b| said_of(&b))), p.text()));
        }
    }
    let ids = sm.ids();
    let words = ["alpha", "common"];
    let want = observe(&plain.f, &ids, &words);
    o.state(&want);
    o.nontrivial(&(&c.db, &c.cache, &want));
    let show = |e: String, when: &str| Fail { key: "observed".into(), msg: format!("over {} and {}{when}: {e}\n{}", c.db, c.cache, c.progs.iter().map(|p| p.text()).collect::<Vec<_>>().join("-----\n")) };
    o.evals += want.len() as u64;
    if let Some(e) = mdiff(&want, &observe(&f, &ids, &words)) {
        return Err(show(e, ""));
    }
    if c.db != "memory" && c.cache != "memory" {
        drop(f);
        let f = open()?;
        if let Some(e) = mdiff(&want, &observe(&f, &ids, &words)) {
            return Err(show(e, ", opened again"));
        }
    }
    Ok(())
}
fn p17(ctx: &Ctx) {
    let keys: Vec<String> = ["a", "A", "ab", "a.b", "a/b", "a/../b", "/", "$ABS/x", "../a", "../../a", "../oca_refs/a", "..", ".", "", "é", "%41", "a%2Fb", "%2E", "a b", "a\\b", "a:b", "-a", "a\nb", "a.tmp", ".a.tmp", "%", "core_model.a", "日本"]
        .iter()
        .map(|s| s.to_string())
        .chain(["x".repeat(100)])
        .collect();
    let ins = |n: usize, k: &str, v: &[u8]| Op::Ins(n, k.to_string(), v.to_vec());
    let big = vec![0u8; 70_000];
    let vals: [&[u8]; 4] = [b"v", b"", &[0, 255, 13, 10, 0], &big];
    let mut seqs: Vec<Vec<Op>> = vec![];
    // every key alone, in two namespaces, overwritten; every pair of keys
    for k in &keys {
        for v in vals {
            seqs.push(vec![ins(0, k, v), ins(5, k, b"w"), Op::Reopen]);
            seqs.push(vec![ins(5, k, b"some longer value"), ins(5, k, v), Op::Reopen]);
        }
    }
    for (i, k) in keys.iter().enumerate() {
        for (j, l) in keys.iter().enumerate() {
            if i != j {
                seqs.push(vec![ins(5, k, b"1"), ins(5, l, b"22"), Op::Reopen]);
            }
        }
    }
    // every sequence over a small alphabet
    let small = [ins(0, "a", b"1"), ins(0, "ab", b"2"), ins(0, "a", b""), ins(5, "a", b"3"), ins(1, "a", b"4"), Op::Reopen, Op::Clone];
    seqs.extend(sequences(&small, if ctx.quick() { 3 } else { 5 }));
    // values of many sizes, long keys, many keys in one namespace
    let mut lens: Vec<usize> = [4usize, 6, 8, 10, 12, 13, 14, 15, 16].iter().flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).collect();
    lens.extend([100_000, 1 << 20, (1 << 20) + 1]);
    for l in lens.iter().rev() {
        seqs.insert(0, vec![ins(0, "a", &vec![b'v'; *l]), ins(0, "b", &(0..*l).map(|i| i as u8).collect::<Vec<_>>()), Op::Reopen, ins(0, "a", b"w")]);
    }
    for n in if ctx.quick() { vec![12usize, 33, 65, 101, 130, 257] } else { vec![12, 33, 65, 101, 130, 257, 515, 1030] } {
        let mut v: Vec<Op> = (0..n).map(|i| ins(5, &format!("k{i}"), &vec![i as u8; i % 70])).collect();
        v.extend([ins(0, "k1", b"other"), Op::Reopen, ins(5, "k1", b"again")]);
        seqs.insert(0, v);
    }
    for l in [63usize, 64, 65, 120] {
        let k = "k".repeat(l);
        seqs.insert(0, vec![ins(0, &k, b"1"), ins(0, &k[1..], b"2"), ins(0, &format!("{k}k"), b"3"), Op::Reopen]);
    }
    let first = lens.len() + 12;
    let mut cases = vec![];
    for kind in ["memory", "fs", "sled", "dag"] {
        for (i, ops) in seqs.iter().enumerate() {
            if kind == "sled" || kind == "dag" {
                // opening takes long
                if ctx.quick() && i % 4 != 0 && i > first || !ctx.quick() && i > 900 && i % 8 != 0 {
                    continue;
                }
            }
            let mut used: Vec<String> = ops.iter().filter_map(|o| if let Op::Ins(_, k, _) = o { Some(k.clone()) } else { None }).collect();
            used.extend(["a", "b", "ab", "x", "."].map(String::from));
            used.sort();
            used.dedup();
            cases.push(OpCase { kind: kind.into(), ops: ops.clone(), keys: used });
        }
    }
    ctx.run("operations", &cases, p17_ops);
    ctx.run("unopened", &["fs".to_string(), "sled".to_string()], p17_unopened);
    let mut hs: Vec<Vec<Prog>> = vec![];
    let p = pool();
    let all: Vec<usize> = (0..p.len()).collect();
    for (i, h) in paths(&p, &all, 2).into_iter().enumerate() {
        if !ctx.quick() || i % 5 == 0 {
            hs.push(h.progs);
        }
    }
    hs.push(wide_progs());
    for n in ["a/b", "../x", "..", "A b", "%41", "é", "x.y"] {
        let named = |v: Vec<Cmd>| Prog { name: Some(n.into()), cmds: v };
        hs.push(vec![named(vec![attr("a", b("Text"))]), named(vec![attr("b", b("Text"))]), Prog { name: Some("b".into()), cmds: vec![attr("c", b("Text"))] }]);
    }
    let mut cases = vec![];
    for (a, b) in [("memory", "memory"), ("fs", "fs"), ("sled", "fs"), ("fs", "sled"), ("sled", "sled"), ("memory", "fs")] {
        for (i, h) in hs.iter().enumerate() {
            if ctx.quick() && (a == "sled" || b == "sled") && i % 4 != 0 {
                continue;
            }
            cases.push(FacadeCase { db: a.into(), cache: b.into(), progs: h.clone() });
        }
    }
    ctx.run("facade", &cases, p17_facade);
}

// ------------------------------------------------------------------ P18
pub static P18: Entry = (
    "P18",
    "model_checking",
    "for every history of builds up to the stated depth: the last build stopped before each of its storage writes (and, over the file system, before and in the middle of each of its system calls that change a file, those of the search index included); the store opened again, every query asked, and the build repeated; also every pair of a stopped build and another build before the repetition",
    &["a stopped process loses nothing it handed to the operating system (no power failure)", "index statements are atomic (SQLite)"],
    p18,
    |st, c| match st {
        "calls" => p18_calls(&parse_case(c), &mut Obs::default()),
        "versions" => p18_versions(&parse_case(c), &mut Obs::default()),
        "acknowledged" => p18_acknowledged(&parse_case(c), &mut Obs::default()),
        _ => p18_writes(&parse_case(c), &mut Obs::default()),
    },
);
/// A storage that stops the process (or panics in its place) before the n-th write made through it and its siblings.
#[derive(Clone)]
pub struct Stopping {
    pub inner: Box<dyn DataStorage>,
    pub left: Arc<AtomicI64>,
    pub exit: bool,
}
pub const STOP: &str = "stopped here";
impl DataStorage for Stopping {
    fn get(&self, n: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        self.inner.get(n, key)
    }
    fn get_all(&self, n: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        self.inner.get_all(n)
    }
    fn insert(&mut self, n: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        if self.left.fetch_sub(1, Ordering::SeqCst) <= 0 {
            if self.exit {
                unsafe { _exit(42) }
            }
            panic!("{STOP}");
        }
        self.inner.insert(n, key, value)
    }
    fn new() -> Self {
        unreachable!()
    }
    fn config(&self, _: HashMap<String, String>) -> Self {
        self.clone()
    }
}
extern "C" {
    fn _exit(code: i32) -> !;
}

/// What must hold of a store in which a build of `last` stopped, the earlier builds being complete.
pub struct Expect {
    pub before: BTreeMap<String, String>,
    pub after: BTreeMap<String, String>,
    pub old_ids: Vec<String>,
    pub ids: Vec<String>,
}
pub const WORDS: [&str; 4] = ["alpha", "common", "soup", "dog"];
fn set_of(s: &str) -> BTreeSet<String> {
    s.split(" -> ").nth(1).unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
}
fn listed(s: &str) -> (String, BTreeSet<String>) {
    let (n, l) = s.split_once(' ').unwrap_or((s, "[]"));
    // a debug-printed list of strings
    let v: BTreeSet<String> = l.trim_start_matches('[').trim_end_matches(']').split("\", \"").map(|x| x.trim_matches('"').to_string()).filter(|x| !x.is_empty()).collect();
    (n.to_string(), v)
}
/// `f`: the store as found after the stop.
pub fn after_stop(f: &Facade, x: &Expect) -> Res {
    let got = observe(f, &x.ids, &WORDS);
    for (k, v) in &got {
        if v.starts_with("PANIC") {
            return fail("crash", format!("after the stop, {k}: {v}"));
        }
        let (b, a) = (x.before.get(k), &x.after[k]);
        let what = k.split(' ').next().unwrap();
        let bad = |why: &str| -> Res { fail(format!("stopped-{what}"), format!("after the stop, {k} {why}: {v}\nbefore the build {b:?}\nafter it {a}")) };
        match what {
            "bundle" | "object" | "steps" => {
                let old = b.is_some_and(|b| !b.starts_with("ERR"));
                if old && Some(v) != b {
                    return bad("changed");
                }
                if !old && !v.starts_with("ERR") && v != a {
                    return bad("is neither absent nor what the build stores");
                }
            }
            "explore" => {
                let known = |t: &Option<&String>| t.is_some_and(|t| t.as_str() != "none");
                if v == "none" {
                    if known(&b) {
                        return bad("is lost");
                    }
                    continue;
                }
                let (g, w) = (set_of(v), set_of(a));
                if v.split(" -> ").next() != a.split(" -> ").next() || !g.is_subset(&w) || known(&b) && !set_of(b.unwrap()).is_subset(&g) {
                    return bad("is not between the two");
                }
                for r in &g {
                    let (kind, id) = r.split_once(':').unwrap();
                    let key = if kind == "bundle" { format!("bundle {id}") } else { format!("object {id}") };
                    if got.get(&key).is_none_or(|x| x.starts_with("ERR")) {
                        return bad(&format!("leads to {r}, which cannot be retrieved"));
                    }
                }
            }
            "list" | "search" => {
                let ((n, g), (_, w)) = (listed(v), listed(a));
                let o = b.map(|b| listed(b).1).unwrap_or_default();
                if n != g.len().to_string() || !g.is_subset(&w) || !o.is_subset(&g) {
                    return bad("is not between the two");
                }
            }
            _ => {
                if v != a && Some(v) != b {
                    return bad("is neither the one nor the other");
                }
            }
        }
    }
    // what is listed or found can be retrieved
    let all = guard(|| f.fetch_all_oca_bundle(1000, 1))?.map_err(|e| mism(format!("{e:?}")))?;
    let mut ids: BTreeSet<String> = all.records.iter().map(said_of).collect();
    for w in WORDS {
        ids.extend(guard(|| f.search_oca_bundle(None, w.into(), 1000, 1))?.records.iter().map(|r| said_of(&r.oca_bundle)));
    }
    for id in ids {
        if guard(|| f.get_oca_bundle(sai(&id), false))?.is_err() {
            return fail("listed", format!("after the stop, {id} is listed but cannot be retrieved"));
        }
    }
    Ok(())
}
/// Contents of a storage, relation records as sets.
pub fn contents(s: &dyn DataStorage) -> Result<BTreeMap<(String, String), Vec<u8>>, Fail> {
    let mut m = BTreeMap::new();
    for n in 0..NSS {
        for (k, v) in guard(|| s.get_all(ns(n)))?.map_err(|e| mism(format!("get_all: {e}")))? {
            let rel = n == 4 && !k.ends_with(".metadata");
            m.insert((ns(n).as_str().to_string(), k), if rel { relation_set(&v) } else { v });
        }
    }
    Ok(m)
}
pub fn relation_set(v: &[u8]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = vec![];
    let mut at = v;
    while at.len() >= 2 && at.len() >= 2 + at[1] as usize {
        let (a, r) = at.split_at(2 + at[1] as usize);
        parts.push(a);
        at = r;
    }
    parts.push(at);
    parts.sort();
    parts.concat()
}
pub fn same_contents(what: &str, a: &BTreeMap<(String, String), Vec<u8>>, b: &BTreeMap<(String, String), Vec<u8>>) -> Res {
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        let (x, y) = (a.get(k), b.get(k));
        if x != y {
            let s = |v: Option<&Vec<u8>>| v.map(|v| String::from_utf8_lossy(v).chars().take(300).collect::<String>());
            return fail("contents", format!("{what}: {k:?} is {:?}, without the stop {:?}", s(y), s(x)));
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StopCase {
    pub progs: Vec<Prog>,
    /// built after the stop, before the stopped build is repeated
    pub between: Option<Prog>,
    /// only every n-th point
    pub every: usize,
}
impl StopCase {
    pub fn text(&self) -> String {
        let mut t = self.progs.iter().map(|p| p.text()).collect::<Vec<_>>().join("-----\n");
        if let Some(b) = &self.between {
            t.push_str(&format!("----- between:\n{}", b.text()));
        }
        t
    }
    /// Expected observations, from stores in which nothing stopped.
    pub fn expect(&self) -> Result<(Expect, World), Fail> {
        let (last, first) = self.progs.split_last().unwrap();
        let mut sm = SM::default();
        let mut w = World::new();
        for p in first {
            sm.build(p).map_err(mism)?;
            guard(|| w.build(p))?.map_err(mism)?;
        }
        let old_ids = sm.ids();
        sm.build(last).map_err(mism)?;
        let ids = sm.ids();
        let before = observe(&w.f, &ids, &WORDS);
        guard(|| w.build(last))?.map_err(mism)?;
        let after = observe(&w.f, &ids, &WORDS);
        Ok((Expect { before, after, old_ids, ids }, w))
    }
}
pub fn copy_tree(from: &str, to: &str) -> std::io::Result<()> {
    std::fs::create_dir_all(to)?;
    for e in std::fs::read_dir(from)? {
        let e = e?;
        let t = format!("{to}/{}", e.file_name().to_string_lossy());
        if e.file_type()?.is_dir() {
            copy_tree(&e.path().to_string_lossy(), &t)?;
        } else {
            std::fs::copy(e.path(), t)?;
        }
    }
    Ok(())
}
pub fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail { key: "scratch".into(), msg: e.to_string() })
}
fn p18_writes(c: &StopCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("stop")?;
    let tell = |k: usize, f: Fail| Fail { key: f.key, msg: format!("stopped before storage write {k} of the last build: {}\n{}", f.msg, c.text()) };
    let (x, mut whole) = c.expect()?;
    if let Some(b) = &c.between {
        // what the repetition must lead to: the last build of the history, then the one in between
        guard(|| whole.build(b))?.map_err(mism)?;
    }
    let (last, first) = c.progs.split_last().unwrap();
    let (db0, cache0) = (Mem::default(), Mem::default());
    let dir = |k: &str| format!("{}/{k}", scratch.0);
    {
        let mut f = Facade::new(Box::new(db0.clone()), Box::new(cache0.clone()), sqlite(&dir("start")));
        for p in first {
            guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e)))?.map_err(mism)?;
        }
    }
    let mut k = 0;
    loop {
        let (db, cache) = (Mem::restore(db0.snapshot()), Mem::restore(cache0.snapshot()));
        io(copy_tree(&dir("start"), &dir("now")))?;
        let left = Arc::new(AtomicI64::new(k as i64));
        let stopping = |m: &Mem| Box::new(Stopping { inner: Box::new(m.clone()), left: left.clone(), exit: false });
        let mut f = Facade::new(stopping(&db), stopping(&cache), sqlite(&dir("now")));
        o.traces += 1;
        let r = guard(|| f.build_from_ocafile(last.text()).map_err(|e| ferr(&e)));
        drop(f);
        let stopped = left.load(Ordering::SeqCst) < 0;
        if !stopped {
            // ran to its end: no more points
            guard(|| r)?.map_err(mism)?.map_err(mism)?;
            io(std::fs::remove_dir_all(dir("now")))?;
            break;
        }
        o.state(&(db.snapshot(), cache.snapshot()));
        o.nontrivial(&(&c.progs.len(), db.snapshot(), cache.snapshot()));
        let mut f = Facade::new(Box::new(db.clone()), Box::new(cache.clone()), sqlite(&dir("now")));
        o.evals += 1;
        after_stop(&f, &x).map_err(|e| tell(k, e))?;
        if let Some(p) = &c.between {
            guard(|| f.build_from_ocafile(p.text()).map_err(|e| ferr(&e))).map_err(|e| tell(k, e.into()))?.map_err(|e| tell(k, mism(format!("the build in between: {e}"))))?;
        }
        o.transitions += 1;
        guard(|| f.build_from_ocafile(last.text()).map_err(|e| ferr(&e))).map_err(|e| tell(k, e.into()))?.map_err(|e| tell(k, mism(format!("repeated: {e}"))))?;
        let again = observe(&f, &x.ids, &WORDS);
        let want = observe(&whole.f, &x.ids, &WORDS);
        if c.between.is_none() {
            if let Some(e) = mdiff(&want, &again) {
                return Err(tell(k, Fail { key: "repeated".into(), msg: format!("after the repetition: {e}") }));
            }
            for (a, b, n) in [(&whole.db, &db, "db"), (&whole.cache, &cache, "cache")] {
                same_contents(n, &contents(a)?, &contents(b)?).map_err(|e| tell(k, e))?;
            }
        } else {
            // another order of builds: all but how things were first reached
            for (key, v) in &want {
                if !key.starts_with("steps") && again.get(key) != Some(v) {
                    return Err(tell(k, Fail { key: "repeated".into(), msg: format!("after the repetition: {key} is {:?}, without the stop {v}", again.get(key)) }));
                }
            }
            let keys = |m: &Mem| -> BTreeSet<(String, String)> { m.snapshot().into_keys().filter(|k| k.0 != "core_model").collect() };
            if keys(&db) != keys(&whole.db) || keys(&cache) != keys(&whole.cache) {
                return Err(tell(k, Fail { key: "repeated".into(), msg: "after the repetition the stores have other keys".into() }));
            }
        }
        drop(f);
        io(std::fs::remove_dir_all(dir("now")))?;
        k += c.every;
    }
    Ok(())
}

// ---- system calls
static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicI64 = AtomicI64::new(0);
static STOP_AT: AtomicI64 = AtomicI64::new(-1);
static TORN: AtomicBool = AtomicBool::new(false);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// 0: the call ends the process; 1: it fails; 2: it and all later ones fail
static FAILS: AtomicI64 = AtomicI64::new(0);
extern "C" {
    fn __errno_location() -> *mut i32;
}
/// Before every call that changes a file: true = do something else instead of making it.
fn changes() -> bool {
    if !ARMED.load(Ordering::SeqCst) {
        return false;
    }
    let (n, at) = (CALLS.fetch_add(1, Ordering::SeqCst), STOP_AT.load(Ordering::SeqCst));
    at >= 0 && (n == at || n > at && FAILS.load(Ordering::SeqCst) == 2)
}
/// no space left
unsafe fn stop_or_fail() -> i32 {
    if FAILS.load(Ordering::SeqCst) == 0 {
        _exit(42)
    }
    *__errno_location() = 28;
    -1
}
/// System calls of this thread that fail: all that read, and all that change files.
pub struct Calls {
    at: Cell<i64>,
    on: Cell<bool>,
    changing: Cell<bool>,
    count: Cell<i64>,
    hit: Cell<bool>,
    armed: Cell<bool>,
}
thread_local! {
    pub static MINE: Calls = const { Calls { at: Cell::new(-1), on: Cell::new(false), changing: Cell::new(false), count: Cell::new(0), hit: Cell::new(false), armed: Cell::new(false) } };
}
impl Calls {
    /// Of the calls that read files, or else of those that change them, the n-th fails, or all from it on.
    pub fn arm(at: i64, on: bool, changing: bool) {
        MINE.with(|m| {
            m.at.set(at);
            m.on.set(on);
            m.changing.set(changing);
            m.count.set(0);
            m.hit.set(false);
            m.armed.set(true);
        })
    }
    /// Did one fail?
    pub fn disarm() -> bool {
        MINE.with(|m| {
            m.armed.set(false);
            m.hit.get()
        })
    }
    unsafe fn fails(changing: bool) -> bool {
        MINE.with(|m| {
            if !m.armed.get() || m.changing.get() != changing {
                return false;
            }
            let n = m.count.get();
            m.count.set(n + 1);
            let f = n == m.at.get() || n > m.at.get() && m.on.get();
            if f {
                m.hit.set(true);
                *__errno_location() = if changing { 28 } else { 5 };
            }
            f
        })
    }
}
extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
    if fd > 2 && Calls::fails(false) {
        return -1;
    }
    syscall(0, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    if Calls::fails(false) {
        return -1;
    }
    syscall(17, fd, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, b: *mut u8, n: usize, off: i64) -> isize {
    pread64(fd, b, n, off)
}
type Dir = *mut u8;
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> Dir {
    if Calls::fails(false) {
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const u8) -> Dir = std::mem::transmute(dlsym(-1isize as *mut u8, c"opendir".as_ptr() as *const u8));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: Dir) -> *mut u8 {
    if Calls::fails(false) {
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(Dir) -> *mut u8 = std::mem::transmute(dlsym(-1isize as *mut u8, c"readdir64".as_ptr() as *const u8));
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
    if fd > 2 {
        crate::p_conc::at_call();
    }
    if fd > 2 && Calls::fails(true) {
        return -1;
    }
    if fd > 2 && changes() {
        if TORN.load(Ordering::SeqCst) {
            syscall(1, fd, b, n / 2);
        }
        return stop_or_fail() as isize;
    }
    syscall(1, fd, b, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    if Calls::fails(true) {
        return -1;
    }
    if changes() {
        if TORN.load(Ordering::SeqCst) {
            syscall(18, fd, b, n / 2, off);
        }
        return stop_or_fail() as isize;
    }
    syscall(18, fd, b, n, off) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, b: *const u8, n: usize, off: i64) -> isize {
    pwrite64(fd, b, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    crate::p_conc::at_call();
    if Calls::fails(flags & 0o1100 != 0) {
        return -1;
    }
    // O_CREAT, O_TRUNC
    if flags & 0o1100 != 0 && changes() {
        return stop_or_fail();
    }
    syscall(2, p, flags, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if Calls::fails(true) {
        return -1;
    }
    if changes() {
        return stop_or_fail();
    }
    syscall(77, fd, n) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const u8) -> i32 {
    crate::p_conc::at_call();
    if Calls::fails(true) {
        return -1;
    }
    if changes() {
        return stop_or_fail();
    }
    syscall(87, p) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    crate::p_conc::at_call();
    if Calls::fails(true) {
        return -1;
    }
    if changes() {
        return stop_or_fail();
    }
    syscall(82, a, b) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const u8, mode: u32) -> i32 {
    crate::p_conc::at_call();
    if Calls::fails(true) {
        return -1;
    }
    if changes() {
        return stop_or_fail();
    }
    syscall(83, p, mode) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, p: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    crate::p_conc::at_call();
    if Calls::fails(false) {
        return -1;
    }
    syscall(332, fd, p, flags, mask, buf) as i32
}
/// Making changes durable may fail as well; as a place to stop at it is the same as the change before it.
unsafe fn sync_fails() -> bool {
    if Calls::fails(true) {
        return true;
    }
    let f = FAILS.load(Ordering::SeqCst) != 0 && changes();
    if f {
        *__errno_location() = 5;
    }
    f
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if sync_fails() {
        return -1;
    }
    syscall(74, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if sync_fails() {
        return -1;
    }
    syscall(75, fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: i32, off: i64, n: i64, flags: u32) -> i32 {
    if sync_fails() {
        return -1;
    }
    syscall(277, fd, off, n, flags) as i32
}
#[derive(Serialize, Deserialize)]
pub struct Child {
    pub backend: String,
    pub dir: String,
    pub progs: Vec<String>,
    /// stop instead of the n-th call (-1: never)
    pub stop: i64,
    pub torn: bool,
    /// stop right after the last build, closing nothing
    pub abandon: bool,
    /// stop before the n-th storage write
    pub write: i64,
    pub report: String,
    /// 1: the call fails, 2: and all after it, instead of ending the process
    pub fails: i64,
    /// the same process repeats the build, nothing failing any more
    pub again: bool,
}
/// Runs in a process of its own.
pub fn child_build(file: &str) {
    let c: Child = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    if c.backend == "dag" {
        use oca_dag_semantics::data_storage::{DataStorage as _, SledDataStorage as DagSled};
        let db = DagSled::open(&c.dir);
        let mut r = true;
        for p in &c.progs {
            let p: Prog = serde_json::from_str(p).unwrap();
            r &= oca_dag_semantics::versioning::ocafile::build_oca(Box::new(db.clone()), crate::p_misc::commands(None, &p)).is_ok();
        }
        std::fs::write(&c.report, format!("0 0 {}", if r { "ok" } else { "error" })).unwrap();
        unsafe { _exit(0) }
    }
    let left = Arc::new(AtomicI64::new(i64::MAX));
    let st = |d: &str| -> Box<dyn DataStorage> { Box::new(Stopping { inner: open_store(&c.backend, &format!("{}/{d}", c.dir)).ok().unwrap(), left: left.clone(), exit: true }) };
    set_hash_seed(1);
    let mut f = Facade::new(st("db"), st("cache"), sqlite(&format!("{}/index", c.dir)));
    let (last, first) = c.progs.split_last().unwrap();
    for p in first {
        f.build_from_ocafile(p.clone()).ok().unwrap();
    }
    STOP_AT.store(c.stop, Ordering::SeqCst);
    TORN.store(c.torn, Ordering::SeqCst);
    if c.write >= 0 {
        left.store(c.write, Ordering::SeqCst);
    }
    let start = left.load(Ordering::SeqCst);
    ARMED.store(true, Ordering::SeqCst);
    FAILS.store(c.fails, Ordering::SeqCst);
    let outcome = |f: &mut Facade| match guard(|| f.build_from_ocafile(last.clone()).is_ok()) {
        Ok(true) => "ok",
        Ok(false) => "error",
        Err(_) => "panic",
    };
    let mut r = outcome(&mut f);
    ARMED.store(false, Ordering::SeqCst);
    if c.fails == 0 && r == "panic" {
        std::process::exit(101);
    }
    if c.again {
        r = outcome(&mut f);
    }
    let n = CALLS.load(Ordering::SeqCst);
    let w = start - left.load(Ordering::SeqCst);
    std::fs::write(&c.report, format!("{n} {w} {r}")).unwrap();
    if c.abandon {
        unsafe { _exit(0) }
    }
}
/// The number of calls, and how the build ended.
pub fn failing_child(c: &Child, scratch: &str) -> Result<(i64, String), Fail> {
    match child_outcome(c, scratch)? {
        Some((n, _, r)) => Ok((n, r)),
        None => fail("child", "the building process stopped"),
    }
}
/// Some((calls, storage writes)) if the child ran to its end, None if it stopped.
fn run_child(c: &Child, scratch: &str) -> Result<Option<(i64, i64)>, Fail> {
    match child_outcome(c, scratch)? {
        Some((n, w, r)) if r == "ok" => Ok(Some((n, w))),
        Some(_) => fail("rejected", "the build fails"),
        None => Ok(None),
    }
}
fn child_outcome(c: &Child, scratch: &str) -> Result<Option<(i64, i64, String)>, Fail> {
    let file = format!("{scratch}/child.json");
    io(std::fs::write(&file, serde_json::to_string(c).unwrap()))?;
    let _ = std::fs::remove_file(&c.report);
    let s = io(std::process::Command::new(io(std::env::current_exe())?).arg("child-build").arg(&file).output())?;
    match s.status.code() {
        Some(42) => Ok(None),
        Some(0) => {
            let t = io(std::fs::read_to_string(&c.report))?;
            let mut p = t.split(' ').map(|x| x.to_string());
            let (n, w, r) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
            Ok(Some((n.parse().unwrap(), w.parse().unwrap(), r)))
        }
        x => fail("child", format!("the building process ended with {x:?} {}", String::from_utf8_lossy(&s.stderr))),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CallCase {
    progs: Vec<Prog>,
    torn: bool,
    /// the points this case looks at: those congruent to .0 modulo .1
    part: (i64, i64),
}
fn p18_calls(c: &CallCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("calls")?;
    let sc = StopCase { progs: c.progs.clone(), between: None, every: 1 };
    let (x, _) = sc.expect()?;
    let texts: Vec<String> = c.progs.iter().map(|p| p.text()).collect();
    let child = |dir: &str, stop: i64| Child {
        backend: "fs".into(),
        dir: format!("{}/{dir}", scratch.0),
        progs: texts.clone(),
        stop,
        torn: c.torn,
        abandon: false,
        write: -1,
        report: format!("{}/report", scratch.0),
        fails: 0,
        again: false,
    };
    let open = |dir: &str| -> Result<(Facade, Box<dyn DataStorage>, Box<dyn DataStorage>), Fail> {
        let d = |s: &str| format!("{}/{dir}/{s}", scratch.0);
        let (a, b) = (open_store("fs", &d("db"))?, open_store("fs", &d("cache"))?);
        Ok((Facade::new(a.clone(), b.clone(), sqlite(&d("index"))), a, b))
    };
    let Some((calls, _)) = run_child(&child("whole", -1), &scratch.0)? else { return fail("child", "stopped") };
    let (wf, wdb, wcache) = open("whole")?;
    let want = observe(&wf, &x.ids, &WORDS);
    if let Some(e) = mdiff(&x.after, &want) {
        return fail("observed", format!("over files: {e}\n{}", sc.text()));
    }
    let (wdb, wcache) = (contents(&*wdb)?, contents(&*wcache)?);
    o.add("system_calls", if c.part.0 == 0 { calls as u64 } else { 0 });
    let mut stop = c.part.0;
    while stop < calls {
        let tell = |f: Fail| Fail { key: f.key, msg: format!("stopped {} file-changing system call {stop} of {calls}: {}\n{}", if c.torn { "in the middle of" } else { "before" }, f.msg, sc.text()) };
        o.traces += 1;
        if run_child(&child("now", stop), &scratch.0)?.is_some() {
            return fail("child", format!("did not stop at call {stop} of {calls}"));
        }
        {
            let (mut f, db, cache) = open("now")?;
            o.state(&(stop, c.torn, contents(&*db).map_err(tell)?, contents(&*cache).map_err(tell)?));
            o.nontrivial(&(stop, c.torn, &texts));
            o.evals += 1;
            after_stop(&f, &x).map_err(tell)?;
            o.transitions += 1;
            guard(|| f.build_from_ocafile(texts.last().unwrap().clone()).map_err(|e| ferr(&e))).map_err(|e| tell(e.into()))?.map_err(|e| tell(mism(format!("repeated: {e}"))))?;
            if let Some(e) = mdiff(&want, &observe(&f, &x.ids, &WORDS)) {
                return Err(tell(Fail { key: "repeated".into(), msg: format!("after the repetition: {e}") }));
            }
            same_contents("db", &wdb, &contents(&*db)?).map_err(tell)?;
            same_contents("cache", &wcache, &contents(&*cache)?).map_err(tell)?;
        }
        io(std::fs::remove_dir_all(format!("{}/now", scratch.0)))?;
        stop += c.part.1;
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AckCase {
    backend: String,
    progs: Vec<Prog>,
}
/// A process that stops after a build returned, closing nothing, or before any later storage write,
/// leaves the finished builds in the store.
fn p18_acknowledged(c: &AckCase, o: &mut Obs) -> Res {
    let scratch = Scratch::new("ack")?;
    let sc = StopCase { progs: c.progs.clone(), between: None, every: 1 };
    let (x, _) = sc.expect()?;
    let texts: Vec<String> = c.progs.iter().map(|p| p.text()).collect();
    let mut write = -1i64;
    let mut writes = 0;
    while write < writes {
        let tell = |f: Fail| Fail { key: f.key, msg: format!("over {}, the process ended {}: {}\n{}", c.backend, if write < 0 { "right after the last build returned".to_string() } else { format!("before storage write {write} of the last build") }, f.msg, sc.text()) };
        o.traces += 1;
        let child = Child { backend: c.backend.clone(), dir: format!("{}/now", scratch.0), progs: texts.clone(), stop: -1, torn: false, abandon: true, write, report: format!("{}/report", scratch.0), fails: 0, again: false };
        let done = run_child(&child, &scratch.0)?;
        {
            let d = |s: &str| format!("{}/now/{s}", scratch.0);
            let (db, cache) = (open_store(&c.backend, &d("db"))?, open_store(&c.backend, &d("cache"))?);
            let mut f = Facade::new(db.clone(), cache.clone(), sqlite(&d("index")));
            o.nontrivial(&(&c.backend, write, &texts));
            o.state(&(&c.backend, write, contents(&*db)?, contents(&*cache)?));
            o.evals += 1;
            if write < 0 {
                writes = done.ok_or_else(|| mism("the building process stopped"))?.1;
                if let Some(e) = mdiff(&x.after, &observe(&f, &x.ids, &WORDS)) {
                    return Err(tell(Fail { key: "acknowledged".into(), msg: e }));
                }
            } else {
                after_stop(&f, &x).map_err(tell)?;
                guard(|| f.build_from_ocafile(texts.last().unwrap().clone()).map_err(|e| ferr(&e))).map_err(|e| tell(e.into()))?.map_err(|e| tell(mism(format!("repeated: {e}"))))?;
                if let Some(e) = mdiff(&x.after, &observe(&f, &x.ids, &WORDS)) {
                    return Err(tell(Fail { key: "repeated".into(), msg: format!("after the repetition: {e}") }));
                }
            }
            o.transitions += 1;
        }
        io(std::fs::remove_dir_all(format!("{}/now", scratch.0)))?;
        write += 1;
    }
    Ok(())
}
/// The same of the version store: whatever was stored when a build returned is there after the process ended.
fn p18_versions(progs: &Vec<Prog>, o: &mut Obs) -> Res {
    use oca_dag_semantics::data_storage::{DataStorage as _, SledDataStorage as DagSled};
    let scratch = Scratch::new("versions")?;
    let dir = format!("{}/db", scratch.0);
    o.traces += 1;
    o.transitions += 1;
    let child = Child { backend: "dag".into(), dir: dir.clone(), progs: progs.iter().map(|p| serde_json::to_string(p).unwrap()).collect(), stop: -1, torn: false, abandon: true, write: -1, report: format!("{}/report", scratch.0), fails: 0, again: false };
    run_child(&child, &scratch.0)?;
    let vs = crate::p_misc::Vs::default();
    for p in progs {
        let _ = guard(|| oca_dag_semantics::versioning::ocafile::build_oca(Box::new(vs.clone()), crate::p_misc::commands(None, p)))?;
    }
    let want = vs.map.lock().unwrap().clone();
    let mut db = DagSled::open(&dir);
    for _ in 0..500 {
        if db.get("x").is_ok() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
        db = DagSled::open(&dir);
    }
    o.state(&want);
    o.nontrivial(&want);
    for (k, v) in &want {
        o.evals += 1;
        if db.get(k).as_ref() != Ok(&Some(v.clone())) {
            return fail("versions", format!("the process ended right after the build returned: {k} is {}, stored was {:?}\n{}", short(&db.get(k)), short(&String::from_utf8_lossy(v)), progs.iter().map(|p| p.text()).collect::<Vec<_>>().join("-----\n")));
        }
    }
    Ok(())
}
fn p18(ctx: &Ctx) {
    let p = pool();
    let all: Vec<usize> = (0..p.len()).collect();
    let mut cases = vec![];
    for (i, h) in paths(&p, &all, 2).into_iter().enumerate() {
        if !ctx.quick() || h.progs.len() == 1 || i % 3 == 0 {
            cases.push(StopCase { progs: h.progs, between: None, every: 1 });
        }
    }
    // a step of a wide program: many objects in one build
    for w in wide_progs().into_iter().take(if ctx.quick() { 1 } else { 6 }) {
        let n = w.cmds.len();
        let id = {
            let mut sm = SM::default();
            sm.build(&Prog::new(w.cmds[..n - 1].to_vec())).ok().map(|b| b.said)
        };
        if let Some(id) = id {
            cases.push(StopCase { progs: vec![Prog::new(w.cmds[..n - 1].to_vec()), Prog::new(vec![Cmd::From(id), w.cmds[n - 1].clone(), label("fr", &[("a", "again")])])], between: None, every: if ctx.quick() { 40 } else { 7 } });
        }
    }
    for (i, h) in paths(&p, &all, if ctx.quick() { 2 } else { 3 }).into_iter().enumerate() {
        let n = h.progs.len();
        if n < 2 || ctx.quick() && i % 5 != 0 || n > 2 && i % 4 != 0 {
            continue;
        }
        // the second of the two (or last of three) comes between the stop and the repetition
        let (b, rest) = h.progs.split_last().unwrap();
        // only if it does not depend on the stopped build
        let mut sm = SM::default();
        if rest[..rest.len() - 1].iter().all(|p| sm.build(p).is_ok()) && sm.build(b).is_ok() && sm.build(&rest[rest.len() - 1]).is_ok() {
            let named = |p: &Prog| p.name.is_some();
            if named(b) && named(&rest[rest.len() - 1]) {
                continue;
            }
            cases.push(StopCase { progs: rest.to_vec(), between: Some(b.clone()), every: 1 });
        }
    }
    ctx.run("writes", &cases, p18_writes);
    let mut hs: Vec<Vec<Prog>> = vec![vec![p[1].clone()], vec![p[0].clone(), p[4].clone()], vec![p[1].clone(), p[15].clone()]];
    if !ctx.quick() {
        hs = paths(&p, &all, 1).into_iter().map(|h| h.progs).collect();
        hs.extend(paths(&p, &[0, 1, 2, 3, 4, 5, 7, 8, 13, 15], 2).into_iter().map(|h| h.progs).filter(|h| h.len() == 2));
    }
    let mut cases = vec![];
    for h in &hs {
        for torn in [false, true] {
            for i in 0..4 {
                cases.push(CallCase { progs: h.clone(), torn, part: (i, 4) });
            }
        }
    }
    ctx.run("calls", &cases, p18_calls);
    let mut cases = vec![];
    for backend in ["sled", "fs"] {
        for h in &hs {
            if h.len() <= 2 {
                cases.push(AckCase { backend: backend.into(), progs: h.clone() });
            }
        }
    }
    ctx.run("acknowledged", &cases, p18_acknowledged);
    let hs: Vec<Vec<Prog>> = [0usize, 1, 2, 3, 12, 13].iter().map(|i| vec![p[*i].clone()]).chain([vec![p[0].clone(), p[1].clone()]]).collect();
    ctx.run("versions", &hs, p18_versions);
}
