//! Driving the real library: instrumented storage, facades, encoded forms, observations.
use crate::lang::*;
use crate::rt::guard;
use oca_bundle_semantics::state::oca::OCABundle;
use oca_rs::data_storage::{DataStorage, Namespace};
use oca_rs::facade::build::Error as FErr;
use oca_rs::repositories::SQLiteConfig;
use oca_rs::{EncodeBundle, Facade, HashFunctionCode, SerializationFormats};
use said::SelfAddressingIdentifier;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub const OPS_HORIZON: u64 = 2_000_000;

#[derive(Default)]
pub struct MemInner {
    pub map: BTreeMap<(String, String), Vec<u8>>,
    pub ops: u64,
    pub writes: Vec<(String, String, Vec<u8>)>,
    /// panic (simulated stop of the process) when this many writes were made
    pub crash_after: Option<usize>,
    pub logging: bool,
}
/// A storage backend that is exactly a per-namespace map, with an operation log,
/// an operation horizon (a runaway loop panics instead of exhausting memory) and a crash point.
#[derive(Clone, Default)]
pub struct Mem(pub Arc<Mutex<MemInner>>);
impl Mem {
    fn op(&self) -> std::sync::MutexGuard<'_, MemInner> {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.ops += 1;
        if g.ops > OPS_HORIZON {
            g.ops = 0;
            drop(g);
            panic!("storage operation horizon exceeded: endless loop");
        }
        g
    }
    pub fn snapshot(&self) -> BTreeMap<(String, String), Vec<u8>> {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).map.clone()
    }
    pub fn restore(m: BTreeMap<(String, String), Vec<u8>>) -> Mem {
        Mem(Arc::new(Mutex::new(MemInner { map: m, ..Default::default() })))
    }
}
impl DataStorage for Mem {
    fn get(&self, ns: Namespace, key: &str) -> Result<Option<Vec<u8>>, String> {
        Ok(self.op().map.get(&(ns.as_str().to_string(), key.to_string())).cloned())
    }
    fn get_all(&self, ns: Namespace) -> Result<HashMap<String, Vec<u8>>, String> {
        Ok(self.op().map.iter().filter(|((n, _), _)| n == ns.as_str()).map(|((_, k), v)| (k.clone(), v.clone())).collect())
    }
    fn insert(&mut self, ns: Namespace, key: &str, value: &[u8]) -> Result<(), String> {
        let mut g = self.op();
        if g.logging {
            g.writes.push((ns.as_str().into(), key.into(), value.to_vec()));
        }
        g.map.insert((ns.as_str().to_string(), key.to_string()), value.to_vec());
        Ok(())
    }
    fn new() -> Self {
        Mem::default()
    }
    fn config(&self, _: HashMap<String, String>) -> Self {
        self.clone()
    }
}

pub struct World {
    pub f: Facade,
    pub db: Mem,
    pub cache: Mem,
}
impl World {
    pub fn new() -> World {
        World::over(Mem::default(), Mem::default())
    }
    pub fn over(db: Mem, cache: Mem) -> World {
        let f = Facade::new(Box::new(db.clone()), Box::new(cache.clone()), SQLiteConfig::build().unwrap());
        World { f, db, cache }
    }
    pub fn build(&mut self, p: &Prog) -> Result<OCABundle, String> {
        self.build_text(p.text())
    }
    pub fn build_text(&mut self, t: String) -> Result<OCABundle, String> {
        self.f.build_from_ocafile(t).map_err(|e| ferr(&e))
    }
}
pub fn ferr(e: &FErr) -> String {
    match e {
        FErr::ValidationError(v) => v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; "),
        e => e.to_string(),
    }
}
pub fn build_free(text: String) -> Result<OCABundle, String> {
    oca_rs::facade::build::build_from_ocafile(text).map_err(|e| ferr(&e))
}
pub fn enc(b: &OCABundle) -> Vec<u8> {
    b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).expect("encode")
}
pub fn encs(b: &OCABundle) -> String {
    String::from_utf8(enc(b)).unwrap()
}
pub fn said_of(b: &OCABundle) -> String {
    b.said.as_ref().map(|s| s.to_string()).unwrap_or_default()
}
pub fn jval(b: &OCABundle) -> Value {
    serde_json::from_slice(&enc(b)).unwrap()
}
pub fn content(b: &OCABundle) -> Value {
    strip(&jval(b))
}
pub fn sai(s: &str) -> SelfAddressingIdentifier {
    SelfAddressingIdentifier::from_str(s).unwrap()
}
pub fn load(s: &str) -> Result<OCABundle, String> {
    serde_json::from_str(s).map_err(|e| e.to_string())
}
/// Validator verdict on a bundle (None = accepted).
pub fn invalid(b: &OCABundle) -> Option<String> {
    oca_bundle_semantics::state::validator::Validator::new()
        .validate(b)
        .err()
        .map(|e| e.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>().join("; "))
}
/// All identifiers that occur in an encoded bundle: (path, said), overlay order independent.
pub fn idents(b: &OCABundle) -> Vec<String> {
    let mut v = vec![said_of(b), b.capture_base.said.as_ref().unwrap().to_string()];
    let mut o: Vec<String> = b.overlays.iter().map(|o| o.said().as_ref().unwrap().to_string()).collect();
    o.sort();
    v.extend(o);
    v
}
pub fn diff(a: &Value, b: &Value) -> String {
    fn go(p: String, a: &Value, b: &Value, out: &mut Vec<String>) {
        if a == b || out.len() > 4 {
            return;
        }
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys()).collect::<std::collections::BTreeSet<_>>() {
                    go(format!("{p}/{k}"), x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null), out);
                }
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, (m, n)) in x.iter().zip(y).enumerate() {
                    go(format!("{p}/{i}"), m, n, out);
                }
            }
            _ => out.push(format!("{p}: expected {a} got {b}")),
        }
    }
    let mut o = vec![];
    go(String::new(), a, b, &mut o);
    o.join(" | ")
}

/// Everything a client can observe of a store, as text per query.
pub fn observe(f: &Facade, saids: &[String], words: &[&str]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let mut put = |k: String, r: Result<String, String>| {
        m.insert(k, r.unwrap_or_else(|p| format!("PANIC {p}")));
    };
    for s in saids {
        let id = match SelfAddressingIdentifier::from_str(s) {
            Ok(i) => i,
            Err(_) => continue,
        };
        put(format!("bundle {s}"), guard(|| match f.get_oca_bundle(id.clone(), false) {
            Ok(b) => encs(&b.bundle),
            Err(e) => format!("ERR {e:?}"),
        }));
        put(format!("object {s}"), guard(|| match f.get_oca_objects(vec![s.clone()]) {
            Ok(o) => serde_json::to_string(&o).unwrap(),
            Err(e) => format!("ERR {e:?}"),
        }));
        put(format!("steps {s}"), guard(|| match f.get_oca_bundle_steps(id.clone()) {
            Ok(st) => st
                .iter()
                .map(|s| format!("{:?}|{}|{}", s.parent_said.as_ref().map(|x| x.to_string()), serde_json::to_string(&s.command).unwrap(), encs(&s.result)))
                .collect::<Vec<_>>()
                .join("\n"),
            Err(e) => format!("ERR {e:?}"),
        }));
        put(format!("explore {s}"), guard(|| match f.explore(s.clone()) {
            Some(r) => {
                let mut v: Vec<String> = r.relations.iter().map(|o| format!("{}:{}", kind_name(&o.object_type), o.said)).collect();
                v.sort();
                format!("{} {} -> {}", kind_name(&r.base_object.object_type), r.base_object.said, v.join(","))
            }
            None => "none".into(),
        }));
    }
    put("list bundles".into(), guard(|| {
        let r = f.fetch_all_oca_bundle(1000, 1).unwrap();
        let mut v: Vec<String> = r.records.iter().map(encs).collect();
        v.sort();
        format!("{} {:?}", r.metadata.total, v)
    }));
    put("list capture bases".into(), guard(|| {
        let r = f.fetch_all_capture_base(1000, 1).unwrap();
        let mut v: Vec<String> = r.records.iter().map(|c| serde_json::to_string(c).unwrap()).collect();
        v.sort();
        format!("{} {:?}", r.metadata.total, v)
    }));
    for w in words {
        put(format!("search {w}"), guard(|| {
            let r = f.search_oca_bundle(None, w.to_string(), 1000, 1);
            let mut v: Vec<String> = r.records.iter().map(|c| said_of(&c.oca_bundle)).collect();
            v.sort();
            format!("{} {:?}", r.metadata.total, v)
        }));
    }
    put("refs".into(), guard(|| {
        let r: BTreeMap<_, _> = f.fetch_all_refs().unwrap().into_iter().collect();
        format!("{r:?}")
    }));
    m
}
/// What a search says about every bundle it finds. A bundle with several META overlays may be
/// described by any of them, so it is left out.
pub fn ranked(f: &Facade, words: &[&str]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for w in words {
        let v = guard(|| {
            let r = f.search_oca_bundle(None, w.to_string(), 1000, 1);
            let mut v: Vec<String> = r
                .records
                .iter()
                .filter(|c| content(&c.oca_bundle)["overlays"].as_array().map_or(0, |v| v.iter().filter(|x| x["type"].as_str().is_some_and(|t| t.contains("/meta/"))).count()) < 2)
                .map(|c| format!("{} {} {:?} {:?}", said_of(&c.oca_bundle), c.metadata.score, c.metadata.scope, c.metadata.phrase))
                .collect();
            v.sort();
            format!("{v:?}")
        });
        m.insert(format!("search {w}"), v.unwrap_or_else(|e| format!("PANIC {e}")));
    }
    m
}
pub fn kind_name(k: &oca_ast_semantics::ast::ObjectKind) -> String {
    use oca_ast_semantics::ast::ObjectKind::*;
    match k {
        OCABundle(_) => "bundle".into(),
        CaptureBase(_) => "capture_base".into(),
        Overlay(t, _) => format!("overlay/{t}"),
    }
}
pub fn mdiff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
    if a == b {
        return None;
    }
    let ks: std::collections::BTreeSet<_> = a.keys().chain(b.keys()).collect();
    for k in ks {
        let (x, y) = (a.get(k), b.get(k));
        if x != y {
            return Some(format!("{k}: expected {:?} got {:?}", cut(x), cut(y)));
        }
    }
    None
}
fn cut(s: Option<&String>) -> String {
    s.map(|s| s.chars().take(600).collect()).unwrap_or_else(|| "-".into())
}
