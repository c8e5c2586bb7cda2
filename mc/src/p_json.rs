//! P23: documents from elsewhere.
use crate::alpha;
use crate::lang::*;
use crate::rt::*;
use crate::sys::*;
use crate::Entry;
use isolang::Language;
use oca_ast_semantics::ast::OCAAst;
use oca_bundle_semantics::state::oca::capture_base::CaptureBase;
use oca_bundle_semantics::state::oca::{DynOverlay, OCABox, OCABundle};
use oca_bundle_semantics::state::validator::Validator;
use oca_rs::{EncodeBundle, HashFunctionCode, SerializationFormats};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub static P23: Entry = (
    "P23",
    "model_checking",
    "every single change (thorough: also every pair from a smaller set) of a document that uses every kind of overlay and attribute type, with identifiers as they are and recomputed, every truncation and every replaced byte; every later operation on what loads",
    &["documents deeper than the JSON parser's own limit are refused by it"],
    p23,
    p23_replay,
);
fn strings() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "x", "ż", SAID1, "EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA", "E", "spec/overlays/", "spec/overlays/label/9.9", "spec/overlays/zz/1.1", "spec/capture_base/1.1", "spec/capture_base/", "eng", "pol", "ace", "xx", "en", "zzz", "refs:x", "refn:x", "refs:",
        "Text", "Numeric", "Array[Text]", "[Text]", "text", "${0}", "${5}", "${99999999999999999999}", "${zz}", "${0} > 0 and ${1} > 0", "utf-8", "zz-8", "OCAS11JSON000000_", "OCAS02JSON001000_", "true", "null", "a b", "a\nb", "a\"b", "\\", "frame_id",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push(format!("refs:{SAID1}"));
    // no position is the start of a character in all of them
    let wide = ["€".repeat(20), format!("x{}", "€".repeat(20)), format!("refs:{}", "€".repeat(20)), format!("Array[{}]", "\u{1f600}".repeat(9))];
    for k in ["character_encoding", "format", "meta", "label", "information", "conditional", "conformance", "entry_code", "entry_code_mapping", "entry", "unit", "attribute_mapping", "subset", "unit_mapping", "layout", "sensitivity", "link", "attribute_framing", "credential_layout", "form_layout", "standard", "cardinality", "mapping"] {
        v.push(format!("spec/overlays/{k}/1.1"));
    }
    v.extend(wide.iter().cloned());
    if quick() {
        let mut i = 0;
        v.retain(|s| {
            i += 1;
            i % 8 == 0 || wide.contains(s) || matches!(s.as_str(), "" | "ż" | "E" | "eng" | "zzz" | "refs:x" | "Array[Text]" | "${5}" | "utf-8")
        });
    }
    v
}
static QUICK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn quick() -> bool {
    QUICK.load(std::sync::atomic::Ordering::Relaxed)
}
fn variants(x: &Value, strs: &[String]) -> Vec<Value> {
    let mut o: Vec<Value> = vec![Value::Null, json!(true), json!(0), json!(-1), json!(1.5), json!(1e300), json!(18446744073709551615u64), json!([]), json!({}), json!([x]), json!([x, x]), json!({ "k": x }), json!("x"), json!(""), json!([null]), json!({"k": null}), json!([[x]])];
    match x {
        Value::String(s) => {
            o.extend(strs.iter().map(|s| json!(s)));
            o.push(json!(format!("{s}{s}")));
        }
        Value::Object(m) => {
            for k in m.keys() {
                let mut w = m.clone();
                let v = w.remove(k).unwrap();
                o.push(Value::Object(w.clone()));
                for nk in if quick() { &["zz", "type"][..] } else { &["zz", "", "type", "d", "a", "language", "eng", "${0}"][..] } {
                    if *nk != k {
                        let mut w2 = w.clone();
                        w2.insert(nk.to_string(), v.clone());
                        o.push(Value::Object(w2));
                    }
                }
            }
            for (k, v) in [("zz", json!("zz")), ("zz", json!([])), ("zz", Value::Null), ("zz", json!({"x": {"y": 1}})), ("", json!("")), ("a", json!("Text")), ("b", json!(["x"])), ("type", json!("spec/overlays/label/1.1")), ("said", json!(SAID1))] {
                let mut w = m.clone();
                w.insert(k.into(), v);
                o.push(Value::Object(w));
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                let mut w = a.clone();
                w.remove(i);
                o.push(Value::Array(w));
                let mut w = a.clone();
                w.push(a[i].clone());
                o.push(Value::Array(w));
            }
            let mut w = a.clone();
            w.reverse();
            o.push(Value::Array(w));
            for e in [json!("zz"), Value::Null, json!(1), json!({})] {
                let mut w = a.clone();
                w.push(e);
                o.push(Value::Array(w));
            }
        }
        _ => {}
    }
    o.retain(|v| v != x);
    o
}
fn pointers(v: &Value) -> Vec<String> {
    fn go(p: String, v: &Value, out: &mut Vec<String>) {
        out.push(p.clone());
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| go(format!("{p}/{}", k.replace('~', "~0").replace('/', "~1")), x, out)),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| go(format!("{p}/{i}"), x, out)),
            _ => {}
        }
    }
    let mut o = vec![];
    go(String::new(), v, &mut o);
    o
}
fn bases() -> &'static Vec<Value> {
    static B: std::sync::OnceLock<Vec<Value>> = std::sync::OnceLock::new();
    B.get_or_init(make_bases)
}
/// quick: one place of each kind, attribute a stands for the others
fn distinct_shapes(ps: Vec<String>) -> Vec<String> {
    let mut seen = std::collections::BTreeSet::new();
    ps.into_iter()
        .filter(|p| {
            let shape: Vec<String> = p
                .split('/')
                .enumerate()
                .map(|(i, x)| match x {
                    _ if i > 2 && x.parse::<usize>().is_ok() => "#".to_string(),
                    "a" | "b" | "c" | "d" | "e" if p.matches('/').count() > 3 || p.starts_with("/capture_base/attributes/") => "@".into(),
                    _ => x.to_string(),
                })
                .collect();
            !quick() || seen.insert(shape)
        })
        .collect()
}
fn make_bases() -> Vec<Value> {
    let mut full = jval(&build_free(alpha::full_prog().text()).unwrap());
    // kinds of overlay no command creates
    let cb = full["capture_base"]["d"].clone();
    let o = full["overlays"].as_object_mut().unwrap();
    for (k, body) in [
        ("subset", json!({"attributes": ["a"]})),
        ("attribute_mapping", json!({"attribute_mapping": {"a": "b"}})),
        ("mapping", json!({"attribute_mapping": {"a": "b"}})),
        ("entry_code_mapping", json!({"attribute_entry_codes_mapping": {"a": ["x:y"]}})),
        ("standard", json!({"attribute_standards": {"a": "urn:iso:1"}})),
        ("layout", json!({"layout": "x"})),
        ("sensitivity", json!({"attributes": ["a"]})),
    ] {
        let mut b = body.clone();
        b["type"] = json!(format!("spec/overlays/{k}/1.1"));
        b["capture_base"] = cb.clone();
        b["d"] = json!(SAID1);
        let mut w = Value::Object(o.clone());
        w[k] = b;
        let doc = json!({"v": "OCAS11JSON001000_", "d": SAID1, "capture_base": full_cb(&cb), "overlays": w});
        if guard(|| load(&doc.to_string()).is_ok()) == Ok(true) {
            *o = w.as_object().unwrap().clone();
        }
    }
    let small = jval(&build_free(Prog::new(vec![attr("a", b("Text")), label("en", &[("a", "A")])]).text()).unwrap());
    vec![full, small]
}
fn full_cb(cb: &Value) -> Value {
    json!({"d": cb, "type": "spec/capture_base/1.1", "attributes": {"a": "Text", "b": "Text"}, "classification": "", "flagged_attributes": []})
}
fn g<T>(what: &str, doc: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).map_err(|p| Fail { key: format!("{what}: {}", Fail::from(p.clone()).key), msg: format!("{what}: {p}\n{doc}") })
}
fn encode(b: &OCABundle) -> Option<String> {
    b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).ok().map(|v| String::from_utf8_lossy(&v).to_string())
}
/// everything a client can do with a loaded bundle
fn use_it(b: &OCABundle, doc: &str, full: bool, o: &mut Obs) -> Result<bool, Fail> {
    o.transitions += 8;
    let ok = g("validating", doc, || Validator::new().validate(b).is_ok())?;
    for l in [vec!["en"], vec!["en", "pl", "fr"]] {
        g("validating translations", doc, || Validator::new().enforce_translations(l.iter().map(|x| Language::from_639_1(x).unwrap()).collect()).validate(b).is_ok())?;
    }
    if !full {
        g("encoding", doc, || encode(b))?;
        return Ok(ok);
    }
    g("converting", doc, || {
        let mut bx = OCABox::from(b.clone());
        let again = bx.generate_bundle();
        let _ = encode(&again);
        let _ = invalid(&again);
    })?;
    g("building upon", doc, || {
        for c in ["ADD ATTRIBUTE nw=Text\n", "ADD LABEL en ATTRS a=\"N\"\n", "REMOVE ATTRIBUTE a\n", "ADD CONDITION ATTRS a=\"${b} > 1\"\n", "ADD ATTR_FRAMING id=\"f1\" ATTRS a={\"u9\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}\n"] {
            let mut ast = crate::store::ast_of(&format!("FROM {SAID1}\n{c}"));
            ast.commands.remove(0);
            let _ = oca_bundle_semantics::build::from_ast(Some(b.clone()), &ast).map(|x| encode(&x.oca_bundle));
        }
    })?;
    g("exporting", doc, || {
        let ast = b.to_ast();
        let t = oca_file_semantics::ocafile::generate_from_ast(&ast);
        let _ = oca_file_semantics::ocafile::parse_from_string(t);
        let _ = serde_json::to_string(&ast);
    })?;
    let e = g("encoding", doc, || encode(b))?;
    if let Some(e) = e {
        let again = g("reloading", &e, || load(&e))?;
        match again {
            Ok(b2) if encode(&b2).as_ref() != Some(&e) && ok => return fail("unstable", format!("validated document {doc}\nencodes as {e}\nand after loading as {:?}", encode(&b2))),
            Err(x) if ok => return fail("unstable", format!("validated document {doc}\nencodes as {e}\nwhich does not load: {x}")),
            _ => {}
        }
    }
    let _ = g("dependencies", doc, || b.overlays.iter().map(|o| (o.attributes().len(), o.language().cloned(), o.overlay_type().to_string())).count())?;
    Ok(ok)
}
/// what an accepted document says must be what was loaded; `base` tells which keys are known
fn faithful(doc: &Value, enc: &Value, base: &Value, path: &str, out: &mut Vec<String>) {
    match (doc, enc) {
        (Value::Object(d), Value::Object(e)) => {
            for (k, v) in d {
                if matches!(k.as_str(), "d" | "v") || path == "" && k == "digest" {
                    continue;
                }
                match e.get(k) {
                    // a set, kept sorted
                    Some(w) if k == "flagged_attributes" && v.is_array() => {
                        let sorted = |x: &Value| {
                            let mut s: Vec<String> = x.as_array().into_iter().flatten().map(|y| y.to_string()).collect();
                            s.sort();
                            s
                        };
                        if sorted(v) != sorted(w) {
                            out.push(format!("{path}/{k}: {v} loaded as {w}"));
                        }
                    }
                    Some(w) => faithful(v, w, &base[k], &format!("{path}/{k}"), out),
                    None if v.is_null() || base.get(k).is_none() => {}
                    None => out.push(format!("{path}/{k} is lost")),
                }
            }
            for k in e.keys() {
                if !d.contains_key(k) && !matches!(k.as_str(), "d" | "v") && !e[k].is_null() && e[k] != json!([]) && e[k] != json!({}) && e[k] != json!("") {
                    out.push(format!("{path}/{k} appeared"));
                }
            }
        }
        (a, b) if a == b => {}
        // two names of one language
        (Value::String(a), Value::String(b)) if path.ends_with("/language") && Language::from_639_1(a).map(|l| l.to_639_3()) == Some(b) => {}
        (Value::Array(a), Value::Array(b)) if a.len() == b.len() => {
            for i in 0..a.len() {
                faithful(&a[i], &b[i], &base[i], &format!("{path}/{i}"), out);
            }
        }
        (a, b) => out.push(format!("{path}: {a} loaded as {b}")),
    }
}
/// the overlays of a document, whatever key they stand under
fn overlay_set(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    for (_, x) in v["overlays"].as_object().into_iter().flatten() {
        match x {
            Value::Array(a) => out.extend(a.iter().cloned()),
            Value::Null => {}
            x => out.push(x.clone()),
        }
    }
    out.sort_by_key(|x| (x["type"].to_string(), x["language"].to_string(), x["target_bundle"].to_string(), x["d"].to_string()));
    out
}
static SEEN: std::sync::LazyLock<std::sync::Mutex<std::collections::HashSet<u64>>> = std::sync::LazyLock::new(Default::default);
fn p23_doc(text: &str, doc: Option<(&Value, &Value)>, o: &mut Obs) -> Res {
    o.evals += 1;
    let Ok(b) = g("loading", text, || load(text))? else { return Ok(()) };
    o.nontrivial(text);
    o.traces += 1;
    let mut resigned = b.clone();
    let ok = use_it(&b, text, !quick(), o)?;
    let check = |x: &OCABundle, how: &str| -> Res {
        let Some((doc, base)) = doc else { return Ok(()) };
        let enc: Value = serde_json::from_str(&encode(x).unwrap_or_default()).unwrap_or(Value::Null);
        let mut out = vec![];
        faithful(&doc["capture_base"], &enc["capture_base"], &base["capture_base"], "/capture_base", &mut out);
        let (a, e, bs) = (overlay_set(doc), overlay_set(&enc), overlay_set(base));
        if a.len() != e.len() {
            out.push(format!("{} overlays loaded as {}", a.len(), e.len()));
        } else if how == "" {
            for (i, x) in a.iter().enumerate() {
                faithful(x, &e[i], bs.get(i).unwrap_or(&Value::Null), &format!("/overlays/{i}"), &mut out);
            }
        }
        if !out.is_empty() {
            return fail("accepted", format!("validated{how}, but {}\ndocument {text}\nloaded {enc}", out.join("; ")));
        }
        Ok(())
    };
    if ok {
        check(&b, "")?;
    }
    g("recomputing identifiers", text, || {
        resigned.capture_base.sign();
        let id = resigned.capture_base.said.clone();
        for x in resigned.overlays.iter_mut() {
            if let Some(id) = &id {
                x.set_capture_base(id);
            }
            x.fill_said();
        }
        resigned.fill_said();
    })?;
    // each bundle is followed up once
    if !SEEN.lock().unwrap().insert(h64(&encode(&resigned))) {
        return if ok { check(&resigned, " once the identifiers are recomputed") } else { Ok(()) };
    }
    let ok2 = use_it(&resigned, &format!("{text}, identifiers recomputed"), true, o)?;
    if ok2 {
        check(&resigned, " once the identifiers are recomputed")?;
    }
    Ok(())
}
fn at(v: &Value, ptr: &str, x: &Value) -> Value {
    let mut w = v.clone();
    *w.pointer_mut(ptr).unwrap() = x.clone();
    w
}
#[derive(Serialize, Deserialize, Clone)]
struct Mut {
    base: usize,
    ptr: String,
    /// a second place changed at the same time
    second: Option<String>,
}
fn few(x: &Value) -> Vec<Value> {
    let mut v = vec![Value::Null, json!("x"), json!(1), json!([x]), json!({"k": x}), json!([]), json!({})];
    v.retain(|y| y != x);
    v
}
fn p23_mut(m: &Mut, o: &mut Obs) -> Res {
    let base = &bases()[m.base];
    let strs = strings();
    let x = base.pointer(&m.ptr).unwrap();
    let vs = if m.second.is_some() { few(x) } else { variants(x, &strs) };
    for v in vs {
        let w = at(base, &m.ptr, &v);
        match &m.second {
            None => {
                o.state(&w.to_string());
                p23_doc(&w.to_string(), Some((&w, base)), o)?;
            }
            Some(p2) => {
                let Some(y) = w.pointer(p2).cloned() else { continue };
                for v2 in few(&y) {
                    let w2 = at(&w, p2, &v2);
                    o.state(&w2.to_string());
                    p23_doc(&w2.to_string(), Some((&w2, base)), o)?;
                }
            }
        }
    }
    Ok(())
}
/// capture bases and overlays by themselves
fn p23_part(m: &Mut, o: &mut Obs) -> Res {
    let base = &bases()[m.base];
    let strs = strings();
    // the pointer of the part itself
    let seg: Vec<&str> = m.ptr.split('/').collect();
    let n = if m.ptr.starts_with("/capture_base") { 2 } else if base.pointer(&seg[..3].join("/")).is_some_and(|x| x.is_array()) { 4 } else { 3 };
    if seg.len() < n {
        return Ok(());
    }
    let part = seg[..n].join("/");
    for v in variants(base.pointer(&m.ptr).unwrap(), &strs) {
        let w = at(base, &m.ptr, &v);
        let t = w.pointer(&part).unwrap().to_string();
        o.evals += 1;
        o.transitions += 1;
        o.state(&t);
        if n == 2 {
            let Ok(mut c) = g("loading a capture base", &t, || serde_json::from_str::<CaptureBase>(&t))? else { continue };
            g("using a capture base", &t, || {
                let _ = serde_json::to_string(&c);
                c.sign();
                let t2 = serde_json::to_string(&c).unwrap();
                serde_json::from_str::<CaptureBase>(&t2).unwrap();
            })?;
        } else {
            let Ok(mut c) = g("loading an overlay", &t, || serde_json::from_str::<DynOverlay>(&t))? else { continue };
            g("using an overlay", &t, || {
                let _ = (c.attributes().len(), c.language().cloned(), c.overlay_type().to_string(), c.said().clone(), c.capture_base().clone());
                let _ = serde_json::to_string(&c);
                c.fill_said();
                let t2 = serde_json::to_string(&c).unwrap();
                serde_json::from_str::<DynOverlay>(&t2).unwrap();
            })?;
        }
        o.traces += 1;
    }
    Ok(())
}
/// truncations and replaced bytes
fn p23_bytes(c: &(usize, usize, usize), o: &mut Obs) -> Res {
    let (base, from, to) = *c;
    let t = bases()[base].to_string();
    let by = t.as_bytes();
    for i in from..to.min(by.len()) {
        let mut docs: Vec<Vec<u8>> = vec![by[..i].to_vec(), by[i..].to_vec()];
        for r in [b'"', b'{', b'}', b'[', b',', b'\\', b'0', b' ', 0xff, 0] {
            let mut x = by.to_vec();
            if x[i] != r {
                x[i] = r;
                docs.push(x);
            }
        }
        for d in docs {
            o.transitions += 1;
            o.evals += 1;
            let s = String::from_utf8_lossy(&d).to_string();
            let r = g("loading bytes", &s, || serde_json::from_slice::<OCABundle>(&d).ok())?;
            let r2 = g("loading a stream", &s, || oca_bundle_semantics::controller::load_oca(&mut &d[..]).ok())?;
            if r.is_some() != r2.is_some() {
                return fail("loaders", format!("load_oca and the deserializer disagree on {s}"));
            }
            if let Some(b) = r {
                o.nontrivial(&s);
                use_it(&b, &s, true, o)?;
            }
        }
    }
    o.traces += 1;
    o.state(&(base, from));
    Ok(())
}
fn p23_text(t: &String, o: &mut Obs) -> Res {
    o.state(t);
    o.transitions += 1;
    p23_doc(t, None, o)
}
/// documents of abstract syntax trees
fn p23_ast(m: &Mut, o: &mut Obs) -> Res {
    let base = ast_base();
    let strs = strings();
    for v in variants(base.pointer(&m.ptr).unwrap(), &strs) {
        let w = at(base, &m.ptr, &v);
        let t = w.to_string();
        o.evals += 1;
        o.transitions += 1;
        o.state(&t);
        let Ok(ast) = g("loading an AST", &t, || serde_json::from_str::<OCAAst>(&t))? else { continue };
        o.traces += 1;
        o.nontrivial(&t);
        g("building an AST", &t, || {
            if let Ok(x) = oca_bundle_semantics::build::from_ast(None, &ast) {
                let _ = encode(&x.oca_bundle);
                let _ = invalid(&x.oca_bundle);
                let _ = oca_dag_semantics::build_core_db_model(&x);
            }
        })?;
        g("printing an AST", &t, || {
            let s = oca_file_semantics::ocafile::generate_from_ast(&ast);
            let _ = oca_file_semantics::ocafile::parse_from_string(s);
        })?;
        g("rewriting an AST", &t, || {
            let s = serde_json::to_string(&ast).unwrap();
            let a2: OCAAst = serde_json::from_str(&s).unwrap();
            assert_eq!(serde_json::to_value(&a2).unwrap(), serde_json::to_value(&ast).unwrap());
        })?;
    }
    Ok(())
}
/// a package, a transformation, and a parsed transformation file
fn package_bases() -> &'static Vec<Value> {
    static B: std::sync::OnceLock<Vec<Value>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        use oca_rs::facade::bundle::{Bundle, BundleElement};
        let bd = build_free(Prog::new(vec![attr("a", b("Text")), label("en", &[("a", "A")])]).text()).unwrap();
        let mut pk = Bundle::new();
        pk.add(BundleElement::Structural(bd));
        let mut v = vec![];
        for t in crate::p_core::transformations().into_iter().skip(1).take(2) {
            let ast = match oca_file::ocafile::parse_from_string(t).unwrap() {
                oca_file::ocafile::OCAAst::TransformationAst(a) => a,
                _ => panic!("not a transformation"),
            };
            let tr = transformation_file::build::from_ast(&ast).unwrap();
            v.extend([serde_json::to_value(&tr).unwrap(), serde_json::to_value(&ast).unwrap()]);
            pk.add(BundleElement::Transformation(tr));
        }
        pk.fill_said();
        let mut all = vec![serde_json::from_str(&pk.encode().unwrap()).unwrap()];
        all.extend(v);
        all
    })
}
/// what a transformation says must be what was loaded
fn same_transformation(doc: &Value, t: &transformation_file::state::Transformation, text: &str) -> Res {
    let got = serde_json::to_value(t).unwrap();
    for k in ["d", "source", "target", "attributes"] {
        let (a, b) = (doc.get(k).unwrap_or(&Value::Null), &got[k]);
        if a != b && !(k == "d" && a.is_string() && b.is_string()) {
            return fail("transformation", format!("{k} of a loaded transformation is {b}, the document says {a}\n{text}"));
        }
    }
    Ok(())
}
fn p23_package(m: &Mut, o: &mut Obs) -> Res {
    use transformation_file::state::Transformation;
    let base = &package_bases()[m.base];
    let strs = strings();
    for v in variants(base.pointer(&m.ptr).unwrap(), &strs) {
        let w = at(base, &m.ptr, &v);
        let t = w.to_string();
        o.evals += 1;
        o.transitions += 1;
        o.state(&t);
        if m.base == 0 {
            let Ok(mut pk) = g("loading a package", &t, || oca_rs::facade::bundle::load_oca(&mut t.as_bytes()).map_err(|e| e.to_string()))? else { continue };
            o.nontrivial(&t);
            let e = g("encoding a package", &t, || pk.encode().ok())?;
            g("identifying a package", &t, || pk.fill_said())?;
            if let Some(e) = e {
                if g("encoding a package", &t, || pk.encode().ok())?.as_ref() != Some(&e) {
                    return fail("package", format!("a package encodes differently after being identified\n{t}"));
                }
                if serde_json::from_str::<Value>(&e).unwrap()["d"].as_str().map(|x| x.to_string()) != pk.said.as_ref().map(|x| x.to_string()) {
                    return fail("package", format!("a package is identified as {:?} and encoded as {e}", pk.said));
                }
                if g("loading a package", &e, || oca_rs::facade::bundle::load_oca(&mut e.as_bytes()).is_err())? {
                    return fail("package", format!("loaded from {t}\nand encoded as {e}\nwhich does not load"));
                }
            }
            let said = w["t"].as_array().map(|x| x.len());
            if said != Some(pk.transformations.len()) || pk.structural.is_some() != w.get("m").is_some_and(|x| !x.is_null()) {
                return fail("package", format!("what was loaded has {} transformations, the document {said:?}\n{t}", pk.transformations.len()));
            }
            for (x, y) in w["t"].as_array().unwrap().iter().zip(&pk.transformations) {
                same_transformation(x, y, &t)?;
            }
            if let Some(x) = &pk.structural {
                use_it(x, &t, false, o)?;
            }
        } else if m.base % 2 == 1 {
            let Ok(mut x) = g("loading a transformation", &t, || serde_json::from_str::<Transformation>(&t))? else { continue };
            o.nontrivial(&t);
            same_transformation(&w, &x, &t)?;
            g("using a transformation", &t, || {
                use said::version::Encode;
                let _ = x.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).is_ok();
                x.fill_said();
            })?;
        } else {
            type Tree = oca_ast_transformation::ast::TransformationAST;
            let Ok(x) = g("loading a parsed transformation", &t, || serde_json::from_str::<Tree>(&t))? else { continue };
            o.nontrivial(&t);
            g("using a parsed transformation", &t, || {
                let _ = transformation_file::build::from_ast(&x).is_ok();
                let s = serde_json::to_string(&x).unwrap();
                assert!(serde_json::from_str::<Tree>(&s).unwrap() == x, "comes back as something else: {s}");
            })?;
        }
        o.traces += 1;
    }
    Ok(())
}
fn ast_base() -> &'static Value {
    static B: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
    B.get_or_init(make_ast_base)
}
fn make_ast_base() -> Value {
    let mut v = vec![
        Cmd::AddAttr(vec![("a".into(), b("Text")), ("b".into(), arr(Ty::Refs(SAID2.into())))]),
        class("c"),
        rem(&["b"]),
        attr("b", b("Numeric")),
    ];
    v.extend(alpha::reps());
    v.push(Cmd::RemClass);
    serde_json::to_value(crate::store::ast_of(&Prog::new(v).text())).unwrap()
}
/// identifiers cut after the 0 of a two character code
fn p23_zero(m: &Mut, o: &mut Obs) -> Res {
    let base = if m.base == 2 { ast_base() } else { &bases()[m.base] };
    for s in ["0", "0ż", "refs:0", "refs:0ż"] {
        let t = at(base, &m.ptr, &json!(s)).to_string();
        o.evals += 1;
        o.transitions += 1;
        o.state(&t);
        if m.base == 2 {
            if let Ok(a) = g("loading an AST", &t, || serde_json::from_str::<OCAAst>(&t))? {
                g("building an AST", &t, || oca_bundle_semantics::build::from_ast(None, &a).is_ok())?;
            }
        } else {
            p23_doc(&t, None, o)?;
        }
        o.traces += 1;
    }
    Ok(())
}
fn p23(ctx: &Ctx) {
    QUICK.store(ctx.quick(), std::sync::atomic::Ordering::Relaxed);
    let bs = bases();
    let _ = ast_base();
    let mut muts = vec![];
    let mut parts = vec![];
    for (i, b) in bs.iter().enumerate() {
        for p in distinct_shapes(pointers(b)) {
            let m = Mut { base: i, ptr: p.clone(), second: None };
            if p.starts_with("/capture_base") || p.starts_with("/overlays/") {
                parts.push(m.clone());
            }
            muts.push(m);
        }
    }
    ctx.run("documents", &muts, p23_mut);
    ctx.run("parts", &parts, p23_part);
    let asts: Vec<Mut> = distinct_shapes(pointers(ast_base())).into_iter().map(|ptr| Mut { base: 0, ptr, second: None }).collect();
    ctx.run("trees", &asts, p23_ast);
    let packages: Vec<Mut> = package_bases().iter().enumerate().flat_map(|(base, v)| pointers(v).into_iter().map(move |ptr| Mut { base, ptr, second: None })).collect();
    ctx.run("packages", &packages, p23_package);
    let mut zero = vec![];
    for (i, b) in [&bs[0], &bs[1], ast_base()].into_iter().enumerate() {
        for p in pointers(b) {
            if b.pointer(&p).unwrap().is_string() {
                zero.push(Mut { base: i, ptr: p, second: None });
            }
        }
    }
    ctx.run("zero", &zero, p23_zero);
    let mut bytes = vec![];
    for (i, b) in bs.iter().enumerate() {
        if ctx.quick() && i == 0 {
            continue;
        }
        let n = b.to_string().len();
        for f in (0..n).step_by(20) {
            bytes.push((i, f, f + 20));
        }
    }
    ctx.run("bytes", &bytes, p23_bytes);
    let mut texts: Vec<String> = ["", " ", "null", "[]", "{}", "1", "\"x\"", "{\"overlays\":{}}", "{\"capture_base\":{}}", "{\"capture_base\":{},\"overlays\":{}}", "{\"v\":1}", "[[]]", "\u{feff}{}"].iter().map(|s| s.to_string()).collect();
    let small = bs[1].to_string();
    for n in [1, 2, 3, 10, 60, 100, 115, 120, 127, 128, 1000, 100000] {
        texts.push(format!("{}{}", "[".repeat(n), "]".repeat(n)));
        for leaf in ["\"Text\"", &format!("\"refs:{SAID1}\""), ""] {
            texts.push(small.replacen("\"a\":\"Text\"", &format!("\"a\":{}{leaf}{}", "[".repeat(n), "]".repeat(n)), 1));
        }
        texts.push(small.replacen("\"classification\":", &format!("\"zz\":{}1{},\"classification\":", "{\"k\":".repeat(n), "}".repeat(n)), 1));
    }
    // keys given twice
    for b in bs {
        let t = b.to_string();
        for k in pointers(b).iter().filter_map(|p| p.rsplit('/').next().map(|s| s.to_string())).collect::<std::collections::BTreeSet<_>>() {
            let key = format!("\"{k}\":");
            if let Some(i) = t.find(&key) {
                for v in ["null", "1", "\"x\"", "{}", "[]"] {
                    texts.push(format!("{}{key}{v},{}", &t[..i], &t[i..]));
                }
            }
        }
    }
    ctx.run("texts", &texts, p23_text);
    if !ctx.quick() {
        let mut pairs = vec![];
        let ps = pointers(&bs[1]);
        for a in &ps {
            for b in &ps {
                if a < b {
                    pairs.push(Mut { base: 1, ptr: a.clone(), second: Some(b.clone()) });
                }
            }
        }
        let ps: Vec<String> = pointers(&bs[0]).into_iter().filter(|p| p.matches('/').count() >= 2).collect();
        for (i, a) in ps.iter().enumerate() {
            for b in &ps[i + 1..] {
                // within one part
                let seg = |p: &str| p.split('/').take(3).collect::<Vec<_>>().join("/");
                if seg(a) == seg(b) {
                    pairs.push(Mut { base: 0, ptr: a.clone(), second: Some(b.clone()) });
                }
            }
        }
        ctx.run("pairs", &pairs, p23_mut);
    }
}
fn p23_replay(st: &str, c: &Value) -> Res {
    let mut o = Obs::default();
    match st {
        "documents" | "pairs" => p23_mut(&parse_case(c), &mut o),
        "zero" => p23_zero(&parse_case(c), &mut o),
        "packages" => p23_package(&parse_case(c), &mut o),
        "parts" => p23_part(&parse_case(c), &mut o),
        "trees" => p23_ast(&parse_case(c), &mut o),
        "bytes" => p23_bytes(&parse_case(c), &mut o),
        _ => p23_text(&parse_case(c), &mut o),
    }
}
