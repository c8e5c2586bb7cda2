//! The OCAfile command language as data, its text form, and the reference model:
//! an independent statement of what a program means and what its bundle contains.
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    B(String),
    Arr(Box<Ty>),
    Refs(String),
    Refn(String),
}
impl Ty {
    pub fn text(&self) -> String {
        match self {
            Ty::B(s) => s.clone(),
            Ty::Arr(t) => format!("Array[{}]", t.text()),
            Ty::Refs(s) => format!("refs:{s}"),
            Ty::Refn(s) => format!("refn:{s}"),
        }
    }
    pub fn json(&self) -> Value {
        match self {
            Ty::Arr(t) => json!([t.json()]),
            t => json!(t.text()),
        }
    }
    pub fn resolve(&self, names: &BTreeMap<String, String>) -> Result<Ty, String> {
        Ok(match self {
            Ty::Arr(t) => Ty::Arr(Box::new(t.resolve(names)?)),
            Ty::Refn(n) => Ty::Refs(names.get(n).cloned().ok_or_else(|| format!("unknown name {n}"))?),
            t => t.clone(),
        })
    }
    pub fn target(&self) -> Option<&str> {
        match self {
            Ty::Arr(t) => t.target(),
            Ty::Refs(s) => Some(s),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ec {
    Sai(String),
    List(Vec<String>),
    Groups(Vec<(String, Vec<String>)>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum En {
    Sai(String),
    Map(Vec<(String, String)>),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Enc,
    Fmt,
    Conf,
    Card,
    Unit,
    Cond,
}
pub type KV = Vec<(String, String)>;
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cmd {
    AddAttr(Vec<(String, Ty)>),
    AddClass(String),
    RemAttr(Vec<String>),
    RemClass,
    Meta(String, KV),
    Label(String, KV),
    Info(String, KV),
    Over(K, KV),
    Ecode(Vec<(String, Ec)>),
    Entry(String, Vec<(String, En)>),
    Link(Ty, KV),
    /// id, other metadata, attributes: (name, [(key, predicate, justification)])
    Framing(String, KV, Vec<(String, Vec<(String, String, String)>)>),
    From(String),
    Flag(Vec<String>),
    /// text the reference model does not interpret
    Raw(String),
}

fn q(s: &str) -> String {
    format!("\"{s}\"")
}
fn kvs(kv: &KV) -> String {
    kv.iter().map(|(k, v)| format!(" {k}={}", q(v))).collect()
}
impl K {
    pub fn word(&self) -> &'static str {
        match self {
            K::Enc => "CHARACTER_ENCODING",
            K::Fmt => "FORMAT",
            K::Conf => "CONFORMANCE",
            K::Card => "CARDINALITY",
            K::Unit => "UNIT",
            K::Cond => "CONDITION",
        }
    }
}
impl Cmd {
    pub fn text(&self) -> String {
        match self {
            Cmd::AddAttr(a) => format!("ADD ATTRIBUTE{}", a.iter().map(|(n, t)| format!(" {n}={}", t.text())).collect::<String>()),
            Cmd::AddClass(c) => format!("ADD CLASSIFICATION {c}"),
            Cmd::RemAttr(a) => format!("REMOVE ATTRIBUTE {}", a.join(" ")),
            Cmd::RemClass => "REMOVE CLASSIFICATION".into(),
            Cmd::Meta(l, kv) => format!("ADD META {l} PROPS{}", kvs(kv)),
            Cmd::Label(l, kv) => format!("ADD LABEL {l} ATTRS{}", kvs(kv)),
            Cmd::Info(l, kv) => format!("ADD INFORMATION {l} ATTRS{}", kvs(kv)),
            Cmd::Over(k, kv) => format!("ADD {} ATTRS{}", k.word(), kvs(kv)),
            Cmd::Ecode(a) => format!(
                "ADD ENTRY_CODE ATTRS{}",
                a.iter()
                    .map(|(n, e)| format!(
                        " {n}={}",
                        match e {
                            Ec::Sai(s) => q(s),
                            Ec::List(l) => list(l),
                            Ec::Groups(g) => format!("{{{}}}", g.iter().map(|(k, l)| format!("{}: {}", q(k), list(l))).collect::<Vec<_>>().join(", ")),
                        }
                    ))
                    .collect::<String>()
            ),
            Cmd::Entry(l, a) => format!(
                "ADD ENTRY {l} ATTRS{}",
                a.iter()
                    .map(|(n, e)| format!(
                        " {n}={}",
                        match e {
                            En::Sai(s) => q(s),
                            En::Map(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", q(k), q(v))).collect::<Vec<_>>().join(", ")),
                        }
                    ))
                    .collect::<String>()
            ),
            Cmd::Link(t, kv) => format!("ADD LINK {} ATTRS{}", t.text(), kvs(kv)),
            Cmd::Framing(id, md, at) => format!(
                "ADD ATTR_FRAMING id={}{} ATTRS{}",
                q(id),
                kvs(md),
                at.iter().map(|(n, fs)| format!(" {n}={{{}}}", fs.iter().map(|(k, p, j)| format!("{}: {{\"predicate_id\": {}, \"framing_justification\": {}}}", q(k), q(p), q(j))).collect::<Vec<_>>().join(", "))).collect::<String>()
            ),
            Cmd::From(s) => format!("FROM {s}"),
            Cmd::Flag(a) => format!("ADD FLAGGED_ATTRIBUTES {}", a.join(" ")),
            Cmd::Raw(s) => s.clone(),
        }
    }
}
fn list(l: &[String]) -> String {
    format!("[{}]", l.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "))
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash, Default)]
pub struct Prog {
    #[serde(default)]
    pub name: Option<String>,
    pub cmds: Vec<Cmd>,
}
impl Prog {
    pub fn new(cmds: Vec<Cmd>) -> Self {
        Prog { name: None, cmds }
    }
    pub fn named(n: &str, cmds: Vec<Cmd>) -> Self {
        Prog { name: Some(n.into()), cmds }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        if let Some(n) = &self.name {
            s += &format!("-- name={n}\n");
        }
        for c in &self.cmds {
            s += &c.text();
            s.push('\n');
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MAttr {
    pub ty: Option<Ty>,
    pub flagged: bool,
    pub label: BTreeMap<String, String>,
    pub info: BTreeMap<String, String>,
    pub over: BTreeMap<u8, String>,
    pub ecode: Option<Ec>,
    pub entry: BTreeMap<String, En>,
    pub link: BTreeMap<String, String>,
    pub framing: BTreeMap<String, BTreeMap<String, (String, String)>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct MState {
    pub attrs: BTreeMap<String, MAttr>,
    pub class: Option<String>,
    pub meta: BTreeMap<String, BTreeMap<String, String>>,
    pub frames: BTreeMap<String, BTreeMap<String, String>>,
}
/// What the reference model knows about the store a program is built against.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub names: BTreeMap<String, String>,
    pub bundles: BTreeMap<String, MState>,
}

pub const ENCODINGS: [&str; 6] = ["base64", "utf-8", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"];
/// every two-letter language code
pub fn languages() -> Vec<String> {
    ISO.split_whitespace().map(|x| x[..2].to_string()).collect()
}
/// ISO 639: every language with a two-letter code, followed by its three-letter code
const ISO: &str = "\
    aaaar ababk aeave afafr akaka amamh anarg arara asasm avava ayaym azaze babak bebel bgbul bibis bmbam bnben bobod brbre bsbos cacat ceche chcha cocos crcre csces cuchu \
    cvchv cycym dadan dedeu dvdiv dzdzo eeewe elell eneng eoepo esspa etest eueus fafas ffful fifin fjfij fofao frfra fyfry gagle gdgla glglg gngrn guguj gvglv hahau heheb \
    hihin hohmo hrhrv hthat huhun hyhye hzher iaina idind ieile igibo iiiii ikipk ioido isisl itita iuiku jajpn jvjav kakat kgkon kikik kjkua kkkaz klkal kmkhm knkan kokor \
    krkau kskas kukur kvkom kwcor kykir lalat lbltz lglug lilim lnlin lolao ltlit lulub lvlav mgmlg mhmah mimri mkmkd mlmal mnmon mrmar msmsa mtmlt mymya nanau nbnob ndnde \
    nenep ngndo nlnld nnnno nonor nrnbl nvnav nynya ococi ojoji omorm orori ososs papan pipli plpol pspus ptpor quque rmroh rnrun roron rurus rwkin sasan scsrd sdsnd sesme \
    sgsag shhbs sisin skslk slslv smsmo snsna sosom sqsqi srsrp ssssw stsot susun svswe swswa tatam tetel tgtgk ththa titir tktuk tltgl tntsn toton trtur tstso tttat twtwi \
    tytah uguig ukukr ururd uzuzb veven vivie vovol wawln wowol xhxho yiyid yoyor zazha zhzho zuzul \
";
pub fn lang3(l: &str) -> Option<&'static str> {
    match l {
        // no two-letter code: only through the programming interface
        "fil" => Some("fil"),
        "haw" => Some("haw"),
        _ if l.len() == 2 => ISO.split_whitespace().find(|x| &x[..2] == l).map(|x| &x[2..]),
        _ => None,
    }
}
pub const BASE_TYPES: [&str; 5] = ["Text", "Numeric", "Boolean", "Binary", "DateTime"];

impl MState {
    fn at(&mut self, n: &str) -> Result<&mut MAttr, String> {
        self.attrs.get_mut(n).ok_or_else(|| format!("attribute {n} is not defined"))
    }
    /// One step of the reference semantics.
    pub fn apply(&mut self, c: &Cmd, env: &Env) -> Result<(), String> {
        let lang = |l: &String| lang3(l).map(|s| s.to_string()).ok_or(format!("unknown language {l}"));
        match c {
            Cmd::AddAttr(a) => {
                for (n, _) in a {
                    if self.attrs.contains_key(n) {
                        return Err(format!("attribute {n} exists"));
                    }
                }
                for (n, t) in a {
                    let t = t.resolve(&env.names)?;
                    self.attrs.insert(n.clone(), MAttr { ty: Some(t), ..Default::default() });
                }
            }
            Cmd::AddClass(c) => self.class = Some(c.clone()),
            Cmd::RemAttr(a) => {
                for n in a {
                    if !self.attrs.contains_key(n) {
                        return Err(format!("attribute {n} does not exist"));
                    }
                }
                for n in a {
                    self.attrs.remove(n);
                }
                let used: Vec<String> = self.attrs.values().flat_map(|a| a.framing.keys().cloned()).collect();
                self.frames.retain(|k, _| used.contains(k));
            }
            Cmd::RemClass => {
                if self.class.take().is_none() {
                    return Err("no classification".into());
                }
            }
            Cmd::Meta(l, kv) => {
                let l = lang(l)?;
                let m = self.meta.entry(l).or_default();
                for (k, v) in kv {
                    m.insert(k.clone(), v.clone());
                }
            }
            Cmd::Label(l, kv) => {
                let l = lang(l)?;
                for (k, v) in kv {
                    self.at(k)?.label.insert(l.clone(), v.clone());
                }
            }
            Cmd::Info(l, kv) => {
                let l = lang(l)?;
                for (k, v) in kv {
                    self.at(k)?.info.insert(l.clone(), v.clone());
                }
            }
            Cmd::Over(k, kv) => {
                for (n, v) in kv {
                    if *k == K::Enc && !ENCODINGS.contains(&v.as_str()) {
                        return Err(format!("unknown encoding {v}"));
                    }
                    self.at(n)?.over.insert(*k as u8, v.clone());
                }
            }
            Cmd::Ecode(a) => {
                for (n, e) in a {
                    self.at(n)?.ecode = Some(e.clone());
                }
            }
            Cmd::Entry(l, a) => {
                let l = lang(l)?;
                for (n, e) in a {
                    self.at(n)?.entry.insert(l.clone(), e.clone());
                }
            }
            Cmd::Link(t, kv) => {
                let t = t.resolve(&env.names)?;
                let t = t.target().unwrap().to_string();
                for (n, v) in kv {
                    self.at(n)?.link.insert(t.clone(), v.clone());
                }
            }
            Cmd::Framing(id, md, at) => {
                for (n, fs) in at {
                    let f = self.at(n)?.framing.entry(id.clone()).or_default();
                    for (k, p, j) in fs {
                        f.insert(k.to_lowercase(), (p.clone(), j.clone()));
                    }
                }
                let m = self.frames.entry(id.clone()).or_default();
                for (k, v) in md {
                    m.insert(format!("frame_{k}"), v.clone());
                }
            }
            Cmd::Flag(a) => {
                for n in a {
                    self.at(n)?.flagged = true;
                }
            }
            Cmd::From(_) => return Err("FROM is only allowed first".into()),
            Cmd::Raw(s) => return Err(format!("not a command: {s}")),
        }
        Ok(())
    }
    /// Meaning of a whole program: the state after every command, or the index of the bad one.
    pub fn run(p: &Prog, env: &Env) -> Result<Vec<MState>, (usize, String)> {
        let mut s = MState::default();
        let mut out = vec![];
        for (i, c) in p.cmds.iter().enumerate() {
            if let (0, Cmd::From(b)) = (i, c) {
                s = env.bundles.get(b).cloned().ok_or((0, format!("unknown base {b}")))?;
                continue;
            }
            s.apply(c, env).map_err(|e| (i, e))?;
            out.push(s.clone());
        }
        if out.is_empty() {
            if p.cmds.is_empty() {
                return Err((0, "empty program".into()));
            }
            out.push(s);
        }
        Ok(out)
    }

    /// Every condition compares numbers of existing attributes other than its own.
    pub fn conditions_ok(&self) -> bool {
        self.attrs.iter().all(|(n, a)| a.over.get(&(K::Cond as u8)).is_none_or(|c| split_condition(c).1.iter().all(|d| d != n && self.attrs.get(d).is_some_and(|x| x.ty == Some(b("Numeric"))))))
    }
    /// The bundle's content as encoded JSON, identifiers left out (see `strip`).
    pub fn json(&self) -> Value {
        let mut attributes = Map::new();
        for (n, a) in &self.attrs {
            attributes.insert(n.clone(), a.ty.as_ref().unwrap().json());
        }
        let cb = json!({"type": "spec/capture_base/1.1", "attributes": attributes,
            "classification": self.class.clone().unwrap_or_default(), "flagged_attributes": self.attrs.iter().filter(|(_, a)| a.flagged).map(|(n, _)| n).collect::<Vec<_>>()});
        let mut ov: BTreeMap<String, Value> = BTreeMap::new();
        let single =
            [(K::Enc, "character_encoding", "attribute_character_encoding"), (K::Fmt, "format", "attribute_formats"), (K::Conf, "conformance", "attribute_conformance"), (K::Card, "cardinality", "attribute_cardinality"), (K::Unit, "unit", "attribute_unit")];
        for (k, ty, field) in single {
            let m: BTreeMap<_, _> = self.attrs.iter().filter_map(|(n, a)| a.over.get(&(k as u8)).map(|v| (n.clone(), v.clone()))).collect();
            if !m.is_empty() {
                ov.insert(ty.into(), json!({"type": format!("spec/overlays/{ty}/1.1"), field: m}));
            }
        }
        let mut conds = BTreeMap::new();
        let mut deps = BTreeMap::new();
        for (n, a) in &self.attrs {
            if let Some(c) = a.over.get(&(K::Cond as u8)) {
                let (t, d) = split_condition(c);
                conds.insert(n.clone(), t);
                deps.insert(n.clone(), d);
            }
        }
        if !conds.is_empty() {
            ov.insert("conditional".into(), json!({"type": "spec/overlays/conditional/1.1", "attribute_conditions": conds, "attribute_dependencies": deps}));
        }
        let ec: BTreeMap<_, _> = self
            .attrs
            .iter()
            .filter_map(|(n, a)| {
                a.ecode.as_ref().map(|e| {
                    (
                        n.clone(),
                        match e {
                            Ec::Sai(s) => json!(s),
                            Ec::List(l) => {
                                let mut l = l.clone();
                                l.sort();
                                json!(l)
                            }
                            Ec::Groups(g) => Value::Object(g.iter().map(|(k, l)| (k.clone(), json!(l))).collect()),
                        },
                    )
                })
            })
            .collect();
        if !ec.is_empty() {
            ov.insert("entry_code".into(), json!({"type": "spec/overlays/entry_code/1.1", "attribute_entry_codes": ec}));
        }
        let mut many: BTreeMap<&str, Vec<Value>> = BTreeMap::new();
        for (l, kv) in &self.meta {
            if kv.is_empty() {
                continue;
            }
            let mut m = Map::new();
            m.insert("type".into(), json!("spec/overlays/meta/1.1"));
            m.insert("language".into(), json!(l));
            for (k, v) in kv {
                m.insert(k.clone(), json!(v));
            }
            many.entry("meta").or_default().push(Value::Object(m));
        }
        let langs: std::collections::BTreeSet<&String> = self.attrs.values().flat_map(|a| a.label.keys().chain(a.info.keys()).chain(a.entry.keys())).collect();
        for l in langs {
            let f = |g: &dyn Fn(&MAttr) -> Option<Value>| -> Map<String, Value> { self.attrs.iter().filter_map(|(n, a)| g(a).map(|v| (n.clone(), v))).collect() };
            let lab = f(&|a| a.label.get(l).map(|s| json!(s)));
            if !lab.is_empty() {
                many.entry("label").or_default().push(json!({"type": "spec/overlays/label/1.1", "language": l,
                    "attribute_categories": [], "attribute_labels": lab, "category_labels": {}}));
            }
            let inf = f(&|a| a.info.get(l).map(|s| json!(s)));
            if !inf.is_empty() {
                many.entry("information").or_default().push(json!({"type": "spec/overlays/information/1.1", "language": l, "attribute_information": inf}));
            }
            let ent = f(&|a| {
                a.entry.get(l).map(|e| match e {
                    En::Sai(s) => json!(s),
                    En::Map(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(v))).collect()),
                })
            });
            if !ent.is_empty() {
                many.entry("entry").or_default().push(json!({"type": "spec/overlays/entry/1.1", "language": l, "attribute_entries": ent}));
            }
        }
        let targets: std::collections::BTreeSet<&String> = self.attrs.values().flat_map(|a| a.link.keys()).collect();
        for t in targets {
            let m: BTreeMap<_, _> = self.attrs.iter().filter_map(|(n, a)| a.link.get(t).map(|v| (n, v))).collect();
            many.entry("link").or_default().push(json!({"type": "spec/overlays/link/1.1", "target_bundle": t, "attribute_mapping": m}));
        }
        let frames: std::collections::BTreeSet<&String> = self.attrs.values().flat_map(|a| a.framing.keys()).collect();
        for id in frames {
            let m: BTreeMap<_, _> = self
                .attrs
                .iter()
                .filter_map(|(n, a)| {
                    a.framing.get(id).map(|f| {
                        let f: BTreeMap<_, _> = f.iter().map(|(k, (p, j))| (k, json!({"predicate_id": p, "framing_justification": j}))).collect();
                        (n, f)
                    })
                })
                .collect();
            let mut md = self.frames.get(id).cloned().unwrap_or_default();
            md.insert("frame_id".into(), id.clone());
            many.entry("attribute_framing").or_default().push(json!({"type": "spec/overlays/attribute_framing/1.1", "framing_metadata": md, "attribute_framing": m}));
        }
        for (k, v) in many {
            ov.insert(k.into(), json!(v));
        }
        canon(&json!({"capture_base": cb, "overlays": ov}))
    }
}

/// ${name} -> ${index into the list of names, in order of first use}
pub fn split_condition(c: &str) -> (String, Vec<String>) {
    let mut out = String::new();
    let mut deps: Vec<String> = vec![];
    let mut rest = c;
    while let Some(i) = rest.find("${") {
        out += &rest[..i];
        let tail = &rest[i + 2..];
        if let Some(j) = tail.find('}') {
            let name = &tail[..j];
            let k = deps.iter().position(|d| d == name).unwrap_or_else(|| {
                deps.push(name.into());
                deps.len() - 1
            });
            out += &format!("${{{k}}}");
            rest = &tail[j + 1..];
        } else {
            out += "${";
            rest = tail;
        }
    }
    (out + rest, deps)
}

/// Sorts object keys and the arrays of overlays, so that content can be compared.
pub fn canon(v: &Value) -> Value {
    fn go(v: &Value, path: usize) -> Value {
        match v {
            Value::Object(m) => {
                let mut b: BTreeMap<String, Value> = BTreeMap::new();
                for (k, x) in m {
                    b.insert(k.clone(), go(x, path + 1));
                }
                if path == 0 {
                    if let Some(Value::Object(ov)) = b.get("overlays").cloned() {
                        let mut o2 = Map::new();
                        for (k, x) in ov {
                            if let Value::Array(mut a) = x {
                                a.sort_by_key(|x| x.to_string());
                                o2.insert(k, Value::Array(a));
                            } else {
                                o2.insert(k, x);
                            }
                        }
                        b.insert("overlays".into(), Value::Object(o2));
                    }
                }
                Value::Object(b.into_iter().collect())
            }
            Value::Array(a) => Value::Array(a.iter().map(|x| go(x, path + 1)).collect()),
            x => x.clone(),
        }
    }
    go(v, 0)
}

/// Encoded bundle JSON without version and identifiers, canonical.
pub fn strip(v: &Value) -> Value {
    let mut v = v.clone();
    let o = v.as_object_mut().unwrap();
    o.remove("v");
    o.remove("d");
    if let Some(Value::Object(cb)) = o.get_mut("capture_base") {
        cb.remove("d");
    }
    if let Some(Value::Object(ovs)) = o.get_mut("overlays") {
        for (_, x) in ovs.iter_mut() {
            let each = |x: &mut Value| {
                if let Some(m) = x.as_object_mut() {
                    m.remove("d");
                    m.remove("capture_base");
                }
            };
            if let Value::Array(a) = x {
                a.iter_mut().for_each(each);
            } else {
                each(x);
            }
        }
    }
    canon(&v)
}

// ---- helpers to write programs briefly ----
pub fn b(t: &str) -> Ty {
    Ty::B(t.into())
}
pub fn arr(t: Ty) -> Ty {
    Ty::Arr(Box::new(t))
}
pub fn attr(n: &str, t: Ty) -> Cmd {
    Cmd::AddAttr(vec![(n.into(), t)])
}
pub fn kv(l: &[(&str, &str)]) -> KV {
    l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
pub fn over(k: K, l: &[(&str, &str)]) -> Cmd {
    Cmd::Over(k, kv(l))
}
pub fn label(l: &str, x: &[(&str, &str)]) -> Cmd {
    Cmd::Label(l.into(), kv(x))
}
pub fn info(l: &str, x: &[(&str, &str)]) -> Cmd {
    Cmd::Info(l.into(), kv(x))
}
pub fn meta(l: &str, x: &[(&str, &str)]) -> Cmd {
    Cmd::Meta(l.into(), kv(x))
}
pub fn rem(l: &[&str]) -> Cmd {
    Cmd::RemAttr(l.iter().map(|s| s.to_string()).collect())
}
pub fn elist(n: &str, l: &[&str]) -> Cmd {
    Cmd::Ecode(vec![(n.into(), Ec::List(l.iter().map(|s| s.to_string()).collect()))])
}
pub fn esai(n: &str, s: &str) -> Cmd {
    Cmd::Ecode(vec![(n.into(), Ec::Sai(s.into()))])
}
pub fn egroups(n: &str, g: &[(&str, &[&str])]) -> Cmd {
    Cmd::Ecode(vec![(n.into(), Ec::Groups(g.iter().map(|(k, l)| (k.to_string(), l.iter().map(|s| s.to_string()).collect())).collect()))])
}
pub fn entry(l: &str, n: &str, m: &[(&str, &str)]) -> Cmd {
    Cmd::Entry(l.into(), vec![(n.into(), En::Map(kv(m)))])
}
pub fn entry_sai(l: &str, n: &str, s: &str) -> Cmd {
    Cmd::Entry(l.into(), vec![(n.into(), En::Sai(s.into()))])
}
pub fn link(t: &str, x: &[(&str, &str)]) -> Cmd {
    Cmd::Link(Ty::Refs(t.into()), kv(x))
}
pub fn framing(id: &str, md: &[(&str, &str)], a: &str, k: &str, p: &str, j: &str) -> Cmd {
    Cmd::Framing(id.into(), kv(md), vec![(a.into(), vec![(k.into(), p.into(), j.into())])])
}
pub fn flag(l: &[&str]) -> Cmd {
    Cmd::Flag(l.iter().map(|s| s.to_string()).collect())
}
pub fn class(c: &str) -> Cmd {
    Cmd::AddClass(c.into())
}
pub const SAID1: &str = "EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0";
pub const SAID2: &str = "EF5ERATRBBN_ewEo9buQbznirhBmvrSSC0O2GIR4Gbfs";
