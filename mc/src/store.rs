//! A reference model of the store a facade keeps: what every build must leave behind,
//! computed from the in-memory builder and the model of the language, never from the storage.
use crate::lang::*;
use crate::sys::*;
use oca_ast_semantics::ast;
use oca_bundle_semantics::state::oca::OCABundle;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Built {
    pub said: String,
    pub enc: String,
    /// commands executed by this build, as JSON, and the bundle each led to
    pub steps: Vec<(String, String)>,
    pub base: Option<String>,
    /// no step led to a bundle the store already had
    pub all_new: bool,
}
#[derive(Clone, Default)]
pub struct SM {
    pub env: Env,
    /// every bundle of every step, encoded
    pub bundles: BTreeMap<String, String>,
    /// every capture base and overlay of every step: kind, JSON
    pub objs: BTreeMap<String, (String, String)>,
    /// how each bundle was first reached: parent, command
    pub hist: BTreeMap<String, (Option<String>, String)>,
    /// the object the command of `hist` addresses
    hist_key: BTreeMap<String, String>,
    pub finals: BTreeSet<String>,
    pub final_cbs: BTreeSet<String>,
    pub rel: BTreeMap<String, (String, BTreeSet<String>)>,
    /// (bundle, language) -> name, description
    pub meta: BTreeMap<(String, String), (String, String)>,
    /// core model: object -> previous version, command digest
    pub core_obj: BTreeMap<String, (Option<String>, String)>,
    /// core model: bundle -> parent, capture base, overlays
    pub core_bundle: BTreeMap<String, (Option<String>, String, Vec<String>)>,
    pub core_cmd: BTreeMap<String, String>,
    pub deps: BTreeMap<String, BTreeSet<String>>,
}
fn overlay_key(v: &serde_json::Value) -> String {
    format!(
        "{}|{}|{}|{}",
        v["type"].as_str().unwrap(),
        v["language"].as_str().unwrap_or(""),
        v["target_bundle"].as_str().unwrap_or(""),
        v["framing_metadata"]["frame_id"].as_str().unwrap_or("")
    )
}
/// The object a command addresses, named as `overlay_key` names it ("" = the capture base).
pub fn addressed(c: &Cmd, env: &Env) -> String {
    let l = |l: &String| lang3(l).unwrap_or("").to_string();
    let t = |t: &str| format!("spec/overlays/{t}/1.1");
    match c {
        Cmd::AddAttr(_) | Cmd::AddClass(_) | Cmd::RemAttr(_) | Cmd::RemClass | Cmd::Flag(_) => String::new(),
        Cmd::Meta(a, _) => format!("{}|{}||", t("meta"), l(a)),
        Cmd::Label(a, _) => format!("{}|{}||", t("label"), l(a)),
        Cmd::Info(a, _) => format!("{}|{}||", t("information"), l(a)),
        Cmd::Entry(a, _) => format!("{}|{}||", t("entry"), l(a)),
        Cmd::Ecode(_) => format!("{}|||", t("entry_code")),
        Cmd::Over(k, _) => format!(
            "{}|||",
            t(match k {
                K::Enc => "character_encoding",
                K::Fmt => "format",
                K::Conf => "conformance",
                K::Card => "cardinality",
                K::Unit => "unit",
                K::Cond => "conditional",
            })
        ),
        Cmd::Link(ty, _) => format!("{}||{}|", t("link"), ty.resolve(&env.names).unwrap().target().unwrap()),
        Cmd::Framing(id, _, _) => format!("{}|||{}", t("attribute_framing"), id),
        Cmd::From(_) | Cmd::Raw(_) => panic!("addresses nothing"),
    }
}
fn kind_of(v: &serde_json::Value) -> String {
    let t = v["type"].as_str().unwrap();
    if t.starts_with("spec/capture_base/") {
        "capture_base".into()
    } else {
        t.split('/').nth(2).unwrap().into()
    }
}
pub fn command_digest(json: &str) -> String {
    let code: said::derivation::HashFunction = said::derivation::HashFunctionCode::Blake3_256.into();
    code.derive(json.as_bytes()).to_string()
}
fn resolve(p: &Prog, env: &Env) -> Result<Prog, String> {
    let mut q = p.clone();
    q.name = None;
    for c in &mut q.cmds {
        match c {
            Cmd::AddAttr(a) => {
                for x in a {
                    x.1 = x.1.resolve(&env.names)?;
                }
            }
            Cmd::Link(t, _) => *t = t.resolve(&env.names)?,
            _ => {}
        }
    }
    Ok(q)
}
pub fn ast_of(text: &str) -> ast::OCAAst {
    oca_file_semantics::ocafile::parse_from_string(text.to_string()).unwrap_or_else(|e| panic!("does not parse: {e}\n{text}"))
}

impl SM {
    /// The resolved meaning of the program against this store: what `build` would do.
    pub fn build(&mut self, p: &Prog) -> Result<Built, String> {
        let q = resolve(p, &self.env)?;
        let states = MState::run(&q, &self.env).map_err(|e| format!("command {}: {}", e.0, e.1))?;
        let (base_id, cmds) = match q.cmds.first() {
            Some(Cmd::From(b)) => (Some(b.clone()), q.cmds[1..].to_vec()),
            _ => (None, q.cmds.clone()),
        };
        let base: Option<OCABundle> = base_id.as_ref().map(|b| load(&self.bundles[b]).unwrap());
        let text = q.text();
        let mut a = ast_of(&text);
        if base.is_some() {
            a.commands.remove(0);
        }
        let r = oca_bundle_semantics::build::from_ast(base, &a).unwrap_or_else(|e| panic!("in-memory builder rejects: {e:?}\n{text}"));
        let mut b = Built { said: said_of(&r.oca_bundle), enc: encs(&r.oca_bundle), steps: vec![], base: base_id.clone(), all_new: true };
        // versions of objects along the path that leads to the base
        let mut track: BTreeMap<String, String> = BTreeMap::new();
        if let Some(id) = &base_id {
            for (x, _) in self.chain(id) {
                let key = self.hist_key[&x].clone();
                if let Some(obj) = object_of(&self.bundles[&x], &key) {
                    track.insert(key, obj);
                }
            }
        }
        let mut parent = base_id.clone();
        for (i, s) in r.steps.iter().enumerate() {
            let id = said_of(&s.result);
            let cmd = serde_json::to_string(&s.command).unwrap();
            b.steps.push((cmd.clone(), id.clone()));
            b.all_new &= !self.hist.contains_key(&id);
            self.record_bundle(&s.result);
            self.env.bundles.entry(id.clone()).or_insert_with(|| states[i].clone());
            self.hist.entry(id.clone()).or_insert((parent.clone(), cmd.clone()));
            // core model
            let key = addressed(&cmds[i], &self.env);
            self.hist_key.entry(id.clone()).or_insert(key.clone());
            self.core_cmd.insert(command_digest(&cmd), cmd.clone());
            if let Some(obj) = object_of(&self.bundles[&id], &key) {
                self.core_obj.entry(obj.clone()).or_insert((track.get(&key).cloned(), command_digest(&cmd)));
                track.insert(key, obj);
            }
            let mut ov: Vec<String> = s.result.overlays.iter().map(|o| o.said().as_ref().unwrap().to_string()).collect();
            ov.sort();
            self.core_bundle.entry(id.clone()).or_insert((parent.clone(), s.result.capture_base.said.as_ref().unwrap().to_string(), ov));
            parent = Some(id);
        }
        self.finish(&r.oca_bundle);
        if let Some(n) = &p.name {
            self.env.names.insert(n.clone(), b.said.clone());
        }
        Ok(b)
    }
    /// first-reached history of a bundle, oldest first: (result, command)
    pub fn chain(&self, id: &str) -> Vec<(String, String)> {
        let mut v = vec![];
        let mut at = Some(id.to_string());
        while let Some(x) = at {
            let (p, c) = &self.hist[&x];
            v.push((x.clone(), c.clone()));
            at = p.clone();
        }
        v.reverse();
        v
    }
    fn record_bundle(&mut self, bd: &OCABundle) {
        let id = said_of(bd);
        self.bundles.insert(id.clone(), encs(bd));
        let cb = serde_json::to_string(&bd.capture_base).unwrap();
        self.objs.insert(bd.capture_base.said.as_ref().unwrap().to_string(), ("capture_base".into(), cb));
        for o in &bd.overlays {
            let j = serde_json::to_string(o).unwrap();
            let k = kind_of(&serde_json::from_str(&j).unwrap());
            self.objs.insert(o.said().as_ref().unwrap().to_string(), (k, j));
        }
        fn refs(t: &serde_json::Value, out: &mut BTreeSet<String>) {
            match t {
                serde_json::Value::Array(a) => a.iter().for_each(|x| refs(x, out)),
                serde_json::Value::String(s) => {
                    if let Some(r) = s.strip_prefix("refs:") {
                        out.insert(r.into());
                    }
                }
                _ => {}
            }
        }
        let mut d = BTreeSet::new();
        for (_, t) in jval(bd)["capture_base"]["attributes"].as_object().unwrap() {
            refs(t, &mut d);
        }
        self.deps.insert(id, d);
    }
    fn finish(&mut self, bd: &OCABundle) {
        let id = said_of(bd);
        let cb = bd.capture_base.said.as_ref().unwrap().to_string();
        self.finals.insert(id.clone());
        self.final_cbs.insert(cb.clone());
        let mut add = |a: &str, ak: &str, b: &str, bk: &str| {
            self.rel.entry(a.into()).or_insert((ak.into(), Default::default())).1.insert(format!("{bk}:{b}"));
            self.rel.entry(b.into()).or_insert((bk.into(), Default::default())).1.insert(format!("{ak}:{a}"));
        };
        add(&id, "bundle", &cb, "capture_base");
        for o in &bd.overlays {
            let j: serde_json::Value = serde_json::to_value(o).unwrap();
            let k = kind_of(&j);
            let oid = o.said().as_ref().unwrap().to_string();
            add(&id, "bundle", &oid, &k);
            add(&cb, "capture_base", &oid, &k);
            if k == "meta" {
                let f = |x: &str| j[x].as_str().unwrap_or("").to_string();
                self.meta.insert((id.clone(), f("language")), (f("name"), f("description")));
            }
        }
    }
    pub fn ids(&self) -> Vec<String> {
        let mut v: Vec<String> = self.bundles.keys().chain(self.objs.keys()).cloned().collect();
        v.sort();
        v.dedup();
        v
    }
    /// transitive dependencies of a bundle, or the missing one
    pub fn closure(&self, id: &str) -> Result<BTreeSet<String>, String> {
        let mut out = BTreeSet::new();
        let mut todo: Vec<String> = self.deps[id].iter().cloned().collect();
        while let Some(x) = todo.pop() {
            if out.insert(x.clone()) {
                todo.extend(self.deps.get(&x).ok_or(x)?.iter().cloned());
            }
        }
        Ok(out)
    }
    /// bundles whose name or description contains the word, ignoring case
    pub fn search(&self, w: &str) -> BTreeSet<String> {
        let w = w.to_lowercase();
        self.meta.iter().filter(|(_, (n, d))| n.to_lowercase().contains(&w) || d.to_lowercase().contains(&w)).map(|((s, _), _)| s.clone()).collect()
    }
}
/// the identifier of the object `key` in an encoded bundle
fn object_of(enc: &str, key: &str) -> Option<String> {
    let v: serde_json::Value = serde_json::from_str(enc).unwrap();
    if key.is_empty() {
        return Some(v["capture_base"]["d"].as_str().unwrap().into());
    }
    for (_, o) in v["overlays"].as_object().unwrap() {
        let all = o.as_array().cloned().unwrap_or(vec![o.clone()]);
        for x in all {
            if overlay_key(&x) == key {
                return Some(x["d"].as_str().unwrap().into());
            }
        }
    }
    None
}
