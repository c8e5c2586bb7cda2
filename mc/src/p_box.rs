//! P30: bundles assembled through the programming interface (OCABox and Attribute setters).
use crate::alpha::*;
use crate::lang::*;
use crate::rt::*;
use crate::sys::*;
use crate::p_core::text_diff;
use crate::Entry;
use oca_ast_semantics::ast::NestedAttrType;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::encoding::Encoding;
use oca_bundle_semantics::state::entries::EntriesElement;
use oca_bundle_semantics::state::entry_codes::EntryCodes;
use oca_bundle_semantics::state::oca::overlay::{self, attribute_framing::*, cardinality::*, character_encoding::*, conditional::*, conformance::*, entry::*, entry_code::EntryCodes as SetEntryCodes, format::*, information::*, label::*, link::*, meta::*, unit::*};
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// One call of the interface. What is set is described by the command that says the same.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Call {
    /// add_attribute with an attribute that has this type and these properties
    Add(String, Option<Ty>, Vec<Cmd>),
    /// a setter of the attribute in the box
    Set(String, Cmd),
    Remove(String),
    Class(String),
    NoClass,
    Meta(String, String, String),
    Mapping(KV),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Want {
    st: MState,
    mapping: Option<BTreeMap<String, String>>,
}

fn lang_of(l: &str) -> isolang::Language {
    isolang::Language::from_639_3(lang3(l).unwrap()).unwrap()
}
fn ty_of(t: &Ty) -> NestedAttrType {
    serde_json::from_value(t.json()).unwrap()
}
/// Meta of a frame belongs to the frame: the same for every attribute it is set for.
fn frame_meta(id: &str) -> KV {
    kv(&[("label", &format!("label of {id}")), ("version", "1")])
}
fn set(a: &mut Attribute, c: &Cmd) {
    match c {
        Cmd::Label(l, kv) => a.set_label(lang_of(l), kv[0].1.clone()),
        Cmd::Info(l, kv) => a.set_information(lang_of(l), kv[0].1.clone()),
        Cmd::Over(K::Enc, kv) => a.set_encoding(serde_json::from_value::<Encoding>(json!(kv[0].1)).unwrap()),
        Cmd::Over(K::Fmt, kv) => a.set_format(kv[0].1.clone()),
        Cmd::Over(K::Conf, kv) => a.set_conformance(kv[0].1.clone()),
        Cmd::Over(K::Card, kv) => a.set_cardinality(kv[0].1.clone()),
        Cmd::Over(K::Unit, kv) => a.set_unit(kv[0].1.clone()),
        Cmd::Over(K::Cond, kv) => a.set_condition(kv[0].1.clone()),
        Cmd::Ecode(v) => SetEntryCodes::set_entry_codes(
            a,
            match &v[0].1 {
                Ec::Sai(s) => EntryCodes::Sai(s.clone()),
                Ec::List(l) => EntryCodes::Array(l.clone()),
                Ec::Groups(g) => EntryCodes::Object(g.iter().cloned().collect()),
            },
        ),
        Cmd::Entry(l, v) => a.set_entry(
            lang_of(l),
            match &v[0].1 {
                En::Sai(s) => EntriesElement::Sai(s.clone()),
                En::Map(m) => EntriesElement::Object(m.iter().cloned().collect()),
            },
        ),
        Cmd::Link(t, kv) => a.set_link(t.target().unwrap().to_string(), kv[0].1.clone()),
        Cmd::Framing(id, md, at) => {
            let meta: HashMap<String, String> = md.iter().map(|(k, v)| (format!("frame_{k}"), v.clone())).collect();
            let f = at[0].1.iter().map(|(k, p, j)| {
                (k.clone(), FramingScope { predicate_id: p.clone(), framing_justification: j.clone(), frame_meta: meta.clone() })
            });
            a.set_framing(id.clone(), f.collect())
        }
        Cmd::Flag(_) => a.set_flagged(),
        c => unreachable!("{c:?}"),
    }
}
/// The call on the box and on the state the reference model keeps; calls that mean nothing are left out.
fn call(b: &mut OCABox, w: &mut Want, c: &Call) {
    let env = Env::default();
    match c {
        Call::Add(n, ty, parts) => {
            if ty.is_none() && !w.st.attrs.contains_key(n) {
                return; // an attribute without a type is not one
            }
            let mut a = Attribute::new(n.clone());
            if let Some(t) = ty {
                a.set_attribute_type(ty_of(t));
                w.st.attrs.entry(n.clone()).or_default().ty = Some(t.clone());
            }
            for p in parts {
                set(&mut a, p);
                w.st.apply(p, &env).unwrap();
            }
            b.add_attribute(a);
        }
        Call::Set(n, p) => {
            if let Some(a) = b.attributes.get_mut(n) {
                set(a, p);
            }
            if w.st.attrs.contains_key(n) {
                w.st.apply(p, &env).unwrap();
            }
        }
        Call::Remove(n) => {
            b.remove_attribute(n);
            if w.st.attrs.contains_key(n) {
                w.st.apply(&rem(&[n]), &env).unwrap();
            }
        }
        Call::Class(s) => {
            b.add_classification(s.clone());
            w.st.class = Some(s.clone());
        }
        Call::NoClass => {
            b.remove_classification();
            w.st.class = None;
        }
        Call::Meta(l, k, v) => {
            b.add_meta(lang_of(l), k.clone(), v.clone());
            w.st.apply(&meta(l, &[(k, v)]), &env).unwrap();
        }
        Call::Mapping(m) => {
            if w.mapping.is_some() {
                return; // the encoded bundle has room for one
            }
            let m: BTreeMap<String, String> = m.iter().cloned().collect();
            let mut o = *overlay::AttributeMapping::new();
            o.attribute_mapping = m.clone();
            b.add_attribute_mapping(o);
            w.mapping = Some(m);
        }
    }
}
fn want_json(w: &Want) -> serde_json::Value {
    let mut v = w.st.json();
    if let Some(m) = &w.mapping {
        v["overlays"]["attribute_mapping"] = json!({"type": "spec/overlays/mapping/1.1", "attribute_mapping": m});
    }
    canon(&v)
}

pub static P30: Entry = (
    "P30",
    "model_checking",
    "all sequences of interface calls over the alphabets up to the stated depth; a trace is non-trivial when the content differs from that without its last call",
    &["the reference model in lang.rs says what a call means, by the command that says the same", "an attribute has a type, a frame one set of metadata, and there is at most one mapping"],
    p30,
    |_, c| p30_check(&parse_case(c), &mut Obs::default()),
);
fn p30_check(calls: &Vec<Call>, o: &mut Obs) -> Res {
    o.traces += 1;
    o.transitions += calls.len() as u64;
    let mut bx = OCABox::new();
    let mut w = Want::default();
    let mut last = Want::default();
    for c in calls {
        last = w.clone();
        call(&mut bx, &mut w, c);
        o.state(&w);
    }
    if last != w {
        o.nontrivial(calls);
    }
    let shown = || calls.iter().map(|c| format!("{c:?}\n")).collect::<String>();
    let b = bx.generate_bundle();
    let (want, got) = (want_json(&w), content(&b));
    if want != got {
        return fail("content", format!("{}\n{}", diff(&want, &got), shown()));
    }
    for (n, a) in &bx.attributes {
        if bx.get_attribute_by_name(n).map(|x| &x.name) != Some(&a.name) {
            return fail("by name", format!("attribute {n} is not found by its name\n{}", shown()));
        }
    }
    if said_of(&bx.generate_bundle()) != said_of(&b) || said_of(&bx.clone().generate_bundle()) != said_of(&b) {
        return fail("again", format!("generating again gives another identifier\n{}", shown()));
    }
    o.evals += 3;
    // through its encoded form and back into a box
    let e = encs(&b);
    let l: OCABundle = serde_json::from_str(&e).map_err(|x| Fail { key: "load".into(), msg: format!("{x}\n{}", shown()) })?;
    if encs(&l) != e {
        return fail("encode", format!("loading and encoding changes the bundle: {}\n{}", text_diff(&e, &encs(&l)), shown()));
    }
    for (what, x) in [("the bundle", b.clone()), ("the loaded bundle", l)] {
        let again = OCABox::from(x).generate_bundle();
        if said_of(&again) != said_of(&b) {
            return fail("box of bundle", format!("a box made of {what} generates another bundle: {}\n{}", diff(&got, &content(&again)), shown()));
        }
    }
    Ok(())
}
/// Everything that can be set on attribute `x`: what a command for one attribute says.
fn parts(x: &str, y: &str) -> Vec<Cmd> {
    let mut v = vec![];
    for l in ["en", "fil", "haw"] {
        v.push(label(l, &[(x, &format!("label {l}"))]));
        v.push(info(l, &[(x, &format!("info {l}"))]));
        v.push(entry(l, x, &[("o2", l), ("o1", "one")]));
    }
    v.push(label("en", &[(x, "another label")]));
    v.push(info("en", &[(x, "another info")]));
    v.push(entry("en", x, &[("o3", "three")]));
    v.push(entry_sai("en", x, SAID1));
    for (k, a, b) in [(K::Enc, "utf-8", "base64"), (K::Fmt, "image/png", "DD.MM"), (K::Conf, "M", "O"), (K::Card, "1-2", "3"), (K::Unit, "kg", "m/s")] {
        v.push(over(k, &[(x, a)]));
        v.push(over(k, &[(x, b)]));
    }
    v.push(over(K::Cond, &[(x, &format!("${{{y}}} > 0"))]));
    v.push(over(K::Cond, &[(x, &format!("${{{y}}} > 1 and ${{c}} < ${{{y}}}"))]));
    v.push(elist(x, &["o2", "o1"]));
    v.push(esai(x, SAID1));
    v.push(egroups(x, &[("g2", &["c1", "c0"]), ("g1", &["c2"])]));
    for (t, n) in [(SAID1, "t1"), (SAID1, "t2"), (SAID2, "u")] {
        v.push(link(t, &[(x, n)]));
    }
    for (id, k, p) in [("f1", "u1", "p1"), ("f1", "u1", "p2"), ("f1", "u2", "p1"), ("F1", "u1", "p1")] {
        let md = frame_meta(id);
        v.push(Cmd::Framing(id.into(), md, vec![(x.into(), vec![(k.into(), p.into(), "j".into())])]));
    }
    v.push(flag(&[x]));
    v
}
fn p30(ctx: &Ctx) {
    let add = |n: &str, t: Ty| Call::Add(n.into(), Some(t), vec![]);
    let fixed = || {
        vec![
            add("a", b("Numeric")),
            add("a", arr(Ty::Refs(SAID1.into()))),
            Call::Remove("a".into()),
            Call::Remove("b".into()),
            Call::Class("C".into()),
            Call::Class("D".into()),
            Call::NoClass,
            Call::Meta("en".into(), "name".into(), "N".into()),
            Call::Meta("en".into(), "name".into(), "M".into()),
            Call::Meta("fil".into(), "name".into(), "F".into()),
            Call::Meta("haw".into(), "description".into(), "H".into()),
            Call::Mapping(kv(&[("a", "x"), ("b", "y")])),
        ]
    };
    let start = vec![add("a", b("Text")), add("b", b("Numeric")), add("A", b("Boolean"))];
    let mut all = fixed();
    for p in parts("a", "b") {
        all.push(Call::Set("a".into(), p.clone()));
        all.push(Call::Add("a".into(), None, vec![p.clone()]));
    }
    for p in parts("b", "a").into_iter().step_by(2) {
        all.push(Call::Set("b".into(), p));
    }
    for p in parts("A", "b").into_iter().step_by(3) {
        all.push(Call::Add("A".into(), None, vec![p]));
    }
    let mut cases = vec![];
    for s in sequences(&all, 2) {
        let mut v = start.clone();
        v.extend(s);
        cases.push(v);
    }
    ctx.run("calls", &cases, p30_check);
    // no attribute to begin with, properties set before the attribute is added, re-adding after removal
    let mut few = fixed();
    for p in reps().iter().filter(|c| !matches!(c, Cmd::Meta(..))) {
        few.push(Call::Add("a".into(), Some(b("Text")), vec![p.clone()]));
    }
    let cases = sequences(&few, if ctx.quick() { 3 } else { 4 });
    ctx.run("empty", &cases, p30_check);
    // one attribute with two properties merged into one that has two others
    let ps = parts("a", "b");
    let ps: Vec<Cmd> = if ctx.quick() { ps.into_iter().step_by(2).collect() } else { ps };
    let mut cases = vec![];
    for i in 0..ps.len() {
        for j in i + 1..ps.len() {
            for k in 0..ps.len() {
                let merged = vec![ps[j].clone(), ps[k].clone()];
                cases.push(vec![
                    add("b", b("Numeric")),
                    Call::Add("a".into(), Some(b("Text")), vec![ps[i].clone(), ps[j].clone()]),
                    Call::Add("a".into(), None, merged),
                ]);
            }
        }
    }
    ctx.run("merged", &cases, p30_check);
    // many attributes and calls
    let mut cases = vec![];
    for n in if ctx.quick() { vec![12usize, 33, 65, 101] } else { vec![9, 10, 11, 12, 16, 17, 33, 65, 101, 129, 257] } {
        let nm = |i: usize| format!("n{}", (i * 7 + 3) % n);
        let adds: Vec<Call> = (0..n).map(|i| add(&nm(i), b("Text"))).collect();
        let set = |i: usize| Call::Set(nm(i), label(crate::alpha::LANGS[i % 33], &[(&nm(i), "L")]));
        cases.push(adds.clone());
        cases.push(adds.iter().cloned().chain((0..n).map(set)).chain([Call::Remove(nm(0)), Call::Remove(nm(n - 1))]).collect());
        cases.push(adds.iter().cloned().chain((0..n).map(|i| Call::Add(nm(i), None, vec![flag(&[&nm(i)]), over(K::Unit, &[(&nm(i), "u")])]))).collect());
        // one attribute, many values
        let one = vec![add("a", b("Text"))];
        cases.push(one.iter().cloned().chain((0..n).map(|i| Call::Set("a".into(), label(crate::alpha::LANGS[i % 40], &[("a", &format!("L{i}"))])))).collect());
        cases.push(one.iter().cloned().chain((0..n).map(|i| Call::Meta(["en", "pl"][i % 2].into(), format!("k{}", i % 37), format!("v{i}")))).collect());
        cases.push(one.iter().cloned().chain([Call::Set("a".into(), elist("a", &(0..n).map(nm).collect::<Vec<_>>().iter().map(|x| x.as_str()).collect::<Vec<_>>())), Call::Mapping((0..n).map(|i| (nm(i), format!("m{i}"))).collect())]).collect());
    }
    ctx.run("many", &cases, p30_check);
    if !ctx.quick() {
        let mut cases = vec![];
        for s in sequences(&all.into_iter().step_by(2).collect::<Vec<_>>(), 3) {
            let mut v = start.clone();
            v.extend(s);
            cases.push(v);
        }
        ctx.run("deeper", &cases, p30_check);
    }
}
