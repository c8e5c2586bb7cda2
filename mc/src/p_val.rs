//! P20, P21: what the validator and the evaluation of conditions decide.
use crate::alpha;
use crate::lang::*;
use crate::rt::*;
use crate::sys::*;
use crate::Entry;
use isolang::Language;
use oca_bundle_semantics::state::attribute::Attribute;
use oca_bundle_semantics::state::oca::overlay::conditional::Conditionals;
use oca_bundle_semantics::state::oca::{OCABox, OCABundle};
use oca_bundle_semantics::state::validator::Validator;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;

// ------------------------------------------------------------------ P20
pub static P20: Entry = (
    "P20",
    "model_checking",
    "every pattern of translated fields (kind x field x language) within the bounds, validated with every set of enforced languages, as built and as loaded back, against a direct statement of completeness",
    &[],
    p20,
    |st, c| if st == "wide" { p20_wide(&parse_case(c), &mut Obs::default()) } else { p20_check(&parse_case(c), &mut Obs::default()) },
);
const KINDS: [&str; 4] = ["meta", "entry", "information", "label"];
const LANGS: [&str; 3] = ["en", "pl", "de"];
/// bit i*3+l of mask k: item i of kind k is translated in language l
#[derive(Serialize, Deserialize, Clone)]
struct Pattern {
    masks: [u8; 4],
    /// 0: one command per language; 1: one command per field, languages reversed;
    /// 2: with a further attribute that is translated and then removed again
    how: u8,
}
impl Pattern {
    fn has(&self, k: usize, i: usize, l: usize) -> bool {
        self.masks[k] >> (i * 3 + l) & 1 == 1
    }
    fn prog(&self) -> Prog {
        let items = |k: usize| if k == 0 { ["name", "description"] } else { ["colour", "weight"] };
        let mut v = vec![Cmd::AddAttr(vec![("colour".into(), b("Text")), ("weight".into(), b("Numeric")), ("plain".into(), b("Text"))])];
        if self.how == 2 {
            v.push(attr("gone", b("Text")));
            v.push(label("en", &[("gone", "G")]));
            v.push(info("fr", &[("gone", "G")]));
            v.push(entry("de", "gone", &[("o", "G")]));
        }
        let cmd = |k: usize, l: &str, its: &[&str]| -> Cmd {
            let kvs: Vec<(&str, &str)> = its.iter().map(|i| (*i, "T")).collect();
            match k {
                0 => meta(l, &kvs),
                1 => Cmd::Entry(l.into(), its.iter().map(|i| (i.to_string(), En::Map(kv(&[("o1", "one")])))).collect()),
                2 => info(l, &kvs),
                _ => label(l, &kvs),
            }
        };
        for k in 0..4 {
            if self.how == 1 {
                for i in 0..2 {
                    for l in (0..3).rev() {
                        if self.has(k, i, l) {
                            v.push(cmd(k, LANGS[l], &[items(k)[i]]));
                        }
                    }
                }
            } else {
                for l in 0..3 {
                    let its: Vec<&str> = (0..2).filter(|i| self.has(k, *i, l)).map(|i| items(k)[i]).collect();
                    if !its.is_empty() {
                        v.push(cmd(k, LANGS[l], &its));
                    }
                }
            }
        }
        if self.how == 2 {
            v.push(rem(&["gone"]));
        }
        Prog::new(v)
    }
    /// (kind, what is wrong, language, field)
    fn gaps(&self, enforced: &BTreeSet<&str>) -> Vec<(usize, &'static str, String, Option<&'static str>)> {
        let mut out = vec![];
        if enforced.is_empty() {
            return out;
        }
        let l3 = |l: &str| lang3(l).unwrap().to_string();
        for k in 0..4 {
            let items = if k == 0 { ["name", "description"] } else { ["colour", "weight"] };
            let present: BTreeSet<&str> = (0..3).filter(|l| (0..2).any(|i| self.has(k, i, *l))).map(|l| LANGS[l]).collect();
            if present.is_empty() {
                continue;
            }
            for l in enforced.difference(&present) {
                out.push((k, "missing", l3(l), None));
            }
            for l in present.difference(enforced) {
                out.push((k, "not enforced", l3(l), None));
            }
            for i in 0..2 {
                if (0..3).any(|l| self.has(k, i, l)) {
                    for l in 0..3 {
                        if present.contains(LANGS[l]) && !self.has(k, i, l) {
                            out.push((k, "missing", l3(LANGS[l]), Some(items[i])));
                        }
                    }
                }
            }
        }
        out
    }
}
fn languages(l: &[&str]) -> Vec<Language> {
    l.iter().map(|x| Language::from_639_1(x).unwrap()).collect()
}
fn p20_check(p: &Pattern, o: &mut Obs) -> Res {
    let prog = p.prog();
    let bd = build_free(prog.text()).map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}\n{}", prog.text()) })?;
    o.traces += 1;
    let e = encs(&bd);
    o.state(&e);
    let back = load(&e).map_err(|e| Fail { key: "load".into(), msg: e })?;
    let mut turned = back.clone();
    turned.overlays.reverse();
    turned.fill_said();
    let all = ["en", "pl", "de", "fr"];
    let mut calls: Vec<Vec<Vec<&str>>> = vec![];
    for m in 0..8u8 {
        let set: Vec<&str> = (0..3).filter(|i| m >> i & 1 == 1).map(|i| LANGS[i]).collect();
        calls.push(vec![set.clone()]);
        if m == 7 || m == 3 {
            // the same set given in pieces, with repetitions, in another order
            calls.push(set.iter().rev().map(|l| vec![*l, *l]).collect());
            calls.push(vec![vec![], set.clone(), set.clone()]);
        }
    }
    calls.push(vec![vec!["fr"]]);
    calls.push(vec![all.to_vec()]);
    calls.push(vec![]);
    for c in calls {
        let set: BTreeSet<&str> = c.iter().flatten().cloned().collect();
        let gaps = p.gaps(&set);
        for (how, x) in [("built", &bd), ("loaded", &back), ("loaded with overlays reversed", &turned)] {
            o.transitions += 1;
            o.evals += 1;
            if !gaps.is_empty() {
                o.nontrivial(&(p.masks, &c));
            }
            let mut v = Validator::new();
            for l in &c {
                v = v.enforce_translations(languages(l));
            }
            let errs: Vec<String> = match v.validate(x) {
                Ok(()) => vec![],
                Err(e) => e.iter().map(|x| x.to_string()).collect(),
            };
            let ctx = || format!("enforcing {c:?} on the {how} bundle of\n{}expected gaps {gaps:?}\ngot {errs:?}", prog.text());
            if gaps.is_empty() != errs.is_empty() {
                return fail("verdict", ctx());
            }
            for (k, what, l, item) in &gaps {
                let hit = errs.iter().any(|e| {
                    let e = e.to_lowercase();
                    e.contains(KINDS[*k]) && e.contains(l.as_str()) && e.contains(what) && item.is_none_or(|i| e.contains(i))
                        && (item.is_some() || !["name'", "description'", "colour'", "weight'"].iter().any(|i| e.contains(i)))
                });
                if !hit {
                    return fail("unreported", format!("{} {what} {l} {item:?} is not reported: {}", KINDS[*k], ctx()));
                }
            }
            for k in 0..4 {
                if !gaps.iter().any(|g| g.0 == k) && errs.iter().any(|e| e.to_lowercase().starts_with(KINDS[k])) {
                    return fail("spurious", format!("{} is complete: {}", KINDS[k], ctx()));
                }
            }
        }
    }
    Ok(())
}
/// `items` fields or attributes in `langs` languages, except for one in one language
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Wide20 {
    kind: usize,
    items: usize,
    langs: usize,
    gap: Option<(usize, usize)>,
}
fn p20_wide(c: &Wide20, o: &mut Obs) -> Res {
    let all = crate::alpha::LANGS;
    let name = |i: usize| format!("field{i}end");
    let mut v = vec![Cmd::AddAttr((0..c.items).map(|i| (name(i), b("Text"))).collect())];
    for (l, lang) in all.iter().enumerate().take(c.langs).rev() {
        let its = (0..c.items).filter(|i| c.gap != Some((*i, l)));
        let kvs: KV = its.clone().map(|i| (name(i), "T".into())).collect();
        if kvs.is_empty() {
            continue;
        }
        v.push(match c.kind {
            0 => Cmd::Meta(lang.to_string(), kvs),
            1 => Cmd::Entry(lang.to_string(), its.map(|i| (name(i), En::Map(kv(&[("o1", "one")])))).collect()),
            2 => Cmd::Info(lang.to_string(), kvs),
            _ => Cmd::Label(lang.to_string(), kvs),
        });
    }
    let prog = Prog::new(v);
    let bd = build_free(prog.text()).map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}\n{}", prog.text()) })?;
    o.traces += 1;
    o.nontrivial(&format!("{c:?}"));
    let back = load(&encs(&bd)).map_err(|e| Fail { key: "load".into(), msg: e })?;
    // exactly the languages, one less, one more
    let exact: Vec<&str> = all[..c.langs].to_vec();
    let mut sets = vec![exact.clone(), all[..=c.langs].to_vec()];
    for skip in [0, c.langs / 2, c.langs - 1] {
        sets.push(exact.iter().enumerate().filter(|(i, _)| *i != skip).map(|x| *x.1).collect());
    }
    for set in sets {
        if set.is_empty() {
            continue;
        }
        // (language, field)
        let mut gaps: Vec<(String, Option<String>)> = vec![];
        let l3 = |l: &str| lang3(l).unwrap().to_string();
        gaps.extend(set.iter().filter(|l| !exact.contains(l)).chain(exact.iter().filter(|l| !set.contains(l))).map(|l| (l3(l), None)));
        if let Some((i, l)) = c.gap {
            gaps.push((l3(all[l]), Some(name(i))));
        }
        for x in [&bd, &back] {
            o.transitions += 1;
            o.evals += 1;
            let errs: Vec<String> = match Validator::new().enforce_translations(languages(&set)).validate(x) {
                Ok(()) => vec![],
                Err(e) => e.iter().map(|x| x.to_string()).collect(),
            };
            let ctx = || format!("{c:?}, enforcing {set:?}: expected gaps {gaps:?}\ngot {errs:?}");
            if gaps.is_empty() != errs.is_empty() {
                return fail("verdict", ctx());
            }
            for (l, i) in &gaps {
                if !errs.iter().any(|e| e.to_lowercase().contains(KINDS[c.kind]) && e.to_lowercase().contains(l.as_str()) && i.as_ref().is_none_or(|i| e.contains(i.as_str()))) {
                    return fail("unreported", ctx());
                }
            }
        }
    }
    Ok(())
}
fn p20(ctx: &Ctx) {
    let mut wide = vec![];
    for kind in 0..4 {
        for (items, langs) in [(1, 4), (1, 8), (1, 16), (1, 33), (3, 9), (4, 12), (8, 3), (9, 4), (16, 2), (17, 2), (33, 3), (65, 2), (101, 3), (129, 2), (257, 2), (10, 34)] {
            let mut gaps = vec![None];
            if items > 1 {
                for i in [0, 1, items / 2, items - 2, items - 1] {
                    for l in [0, 1, langs / 2, langs - 1] {
                        gaps.push(Some((i, l)));
                    }
                }
                gaps.sort();
                gaps.dedup();
            }
            wide.extend(gaps.into_iter().map(|gap| Wide20 { kind, items, langs, gap }));
        }
    }
    ctx.run("wide", &wide, p20_wide);
    let mut v = vec![];
    let pt = |m: [u8; 4], how: u8| Pattern { masks: m, how };
    for k in 0..4 {
        for m in 0..64 {
            for how in 0..3 {
                let mut x = [0; 4];
                x[k] = m;
                v.push(pt(x, how));
            }
        }
    }
    // two languages only: bits 0,1,3,4
    let two: Vec<u8> = (0..16u8).map(|x| (x & 3) | (x >> 2 & 3) << 3).collect();
    for k in 0..4 {
        for k2 in k + 1..4 {
            let (s1, s2): (Vec<u8>, Vec<u8>) = if ctx.quick() { (two.clone(), two.clone()) } else { ((0..64).collect(), (0..64).collect()) };
            for m in &s1 {
                for m2 in &s2 {
                    let mut x = [0; 4];
                    x[k] = *m;
                    x[k2] = *m2;
                    v.push(pt(x, 0));
                }
            }
        }
    }
    // all four kinds
    let small: Vec<u8> = if ctx.quick() { vec![0, 1, 3, 9, 27] } else { vec![0, 1, 2, 3, 8, 9, 11, 25, 26, 27] };
    for a in &small {
        for b in &small {
            for c in &small {
                for d in &small {
                    v.push(pt([*a, *b, *c, *d], 0));
                }
            }
        }
    }
    ctx.run("patterns", &v, p20_check);
}

// ------------------------------------------------------------------ P21
pub static P21: Entry = (
    "P21",
    "model_checking",
    "every expression of the grammar within the bounds x every assignment of the value domain to the attributes it names, against an independent evaluator; restoration and the validator's verdict for every typed expression; malformed and hostile expressions",
    &["expressions are comparisons of names and constants joined by and/or/not; the interpreter is third-party code"],
    p21,
    p21_replay,
);
#[derive(Clone, Debug, PartialEq)]
enum V {
    N(f64),
    S(String),
    B(bool),
}
fn val(t: &str) -> V {
    match t {
        "true" => V::B(true),
        "false" => V::B(false),
        t if t.starts_with('\'') => V::S(t.trim_matches('\'').into()),
        t => V::N(t.parse().unwrap()),
    }
}
/// the value as a client would pass it
fn shown(t: &str) -> Box<dyn Display> {
    match val(t) {
        V::B(b) => Box::new(b),
        V::N(n) if t.contains('.') => Box::new(n),
        V::N(n) => Box::new(n as i32),
        V::S(_) => Box::new(t.to_string()),
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum X {
    L(String),
    D(usize),
    C(String, Box<X>, Box<X>),
    And(Box<X>, Box<X>),
    Or(Box<X>, Box<X>),
    Not(Box<X>),
}
impl X {
    fn prec(&self) -> u8 {
        match self {
            X::Or(..) => 1,
            X::And(..) => 2,
            X::C(..) => 3,
            X::Not(_) => 4,
            _ => 5,
        }
    }
    fn text(&self, names: &[String]) -> String {
        let sub = |x: &X, min: u8| if x.prec() < min { format!("({})", x.text(names)) } else { x.text(names) };
        match self {
            X::L(s) => s.clone(),
            X::D(i) => format!("${{{}}}", names[*i]),
            X::C(op, a, b) => format!("{} {op} {}", sub(a, 4), sub(b, 4)),
            X::And(a, b) => format!("{} and {}", sub(a, 2), sub(b, 2)),
            X::Or(a, b) => format!("{} or {}", sub(a, 1), sub(b, 1)),
            X::Not(a) => format!("not {}", sub(a, 4)),
        }
    }
    fn eval(&self, v: &[V]) -> Result<V, ()> {
        Ok(match self {
            X::L(s) => val(s),
            X::D(i) => v[*i].clone(),
            X::C(op, a, b) => {
                let (a, b) = (a.eval(v)?, b.eval(v)?);
                match op.as_str() {
                    "==" => V::B(a == b),
                    "~=" => V::B(a != b),
                    op => {
                        let c = match (&a, &b) {
                            (V::N(x), V::N(y)) => x.partial_cmp(y).ok_or(())?,
                            (V::S(x), V::S(y)) => x.as_bytes().cmp(y.as_bytes()),
                            _ => return Err(()),
                        };
                        V::B(match op {
                            "<" => c.is_lt(),
                            "<=" => c.is_le(),
                            ">" => c.is_gt(),
                            _ => c.is_ge(),
                        })
                    }
                }
            }
            X::And(a, b) => match a.eval(v)? {
                V::B(false) => V::B(false),
                _ => b.eval(v)?,
            },
            X::Or(a, b) => match a.eval(v)? {
                V::B(false) => b.eval(v)?,
                x => x,
            },
            X::Not(a) => V::B(a.eval(v)? == V::B(false)),
        })
    }
    fn names(&self, out: &mut Vec<usize>) {
        match self {
            X::L(_) => {}
            X::D(i) => {
                if !out.contains(i) {
                    out.push(*i)
                }
            }
            X::C(_, a, b) | X::And(a, b) | X::Or(a, b) => {
                a.names(out);
                b.names(out);
            }
            X::Not(a) => a.names(out),
        }
    }
}
fn d(i: usize) -> X {
    X::D(i)
}
fn l(s: &str) -> X {
    X::L(s.into())
}
fn c(a: X, op: &str, b: X) -> X {
    X::C(op.into(), Box::new(a), Box::new(b))
}
fn atoms() -> Vec<X> {
    vec![
        c(d(0), ">", l("18")), c(d(0), "<", l("30")), c(d(0), ">=", d(1)), c(d(0), "<=", l("18")), c(d(0), "==", d(1)), c(d(1), "~=", d(0)),
        c(d(0), "==", l("'a'")), c(d(0), "~=", l("'a'")), c(d(0), "<", l("'b'")), c(d(0), "==", l("true")), d(0), c(l("18"), "<", d(0)),
        c(d(0), "==", d(0)), c(d(1), ">", d(2)), l("true"), l("false"), c(d(2), "==", l("1.5")), d(1), c(d(1), ">=", l("0")), c(d(0), "<", d(0)),
    ]
}
/// names of the attributes, and the value domain
#[derive(Serialize, Deserialize, Clone)]
struct Eval {
    x: X,
    names: Vec<String>,
    /// the whole domain for every name
    full: bool,
}
fn attribute(name: &str, cond: &str) -> Attribute {
    let mut a = Attribute::new(name.into());
    a.set_condition(cond.into());
    a
}
type Vals = BTreeMap<String, Box<dyn Display + 'static>>;
fn result(a: &Attribute, v: Vals) -> Result<bool, Vec<String>> {
    a.check_condition(v).map_err(|e| e.iter().map(|e| format!("{e:?}")).collect())
}
const DOMAIN: [&str; 8] = ["0", "18", "30", "'a'", "'b'", "true", "false", "1.5"];
/// every assignment of a value, or none, to `n` names
fn assignments(dom: &[&str], n: usize) -> Vec<Vec<Option<String>>> {
    let mut out: Vec<Vec<Option<String>>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for o in &out {
            for v in dom.iter().map(|v| Some(v.to_string())).chain([None]) {
                let mut o = o.clone();
                o.push(v);
                nx.push(o);
            }
        }
        out = nx;
    }
    out
}
fn compare(a: &Attribute, x: &X, names: &[String], asg: &[Option<String>], o: &mut Obs) -> Res {
    let mut used = vec![];
    x.names(&mut used);
    let mut m: Vals = BTreeMap::new();
    for (i, v) in asg.iter().enumerate() {
        if let Some(v) = v {
            m.insert(names[i].clone(), shown(v));
        }
    }
    m.insert("unrelated".into(), Box::new("'${0}'"));
    let want = if used.iter().any(|i| asg[*i].is_none()) {
        Err(())
    } else {
        let vs: Vec<V> = asg.iter().map(|v| val(v.as_deref().unwrap_or("0"))).collect();
        match x.eval(&vs) {
            Ok(V::B(b)) => Ok(b),
            _ => Err(()),
        }
    };
    o.transitions += 1;
    o.evals += 1;
    let got = result(a, m);
    if got.as_ref().map_err(|_| ()).ok() != want.as_ref().ok() {
        return fail("value", format!("{} with {names:?} = {asg:?}: expected {want:?} got {got:?}", x.text(names)));
    }
    if let (Err(e), true) = (&got, used.iter().any(|i| asg[*i].is_none())) {
        for i in used.iter().filter(|i| asg[**i].is_none()) {
            if !e.iter().any(|e| e.contains(&format!("'{}'", names[*i]))) {
                return fail("missing", format!("{} with {names:?} = {asg:?}: {} is missing and not reported: {e:?}", x.text(names), names[*i]));
            }
        }
    }
    Ok(())
}
fn p21_eval(e: &Eval, o: &mut Obs) -> Res {
    let text = e.x.text(&e.names);
    let a = attribute("target", &text);
    o.state(&text);
    o.nontrivial(&text);
    o.traces += 1;
    let (t, deps) = split_condition(&text);
    if a.condition.as_ref() != Some(&t) || a.dependencies.as_ref() != Some(&deps) {
        return fail("stored", format!("{text}: stored as {:?} {:?}", a.condition, a.dependencies));
    }
    let mut used = vec![];
    e.x.names(&mut used);
    let n = used.iter().max().map(|m| m + 1).unwrap_or(0);
    let dom: &[&str] = match (e.full, n) {
        (true, _) | (_, 0 | 1) => &DOMAIN,
        (_, 2) => &["18", "30", "'a'", "true", "false"],
        _ => &["18", "'a'", "1.5"],
    };
    for asg in assignments(dom, n) {
        // names the expression does not use only take one value
        if (0..n).any(|i| !used.contains(&i) && asg[i].as_deref() != Some("0")) {
            continue;
        }
        compare(&a, &e.x, &e.names, &asg, o)?;
    }
    // an attribute whose condition names itself
    if !used.is_empty() {
        let own = attribute(&e.names[used[0]], &text);
        let m: Vals = e.names.iter().map(|n| (n.clone(), shown("18"))).collect();
        if let Ok(r) = result(&own, m) {
            return fail("self", format!("{text} on attribute {}: evaluates to {r}", own.name));
        }
    }
    Ok(())
}
/// `n` names, in the given order of use
#[derive(Serialize, Deserialize, Clone)]
struct Wide {
    names: Vec<String>,
    /// indexes into names, in order of use
    uses: Vec<usize>,
    full: bool,
}
fn p21_wide(w: &Wide, o: &mut Obs) -> Res {
    let eq = |i: usize| c(d(i), "==", l(&i.to_string()));
    let conj = w.uses.iter().map(|i| eq(*i)).reduce(|a, b| X::And(Box::new(a), Box::new(b))).unwrap();
    let disj = w.uses.iter().map(|i| X::Not(Box::new(eq(*i)))).reduce(|a, b| X::Or(Box::new(a), Box::new(b))).unwrap();
    for x in [conj, disj] {
        let text = x.text(&w.names);
        let a = attribute("target", &text);
        o.traces += 1;
        o.state(&text);
        o.nontrivial(&text);
        let right: Vec<Option<String>> = (0..w.names.len()).map(|i| Some(i.to_string())).collect();
        compare(&a, &x, &w.names, &right, o)?;
        for i in 0..w.names.len() {
            for v in [None, Some("99".to_string()), Some("'x'".into())] {
                let mut r = right.clone();
                r[i] = v;
                compare(&a, &x, &w.names, &r, o)?;
            }
            for j in (0..i).filter(|j| w.full || *j == 0 || *j + 1 == i) {
                let mut r = right.clone();
                r.swap(i, j);
                compare(&a, &x, &w.names, &r, o)?;
            }
        }
    }
    Ok(())
}
/// a condition on `n` attributes of all types, which evaluates each of them: accepted by the validator and
/// restored as written; and refused if the one at `bad` is compared with a value of another type
fn p21_many(x: &(usize, bool, Option<usize>), o: &mut Obs) -> Res {
    let (n, back, bad) = x;
    let ty = ["Numeric", "Text", "Boolean", "DateTime"];
    let right = ["< 5", "< 'u'", "== true", "< '2021-01-01'"];
    let wrong = ["< 'u'", "< 5", "< 5", "< 5"];
    let mut v: Vec<Cmd> = vec![Cmd::AddAttr((0..*n).map(|i| (format!("n{i}"), b(ty[i % 4]))).chain([("target".to_string(), b("Text"))]).collect())];
    let mut part: Vec<String> = (0..*n).map(|i| format!("(${{n{i}}} {})", if *bad == Some(i) { wrong[i % 4] } else { right[i % 4] })).collect();
    if *back {
        part.reverse();
    }
    let text = part.join(" == ");
    v.push(over(K::Cond, &[("target", &text)]));
    o.traces += 1;
    let bd = build_free(Prog::new(v).text()).map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}: {text}") })?;
    o.state(&encs(&bd));
    o.nontrivial(&text);
    let loaded = load(&encs(&bd)).map_err(|e| Fail { key: "load".into(), msg: e })?;
    for (how, bd) in [("built", &bd), ("loaded", &loaded)] {
        o.transitions += 1;
        match (invalid(bd), bad) {
            (Some(e), None) => return fail("refused", format!("{how} condition {text} is boolean for every value and rejected: {e}")),
            (None, Some(_)) => return fail("accepted", format!("{how} condition {text} is boolean for no value and accepted")),
            _ => {}
        }
        let ast = bd.to_ast();
        let t = ast.commands.iter().find_map(|c| c.object_kind.overlay_content().and_then(|oc| oc.attributes.as_ref()).and_then(|a| a.get("target")).cloned());
        let shown = serde_json::to_value(&t).unwrap();
        if shown != Value::String(text.clone()) {
            return fail("restored", format!("{how}: condition {text} restored as {shown}"));
        }
    }
    Ok(())
}
/// values that look like names, indexes or replacement syntax are values
fn p21_literal(v: &(String, String), o: &mut Obs) -> Res {
    let (value, pieces) = v;
    for (k, cond) in [format!("${{x}} == {pieces} and ${{y}} == 'y'"), format!("${{y}} == 'y' and {pieces} == ${{x}}"), format!("${{x}} == ${{z}}")].into_iter().enumerate() {
        let a = attribute("target", &cond);
        let m: Vals = [("x", value.as_str()), ("y", "'y'"), ("z", value.as_str())].into_iter().map(|(k, v)| (k.to_string(), Box::new(v.to_string()) as Box<dyn Display>)).collect();
        o.transitions += 1;
        o.traces += 1;
        o.state(&(k, v));
        match result(&a, m) {
            Ok(true) => {}
            r => return fail("literal", format!("{cond} with x = z = {value}: {r:?}")),
        }
    }
    Ok(())
}
/// typed expression over a,b: Numeric, c: Text, d: Boolean, e: DateTime; t carries the condition
const TNAMES: [&str; 7] = ["a", "b", "c", "d", "e", "t", "zz"];
fn tdomain(i: usize) -> &'static [&'static str] {
    match i {
        0 | 1 => &["0", "18", "1.5"],
        2 => &["'test'", "'a'"],
        3 => &["true", "false"],
        _ => &["'2020-01-01'", "'1999-01-01'"],
    }
}
fn p21_typed(x: &X, o: &mut Obs) -> Res {
    let names: Vec<String> = TNAMES.iter().map(|s| s.to_string()).collect();
    let text = x.text(&names);
    let mut used = vec![];
    x.names(&mut used);
    let prog = Prog::new(vec![
        Cmd::AddAttr(vec![
            ("a".into(), b("Numeric")), ("b".into(), b("Numeric")), ("c".into(), b("Text")), ("d".into(), b("Boolean")), ("e".into(), b("DateTime")), ("t".into(), b("Text")),
        ]),
        label("en", &[("a", "A")]),
        over(K::Cond, &[("t", &text)]),
        over(K::Unit, &[("a", "kg")]),
    ]);
    o.traces += 1;
    let bad = used.iter().any(|i| *i >= 5);
    let bd = match build_free(prog.text()) {
        Ok(b) => b,
        // naming itself or an unknown attribute may be refused here already
        Err(_) if bad => return Ok(()),
        Err(e) => return fail("rejected", format!("{e}\n{}", prog.text())),
    };
    o.state(&encs(&bd));
    let back = load(&encs(&bd)).map_err(|e| Fail { key: "load".into(), msg: e })?;
    // every assignment of the domains: is it always boolean, or never?
    let doms: Vec<&[&str]> = (0..7).map(|i| if used.contains(&i) { tdomain(i) } else { &["0"][..] }).collect();
    let mut asgs: Vec<Vec<String>> = vec![vec![]];
    for dm in doms {
        asgs = asgs.iter().flat_map(|a| dm.iter().map(move |v| { let mut a = a.clone(); a.push(v.to_string()); a })).collect();
    }
    let boolean: Vec<bool> = asgs.iter().map(|a| matches!(x.eval(&a.iter().map(|v| val(v)).collect::<Vec<_>>()), Ok(V::B(_)))).collect();
    for (how, bd) in [("built", &bd), ("loaded", &back)] {
        o.transitions += 1;
        let v = invalid(bd);
        if bad && v.is_none() {
            return fail("accepted", format!("condition of t {text}: accepted although it names itself or an unknown attribute"));
        }
        if bad {
            continue;
        }
        if boolean.iter().all(|b| *b) {
            if let Some(e) = v {
                return fail("refused", format!("{how} condition {text} is boolean for every value and rejected: {e}"));
            }
        } else if boolean.iter().all(|b| !*b) && v.is_none() {
            return fail("accepted", format!("{how} condition {text} is boolean for no value and accepted"));
        }
        // restored
        let ast = bd.to_ast();
        let t = ast.commands.iter().find_map(|c| c.object_kind.overlay_content().and_then(|oc| oc.attributes.as_ref()).and_then(|a| a.get("t")).cloned());
        let shown = serde_json::to_value(&t).unwrap();
        if shown != Value::String(text.clone()) {
            return fail("restored", format!("{how}: condition {text} restored as {shown}"));
        }
        let bx = OCABox::from(bd.clone());
        let Some(at) = bx.attributes.get("t") else { return fail("restored", "attribute t is lost") };
        for a in &asgs {
            let a: Vec<Option<String>> = a.iter().map(|v| Some(v.clone())).collect();
            compare(at, x, &names, &a, o)?;
        }
        // and after being built upon
        let mut bx = bx;
        let again: OCABundle = bx.generate_bundle();
        if content(&again) != content(bd) {
            return fail("restored", format!("{how} {text}: {}", diff(&content(bd), &content(&again))));
        }
    }
    Ok(())
}
fn p21_malformed(cond: &String, o: &mut Obs) -> Res {
    o.traces += 1;
    o.state(cond);
    o.nontrivial(cond);
    for v in DOMAIN {
        let a = attribute("target", cond);
        let mut m: Vals = BTreeMap::new();
        for n in ["x", "y", "z", ""] {
            m.insert(n.into(), shown(v));
        }
        o.transitions += 1;
        if let Ok(r) = result(&a, m) {
            return fail("malformed", format!("{cond:?} with {v}: evaluates to {r}"));
        }
    }
    Ok(())
}
/// every prefix of a text as a condition: an answer, never a crash
fn p21_prefix(cond: &String, o: &mut Obs) -> Res {
    for i in 0..=cond.len() {
        if !cond.is_char_boundary(i) {
            continue;
        }
        for t in [cond[..i].to_string(), cond[i..].to_string()] {
            o.transitions += 1;
            o.state(&t);
            let a = attribute("target", &t);
            for v in DOMAIN {
                let m: Vals = ["x", "y", "z"].iter().map(|n| (n.to_string(), shown(v))).collect();
                let _ = result(&a, m);
            }
        }
    }
    o.traces += 1;
    Ok(())
}
/// expressions that could take the process with them run in a process of their own
#[derive(Serialize, Deserialize, Clone)]
struct Hostile {
    pre: String,
    unit: String,
    n: usize,
    post: String,
    /// what the answer must be: Some(b), or an error of any kind or answer
    want: Option<bool>,
    key: String,
}
pub fn child_cond(path: &str) {
    let cond = std::fs::read_to_string(path).unwrap();
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            guard(|| {
                let a = attribute("target", &cond);
                let m: Vals = ["x", "y"].iter().map(|n| (n.to_string(), shown("0"))).collect();
                let r = result(&a, m);
                let mut bd = build_free(Prog::new(vec![attr("x", b("Numeric")), attr("y", b("Numeric")), attr("t", b("Text")), over(K::Cond, &[("t", &cond)])]).text())?;
                bd.fill_said();
                let v = invalid(&bd);
                if r.is_ok() != v.is_none() {
                    return Err(format!("evaluates to {r:?}, validator says {v:?}"));
                }
                Ok(match r {
                    Ok(b) => format!("{b}"),
                    Err(_) => "error".into(),
                })
            })
        })
        .unwrap()
        .join();
    match r {
        Ok(Ok(Ok(s))) => {
            say(&s);
            std::process::exit(0)
        }
        Ok(x) => {
            say(&format!("{x:?}"));
            std::process::exit(3)
        }
        Err(_) => std::process::exit(4),
    }
}
fn p21_hostile(h: &Hostile, o: &mut Obs) -> Res {
    let cond = format!("{}{}{}", h.pre, h.unit.repeat(h.n), h.post);
    o.traces += 1;
    o.transitions += 2;
    o.state(&cond);
    let path = std::env::temp_dir().join(format!("mc-p21-{}-{:x}", std::process::id(), h64(&cond)));
    std::fs::write(&path, &cond).unwrap();
    let mut ch = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("child-cond").arg(&path).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().unwrap();
    let start = std::time::Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed().as_secs() > 30 {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    };
    let mut out = String::new();
    use std::io::Read;
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    let _ = std::fs::remove_file(&path);
    let what = format!("{}{:?}*{}{}", h.pre, h.unit, h.n, h.post);
    match st {
        None => fail(format!("{}hang", h.key), format!("{what}: no answer")),
        Some(s) if !s.success() => fail(format!("{}crash", h.key), format!("{what}: the process ends with {s}: {out}")),
        Some(_) => {
            if let Some(w) = h.want {
                if out.trim() != w.to_string() {
                    return fail("value", format!("{what}: expected {w} got {out}"));
                }
            }
            Ok(())
        }
    }
}
fn typed_exprs(ctx: &Ctx) -> Vec<X> {
    let at = vec![
        c(d(0), ">", l("18")), c(d(0), "==", d(1)), c(d(2), "==", l("'a'")), c(d(2), "<", l("'b'")), d(3), X::Not(Box::new(d(3))), c(d(4), "<", l("'2021-01-01'")),
        d(0), d(2), c(d(0), "<", d(2)), c(d(2), "==", d(0)), c(d(5), ">", l("0")), c(d(6), ">", l("0")), c(d(3), "==", l("true")), c(d(3), "<", l("1")), c(d(1), ">=", d(0)), l("true"), c(d(2), ">", d(4)), l("1"), d(4),
    ];
    let mut v = at.clone();
    for a in &at {
        v.push(X::Not(Box::new(a.clone())));
        for b in &at {
            v.push(X::And(Box::new(a.clone()), Box::new(b.clone())));
            v.push(X::Or(Box::new(a.clone()), Box::new(b.clone())));
            if !ctx.quick() {
                for c in &at[..11] {
                    v.push(X::And(Box::new(a.clone()), Box::new(X::Or(Box::new(b.clone()), Box::new(c.clone())))));
                    v.push(X::Or(Box::new(X::Not(Box::new(a.clone()))), Box::new(X::And(Box::new(b.clone()), Box::new(c.clone())))));
                }
            }
        }
    }
    v
}
fn p21(ctx: &Ctx) {
    let at = atoms();
    let names = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut ex: Vec<X> = at.clone();
    let bx = |x: &X| Box::new(x.clone());
    for a in &at {
        ex.push(X::Not(bx(a)));
        for b in &at {
            ex.push(X::And(bx(a), bx(b)));
            ex.push(X::Or(bx(a), bx(b)));
        }
    }
    let some: Vec<&X> = at.iter().take(if ctx.quick() { 4 } else { 13 }).collect();
    for a in &some {
        for b in &some {
            for c in &some {
                ex.push(X::Or(bx(a), Box::new(X::And(bx(b), bx(c)))));
                ex.push(X::And(Box::new(X::Or(bx(a), bx(b))), Box::new(X::Not(bx(c)))));
            }
        }
    }
    let mut cases: Vec<Eval> = ex.iter().map(|x| Eval { x: x.clone(), names: names(&["x", "y", "z"]), full: !ctx.quick() }).collect();
    for n in [["1", "0", "2"], ["a", "aa", "aaa"], ["2", "10", "1"], ["x-y", "x_y", "x"], ["and", "not", "true"], ["Ä", "é b", "x.y"]] {
        for x in at.iter().chain(ex.iter().skip(at.len()).step_by(if ctx.quick() { 37 } else { 5 })) {
            cases.push(Eval { x: x.clone(), names: names(&n), full: !ctx.quick() });
        }
    }
    ctx.run("values", &cases, p21_eval);
    let mut wide = vec![];
    for n in 1..=(if ctx.quick() { 13usize } else { 25 }) {
        for style in 0..4 {
            let nm: Vec<String> = (0..n)
                .map(|i| match style {
                    0 => format!("d{i}"),
                    1 => format!("{}", n - 1 - i),
                    2 => "a".repeat(i + 1),
                    _ => format!("{}", (i * 7) % n.max(8) + i * 100),
                })
                .collect();
            let fwd: Vec<usize> = (0..n).collect();
            let mut twice = fwd.clone();
            twice.extend(fwd.iter().rev());
            let mut inter: Vec<usize> = vec![];
            for i in 0..n {
                inter.extend([i, 0]);
            }
            for uses in [fwd.clone(), fwd.iter().rev().cloned().collect(), twice, inter] {
                wide.push(Wide { names: nm.clone(), uses, full: !ctx.quick() });
            }
        }
    }
    ctx.run("wide", &wide, p21_wide);
    let mut many = vec![];
    let upto = if ctx.quick() { 24 } else { 40 };
    for n in (1..=upto).chain([64, 65, 100, 101, 102]) {
        for back in [false, true] {
            many.push((n, back, None));
            let at: Vec<usize> = if n <= upto { (0..n).collect() } else { vec![0, 1, 9, 10, 63, n - 1] };
            many.extend(at.into_iter().filter(|i| *i < n).map(|i| (n, back, Some(i))));
        }
    }
    ctx.run("many", &many, p21_many);
    let lits: Vec<(String, String)> = [
        ("'${1}'", "'$' .. '{1}'"), ("'${0}'", "'$' .. '{0}'"), ("'${y}'", "'$' .. '{y}'"), ("'$0'", "'$' .. '0'"), ("'$1'", "'$' .. '1'"), ("'$x'", "'$' .. 'x'"), ("'${99}'", "'$' .. '{99}'"),
        ("'$$'", "'$' .. '$'"), ("'a\\\\b'", "'a\\\\b'"), ("\"it's\"", "\"it's\""), ("''", "''"), ("' '", "' '"), ("'\u{0}'", "'\u{0}'"), ("'ż'", "'ż'"), ("'{1}'", "'{1}'"), ("'a' .. '${1}'", "'a' .. '$' .. '{1}'"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    ctx.run("literal", &lits, p21_literal);
    ctx.run("typed", &typed_exprs(ctx), p21_typed);
    let malformed: Vec<String> = [
        "", " ", "(", ")", "()", "and", "not", "or true", "x >", "1 ==", "== 1", "${x} >", "${x} > > 1", "${x} ${x}", "true true", "true end", "return true", "nil", "1", "'a'", "{}", "function() end", "...", "x = 1", "goto a", "for", "$", "$x", "${x", "x}", "[[", "\"", "'", "\\", "--",
        "-- true", "if true", "${x} and", "${x} == ", "(${x} == 1", "${x} == 1)", "${x} === 1", "${x} != 1", "${x} && true", "true && true", "!true", "${missing} == 1", "true or ${missing}", "false and ${missing} == 1", "true == ", "True", "TRUE", "yes", "undefined", "x.y", "x()", "true()", "#", "1 < 'a'", "'a' < 1", "{} < {}", "nil < nil", "true < false", "-true", "1 .. {}", "\0", "ż",
        "${x}.y.z", "${0 1}", "coroutine.yield()", "error('x')", "error()", "error({})", "print", "print()",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    ctx.run("malformed", &malformed, p21_malformed);
    let pre: Vec<String> = ["${x} > 18 and ${y} < 30 or not (${z} == 'a')", "${x} == \"it's\" and (${y} ~= ${x})", "${x} + ${y} * 2 - 3 // 4 % 5 ^ 2 .. 'x' == [[long]] -- c", "#'abc' == 3 and {1, a=2}.a == 2 and (function(q) return q end)(true)"].iter().map(|s| s.to_string()).collect();
    ctx.run("prefixes", &pre, p21_prefix);
    let h = |pre: &str, unit: &str, n: usize, post: &str, want: Option<bool>, key: &str| Hostile { pre: pre.into(), unit: unit.into(), n, post: post.into(), want, key: key.into() };
    let mut hs = vec![
        h("", "true and ", 200, "true", Some(true), ""), h("", "not ", 100, "true", Some(true), ""), h("", "not ", 101, "true", Some(false), ""), h("", "(", 100, &format!("true{}", ")".repeat(100)), Some(true), ""),
        h("", "(", 20000, &format!("true{}", ")".repeat(20000)), None, ""), h("", "not ", 20000, "true", None, ""), h("", "- ", 20000, "1 == 1", None, ""), h("", "{", 20000, "", None, ""), h("", "2 ^ ", 20000, "1 == 1", None, ""), h("", "'a' .. ", 20000, "'b' == 'c'", None, ""), h("", "function() return ", 20000, "", None, ""), h("", "f(", 20000, "", None, ""), h("", "[", 20000, "", None, ""), h("", "f.", 20000, "x == 1", None, "long-chain-"), h("", "true and ", 20000, "true", None, "long-chain-"), h("", "1 + ", 20000, "1 == 1", None, "long-chain-"), h("", "1 == 1 or ", 20000, "true", None, "long-chain-"),
    ];
    for e in [
        "1 << 64 == 0", "1 << -1 == 0", "1 >> 64 == 0", "${x} << 63 << 63 == 0", "(-9223372036854775807 - 1) % -1 == 0", "(-9223372036854775807 - 1) // -1 == 0", "5 % ${x} == 0", "5 // ${x} == 0", "5 / ${x} == 0", "9223372036854775807 % 9223372036854775807 == 0", "9223372036854775806 % 9223372036854775807 == 0", "9223372036854775807 + 1 < 0", "-9223372036854775807 - 2 > 0", "9223372036854775807 * 2 == -2",
        "math.random(0) == 1", "math.random(5, 1) == 1", "math.abs(math.mininteger) == 1", "math.random(${x}) == 1", "- math.mininteger == math.mininteger", "~1.5 == 1", "1 & 1.5 == 1", "1e400 == 1", "0xffffffffffffffffff == 1", "1.5 // 0 == 1", "math.tointeger('x') == 1", "math.fmod(1, 0) == 1", "math.fmod(math.mininteger, -1) == 1",
        "coroutine.wrap(function() end)() == 1", "coroutine.resume(coroutine.running())", "coroutine.resume(coroutine.create(function() return true end))", "pcall(error)", "select(-1) == 1", "select('#') == 0", "setmetatable({}, {__index = 1}).x == 1", "next({}) == nil", "rawset({}, nil, 1) == 1",
        "(function() while true do end end)()", "(function(f) return f(f) end)(function(f) return f(f) end)", "(function(f) return true == f(f) end)(function(f) return true == f(f) end)", "(function() repeat until false end)()", "(function() for i = 1, math.maxinteger do end return true end)()", "(function() ::a:: goto a end)()",
    ] {
        hs.push(h(e, "", 0, "", None, ""));
    }
    ctx.run("hostile", &hs, p21_hostile);
    let _ = alpha::ab();
}
fn p21_replay(st: &str, c: &Value) -> Res {
    let mut o = Obs::default();
    match st {
        "values" => p21_eval(&parse_case(c), &mut o),
        "many" => p21_many(&parse_case(c), &mut o),
        "wide" => p21_wide(&parse_case(c), &mut o),
        "literal" => p21_literal(&parse_case(c), &mut o),
        "typed" => p21_typed(&parse_case(c), &mut o),
        "malformed" => p21_malformed(&parse_case(c), &mut o),
        "prefixes" => p21_prefix(&parse_case(c), &mut o),
        _ => p21_hostile(&parse_case(c), &mut o),
    }
}
