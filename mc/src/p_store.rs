//! P10-P16, P19, P25: histories of builds over one store, against the reference model of the store.
use crate::alpha::{full_prog, wide_progs};
use crate::lang::*;
use crate::rt::*;
use crate::store::*;
use crate::sys::*;
use crate::Entry;
use crate::p_core::{confusable, odd_names, text_progs, values};
use oca_rs::data_storage::{DataStorage, Namespace};
use said::SelfAddressingIdentifier;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

/// A history: the programs built one after another. In a program, the identifier `@k` stands for
/// the bundle of the k-th program of the pool (built alone).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub progs: Vec<Prog>,
}
pub fn subst(p: &Prog, ids: &[String]) -> Prog {
    let t = serde_json::to_string(p).unwrap();
    let mut t2 = t;
    for (i, id) in ids.iter().enumerate() {
        t2 = t2.replace(&format!("\"@{i}\""), &format!("\"{id}\""));
    }
    serde_json::from_str(&t2).unwrap()
}
fn refs(k: usize) -> Ty {
    Ty::Refs(format!("@{k}"))
}
fn refn(n: &str) -> Ty {
    Ty::Refn(n.into())
}
fn from(k: usize, c: Vec<Cmd>) -> Prog {
    let mut v = vec![Cmd::From(format!("@{k}"))];
    v.extend(c);
    Prog::new(v)
}
/// Programs that share, undo, repeat, extend, rename and refer to each other.
pub fn pool() -> Vec<Prog> {
    let a = || attr("a", b("Text"));
    let l = || label("en", &[("a", "La")]);
    let m = |n: &str| meta("en", &[("name", n), ("description", "common words")]);
    let raw: Vec<Prog> = vec![
        // 0: the simplest bundle, an intermediate step of many others
        Prog::new(vec![a()]),
        // 1: extends 0 in one go, indexed
        Prog::new(vec![a(), l(), m("Alpha first")]),
        // 2: reaches 0 again by undoing
        Prog::new(vec![a(), attr("b", b("Numeric")), rem(&["b"])]),
        // 3: passes through its own result: repeats a command, undoes a change
        Prog::new(vec![a(), l(), l(), class("X"), Cmd::RemClass, label("en", &[("a", "Lb")]), l()]),
        // 4, 5: the same name bound to different bundles
        Prog::named("dog", vec![attr("x", b("Text")), m("Dog one")]),
        Prog::named("dog", vec![attr("y", b("Numeric")), meta("pl", &[("name", "Alpha drugi")])]),
        // 6, 7: refer to the name
        Prog::new(vec![attr("d", arr(arr(refn("dog")))), attr("e", refn("dog"))]),
        Prog::named("cat", vec![a(), Cmd::Link(refn("dog"), kv(&[("a", "x")])), m("Catty")]),
        // 8: extends 0
        from(0, vec![l(), over(K::Unit, &[("a", "kg")])]),
        // 9: extends 1 and undoes it
        from(1, vec![attr("b", b("Text")), rem(&["b"])]),
        // 10: refers to 1 and 0 by identifier
        Prog::new(vec![attr("r", arr(refs(1))), attr("s", refs(0))]),
        // 11: refers to 10: dependencies of dependencies
        Prog::new(vec![attr("t", refs(10)), attr("u", arr(arr(refs(0))))]),
        // 12: several overlays of one kind, same capture base as 0
        Prog::new(vec![
            a(),
            link(SAID1, &[("a", "t1")]),
            link(SAID2, &[("a", "t2")]),
            framing("f2", &[("label", "F2")], "a", "u1", "p1", "j1"),
            framing("f1", &[("label", "F1")], "a", "u1", "p1", "j1"),
            link(SAID1, &[("a", "t3")]),
            label("pl", &[("a", "Lp")]),
        ]),
        // 13: overlay first, capture base later
        Prog::new(vec![meta("fr", &[("name", "alphabet soup")]), a(), l()]),
        // 14: nothing but a base
        from(1, vec![]),
        // 15: the label of 1 after the capture base changed below it
        from(1, vec![attr("c", b("Text")), label("en", &[("c", "Lc")]), class("K")]),
    ];
    let mut ids: Vec<String> = vec![];
    for p in &raw {
        let mut sm = SM::default();
        // alone: what it refers to or extends first
        for k in [0usize, 1] {
            if ids.len() > k {
                let _ = sm.build(&subst(&raw[k], &ids));
            }
        }
        if let Some(d) = raw.get(4) {
            let _ = sm.build(&subst(d, &ids));
        }
        ids.push(sm.build(&subst(p, &ids)).map(|b| b.said).unwrap_or_else(|_| "none".into()));
    }
    raw.iter().map(|p| subst(p, &ids)).collect()
}
/// Sequences of pool indices of length up to `depth` that build.
pub fn paths(pool: &[Prog], alpha: &[usize], depth: usize) -> Vec<Hist> {
    fn go(pool: &[Prog], alpha: &[usize], depth: usize, sm: &SM, at: Vec<Prog>, out: &mut Vec<Hist>) {
        if !at.is_empty() {
            out.push(Hist { progs: at.clone() });
        }
        if depth == 0 {
            return;
        }
        for i in alpha {
            let mut s = sm.clone();
            if s.build(&pool[*i]).is_ok() {
                let mut v = at.clone();
                v.push(pool[*i].clone());
                go(pool, alpha, depth - 1, &s, v, out);
            }
        }
    }
    let mut out = vec![];
    go(pool, alpha, depth, &SM::default(), vec![], &mut out);
    out
}
pub fn mism(e: impl Into<String>) -> Fail {
    Fail { key: "mismatch".into(), msg: e.into() }
}
pub struct Run {
    pub w: World,
    pub sm: SM,
    pub built: Vec<Built>,
}
impl Run {
    pub fn new() -> Run {
        Run { w: World::new(), sm: SM::default(), built: vec![] }
    }
    pub fn step(&mut self, p: &Prog, o: &mut Obs) -> Result<(), Fail> {
        o.transitions += 1;
        let want = self.sm.build(p);
        let got = guard(|| self.w.build(p))?;
        match (want, got) {
            (Ok(b), Ok(g)) => {
                if b.enc != encs(&g) {
                    return fail("built", format!("building in this store gives another bundle: {}\n{}", text_diff2(&b.enc, &encs(&g)), p.text()));
                }
                self.built.push(b);
                o.state(&self.w.db.snapshot());
                Ok(())
            }
            (Err(_), Err(_)) => Ok(()),
            (Ok(_), Err(e)) => fail("rejected", format!("{e}\n{}", p.text())),
            (Err(e), Ok(_)) => fail("accepted", format!("should fail: {e}\n{}", p.text())),
        }
    }
}
fn text_diff2(a: &str, b: &str) -> String {
    crate::p_core::text_diff(a, b)
}
pub fn run_hist(h: &Hist, o: &mut Obs) -> Result<Run, Fail> {
    o.traces += 1;
    let mut r = Run::new();
    for p in &h.progs {
        r.step(p, o)?;
    }
    Ok(r)
}
fn show(h: &Hist) -> String {
    h.progs.iter().map(|p| p.text()).collect::<Vec<_>>().join("-----\n")
}
fn with<T>(h: &Hist, r: Result<T, Fail>) -> Result<T, Fail> {
    r.map_err(|mut f| {
        f.msg = format!("{}\nhistory:\n{}", f.msg, show(h));
        f
    })
}

/// The histories every check of this file explores.
fn hists(ctx: &Ctx) -> Vec<Hist> {
    let pool = pool();
    let all: Vec<usize> = (0..pool.len()).collect();
    let mut v = paths(&pool, &all, 2);
    if !ctx.quick() {
        v = paths(&pool, &all, 3);
    } else {
        for alpha in [&[0usize, 2, 3, 8][..], &[1, 9, 14, 15], &[4, 5, 6, 7], &[0, 1, 10, 11]] {
            v.extend(paths(&pool, alpha, 3).into_iter().filter(|h| h.progs.len() == 3));
        }
    }
    v.extend(grown(ctx));
    v
}
/// Bundles with a lot in them, and stores that grow: many bundles sharing objects.
fn grown(ctx: &Ctx) -> Vec<Hist> {
    let mut v = vec![];
    let wides: Vec<Prog> = std::iter::once(full_prog()).chain(wide_progs()).collect();
    for w in &wides {
        v.push(Hist { progs: vec![w.clone()] });
        let Ok(id) = SM::default().build(w).map(|b| b.said) else { continue };
        v.push(Hist { progs: vec![w.clone(), from(0, vec![label("en", &[("a", "new")]), rem(&["b"])]), w.clone()].into_iter().map(|p| subst(&p, &[id.clone()])).collect() });
    }
    let n = if ctx.quick() { 20 } else { 70 };
    // every bundle has the same capture base, and the same label in English
    v.push(Hist { progs: (0..n).map(|i| Prog::new(vec![attr("a", b("Text")), label("en", &[("a", "same")]), meta("pl", &[("name", &format!("alpha {i}"))])])).collect() });
    // every bundle has the same metadata over another capture base
    v.push(Hist { progs: (0..n).map(|i| Prog::new(vec![meta("fr", &[("name", "common soup")]), attr(&format!("a{i}"), b("Text"))])).collect() });
    // each extends the one before
    let mut sm = SM::default();
    let mut progs: Vec<Prog> = vec![];
    let mut last: Option<String> = None;
    for i in 0..n {
        let mut c: Vec<Cmd> = last.iter().map(|s| Cmd::From(s.clone())).collect();
        c.push(if i == 0 { attr("a", b("Text")) } else { label(["en", "pl", "fr", "de"][i % 4], &[("a", &format!("L{i}"))]) });
        let p = Prog::new(c);
        last = sm.build(&p).ok().map(|b| b.said);
        progs.push(p);
    }
    v.push(Hist { progs });
    v
}
type HCheck = fn(&Hist, &mut Obs) -> Res;
fn run_all(ctx: &Ctx, f: HCheck) {
    let h = hists(ctx);
    ctx.note("pool", pool().len());
    ctx.run("histories", &h, |h, o| with(h, f(h, o)));
    ctx.run("texts", &texts(ctx), |h, o| with(h, f(h, o)));
}
/// Stores of some hundred bundles: objects related to all of them, and objects related to few.
fn crowded(ctx: &Ctx) -> Vec<Hist> {
    let mut v = vec![];
    for n in if ctx.quick() { vec![102, 260] } else { vec![33, 66, 102, 130, 260, 515] } {
        v.push(Hist { progs: (0..n).map(|i| Prog::new(vec![attr("a", b("Text")), label("en", &[("a", "same")]), meta("pl", &[("name", &format!("alpha {i}"))])])).collect() });
        v.push(Hist { progs: (0..n).map(|i| Prog::new(vec![meta("fr", &[("name", "common soup")]), attr(&format!("a{i}"), b("Text"))])).collect() });
        if n < 300 {
            // one bundle after that many steps, and what it is made of
            v.push(Hist { progs: vec![Prog::new((0..n).map(|i| if i == 0 { attr("a", b("Text")) } else if i % 3 == 0 { attr(&format!("a{i}"), b("Text")) } else { label(["en", "pl"][i % 2], &[("a", &format!("L{i}"))]) }).collect())] });
        }
    }
    v
}
/// Histories of programs with odd texts and names: every overlay with one text, confusable pairs together, names.
fn texts(ctx: &Ctx) -> Vec<Hist> {
    let q = ctx.quick();
    let mut progs: Vec<Prog> = values().iter().flat_map(|v| text_progs(v, v)).collect();
    let odd = odd_names(ctx);
    progs.extend(odd.into_iter().step_by(if q { 25 } else { 1 }));
    if !q {
        progs.extend(confusable().iter().flat_map(|(v, w)| text_progs(v, w)));
    }
    progs.chunks(2).map(|c| Hist { progs: c.to_vec() }).collect()
}

// ------------------------------------------------------------------ P10
pub static P10: Entry = (
    "P10",
    "model_checking",
    "every sequence of builds from a pool of programs that share, undo, repeat, extend and rename each other, up to the stated depth; the stored history of every bundle and intermediate bundle read back and replayed; and single histories of every length to 40 and around powers of two, in one build and in FROM chains",
    &["the language and in-memory builder used to compute what was executed are checked by P04 and P06"],
    p10,
    |st, c| match st {
        "long" => p10_long(&parse_case(c), &mut Obs::default()),
        _ => p10_check(&parse_case(c), &mut Obs::default()),
    },
);
fn replay_commands(cmds: &[oca_ast_semantics::ast::Command]) -> Result<Vec<String>, String> {
    let mut a = oca_ast_semantics::ast::OCAAst::new();
    a.commands = cmds.to_vec();
    oca_bundle_semantics::build::from_ast(None, &a).map(|b| b.steps.iter().map(|s| encs(&s.result)).collect()).map_err(|e| format!("{e:?}"))
}
fn p10_check(h: &Hist, o: &mut Obs) -> Res {
    let mut r = Run::new();
    o.traces += 1;
    for p in &h.progs {
        r.step(p, o)?;
    }
    let (w, sm) = (&r.w, &r.sm);
    for id in sm.bundles.keys() {
        o.evals += 1;
        let st = guard(|| w.f.get_oca_bundle_steps(sai(id)))?.map_err(|e| mism(format!("history of {id} is unreadable: {e:?}")))?;
        let last = st.last().ok_or_else(|| mism("empty history"))?;
        if said_of(&last.result) != *id {
            return fail("chain", format!("history of {id} ends at {}", said_of(&last.result)));
        }
        for (i, s) in st.iter().enumerate() {
            let want = if i == 0 { None } else { Some(said_of(&st[i - 1].result)) };
            if s.parent_said.as_ref().map(|x| x.to_string()) != want {
                return fail("chain", format!("history of {id}: step {i} names parent {:?}, expected {want:?}", s.parent_said));
            }
            if encs(&s.result) != sm.bundles[&said_of(&s.result)] {
                return fail("result", format!("history of {id}: step {i}: stored result differs from what was built"));
            }
        }
        let cmds: Vec<_> = st.iter().map(|s| s.command.clone()).collect();
        let rep = replay_commands(&cmds).map_err(|e| mism(format!("history of {id} does not replay: {e}")))?;
        for (i, x) in rep.iter().enumerate() {
            if *x != encs(&st[i].result) {
                return fail("replay", format!("history of {id}: replaying {} commands gives another bundle than the stored step", i + 1));
            }
        }
        // other readings of the same history
        let js = |c: &oca_ast_semantics::ast::Command| serde_json::to_value(c).unwrap();
        let mine: Vec<Value> = cmds.iter().map(js).collect();
        let a = guard(|| w.f.get_oca_bundle_ast(sai(id)))?.map_err(|e| mism(format!("{e:?}")))?;
        if a.commands.iter().map(js).collect::<Vec<Value>>() != mine {
            return fail("ast", format!("history of {id} as AST differs from its steps"));
        }
        for deref in [false, true] {
            let t = guard(|| w.f.get_oca_bundle_ocafile(sai(id), deref))?.map_err(|e| mism(format!("{e:?}")))?;
            let back = oca_file_semantics::ocafile::parse_from_string(t.clone()).map_err(|e| mism(format!("history of {id} as OCAfile does not parse: {e}\n{t}")))?;
            if back.commands.iter().map(js).collect::<Vec<Value>>() != mine {
                return fail("ocafile", format!("history of {id} as OCAfile differs from its steps:\n{t}"));
            }
        }
    }
    for bt in &r.built {
        if bt.steps.is_empty() {
            continue;
        }
        let st = w.f.get_oca_bundle_steps(sai(&bt.said)).map_err(|e| mism(format!("{e:?}")))?;
        let got: Vec<(String, String)> = st.iter().map(|s| (serde_json::to_string(&s.command).unwrap(), said_of(&s.result))).collect();
        if bt.all_new {
            // no step was known before, so the history is what was executed (after the base's own);
            // a step whose result the same build had already reached is not part of the way there
            let mut want: Vec<(String, String)> = bt.base.iter().flat_map(|b| sm.chain(b).into_iter().map(|(i, c)| (c, i))).collect();
            let base_len = want.len();
            let mut seen: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
            let distinct = bt.steps.iter().all(|s| {
                let n = !seen.contains(&s.1);
                seen.push(s.1.clone());
                n
            });
            want.extend(bt.steps.clone());
            o.nontrivial(&want);
            if distinct && got != want {
                return fail("commands", format!("history of {} is not what was executed: expected {} commands, got {:?}", bt.said, want.len(), got.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
            let _ = base_len;
        }
    }
    Ok(())
}

/// (number of commands, commands per build; builds after the first extend the last bundle)
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    steps: usize,
    per_build: usize,
    /// length of the texts in the commands
    #[serde(default)]
    text: usize,
}
fn p10_long(c: &Long, o: &mut Obs) -> Res {
    let mut cmds: Vec<Cmd> = vec![attr("a", b("Text"))];
    cmds.extend((1..c.steps).map(|i| match i % 3 {
        0 => label("en", &[("a", &format!("L{i}{}", "x".repeat(c.text)))]),
        1 => class(&format!("C{i}")),
        _ => attr(&format!("x{i}"), b("Numeric")),
    }));
    let mut w = World::new();
    let mut want: Vec<(String, Option<String>, String)> = vec![];
    let mut last: Option<String> = None;
    for chunk in cmds.chunks(c.per_build) {
        let mut p: Vec<Cmd> = last.iter().map(|s| Cmd::From(s.clone())).collect();
        p.extend(chunk.to_vec());
        let build = w.f.validate_ocafile(Prog::new(p).text()).map_err(|e| mism(format!("{e:?}")))?;
        w.f.build(&build).map_err(|e| mism(format!("{e:?}")))?;
        for s in &build.steps {
            o.transitions += 1;
            let id = said_of(&s.result);
            want.push((serde_json::to_string(&s.command).unwrap(), last.clone(), id.clone()));
            last = Some(id);
        }
    }
    o.traces += 1;
    o.evals += 1;
    o.state(&last);
    o.nontrivial(&want);
    let id = last.unwrap();
    let st = guard(|| w.f.get_oca_bundle_steps(sai(&id)))?.map_err(|e| mism(format!("history of {} commands is unreadable: {e:?}", c.steps)))?;
    let got: Vec<_> = st.iter().map(|s| (serde_json::to_string(&s.command).unwrap(), s.parent_said.as_ref().map(|x| x.to_string()), said_of(&s.result))).collect();
    if got.len() != c.steps || got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b);
        return fail("long", format!("a bundle built by {} commands has a history of {} (first difference at {at:?})", c.steps, got.len()));
    }
    let cmds: Vec<_> = st.iter().map(|s| s.command.clone()).collect();
    let ast = guard(|| w.f.get_oca_bundle_ast(sai(&id)))?.map_err(|e| mism(format!("{e:?}")))?;
    if ast.commands != cmds {
        return fail("long", format!("history of {} commands as AST has {}", c.steps, ast.commands.len()));
    }
    let t = guard(|| w.f.get_oca_bundle_ocafile(sai(&id), false))?.map_err(|e| mism(format!("{e:?}")))?;
    let again = build_free(t).map_err(mism)?;
    if said_of(&again) != id {
        return fail("long", format!("the exported history of {} commands rebuilds {}, not {id}", c.steps, said_of(&again)));
    }
    Ok(())
}
fn p10(ctx: &Ctx) {
    run_all(ctx, p10_check);
    ctx.run("crowded", &crowded(ctx)[..2], |h, o| with(h, p10_check(h, o)));
    let mut sizes: Vec<usize> = (1..=40).collect();
    sizes.extend([50, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258]);
    if !ctx.quick() {
        sizes.extend([511, 512, 513, 1000, 1025]);
    }
    let cases: Vec<Long> = sizes.iter().rev().flat_map(|&steps| {
        let mut v = vec![Long { steps, per_build: steps, text: 0 }];
        if steps <= 130 || !ctx.quick() {
            v.push(Long { steps, per_build: 1 + steps / 70, text: 0 });
        }
        v
    }).collect();
    ctx.note("longest_history", sizes.iter().max());
    ctx.run("long", &cases, p10_long);
    // commands of every size around the powers of two
    let mut large: Vec<usize> = (0..=17).flat_map(|p| (-3..=1).map(move |d| ((1i64 << p) + d).max(0) as usize)).collect();
    // the JSON form of a label command of text length n takes n and a constant
    large.extend((65536 - 140..65536).step_by(if ctx.quick() { 7 } else { 1 }));
    large.extend([70_000, 200_000, 1_000_000]);
    if !ctx.quick() {
        large.extend([(1 << 20) + 1, 3_000_000]);
    }
    large.sort();
    large.dedup();
    large.reverse();
    ctx.note("largest_text_in_a_command", large.first());
    let cases: Vec<Long> = large.iter().map(|&text| Long { steps: 5, per_build: 2, text }).collect();
    ctx.run("large", &cases, p10_long);
    // the same commands again and again, at states seen before and at new ones
    let ops = vec![attr("a", b("Text")), attr("b", b("Text")), rem(&["a"]), label("en", &[("b", "L1")]), label("en", &[("b", "L2")]), class("K"), class("M"), Cmd::RemClass];
    let depth = if ctx.quick() { 4 } else { 5 };
    let again: Vec<Hist> = sequences(&ops, depth).into_iter().map(|s| Hist { progs: vec![Prog::new(std::iter::once(attr("b", b("Numeric"))).chain(s).collect())] }).collect();
    ctx.run("recurring", &again, |h, o| with(h, p10_check(h, o)));
}

// ------------------------------------------------------------------ P11
pub static P11: Entry = (
    "P11",
    "model_checking",
    "every sequence of builds from the pool up to the stated depth; every identifier of every step fetched after every build, and unknown identifiers of every shape",
    &[],
    |ctx| {
        run_all(ctx, p11_check);
        ctx.run("crowded", &crowded(ctx), |h, o| with(h, p11_check(h, o)));
    },
    |_, c| p11_check(&parse_case(c), &mut Obs::default()),
);
fn p11_check(h: &Hist, o: &mut Obs) -> Res {
    let mut r = Run::new();
    o.traces += 1;
    for p in &h.progs {
        r.step(p, o)?;
    }
    let (w, sm) = (&r.w, &r.sm);
    let known = |o: &mut Obs| -> Res {
        for (id, e) in &sm.bundles {
            o.evals += 1;
            o.nontrivial(e);
            let g = guard(|| w.f.get_oca_bundle(sai(id), false))?.map_err(|x| mism(format!("bundle {id} is not retrievable: {x:?}")))?;
            if encs(&g.bundle) != *e || !g.dependencies.is_empty() {
                return fail("bundle", format!("bundle {id} is not what was built: {}", text_diff2(e, &encs(&g.bundle))));
            }
        }
        for (id, (_, j)) in &sm.objs {
            o.evals += 1;
            let g = guard(|| w.f.get_oca_objects(vec![id.clone()]))?.map_err(|x| mism(format!("object {id} is not retrievable: {x:?}\n{j}")))?;
            let t = serde_json::to_string(&g).unwrap();
            let (tv, jv): (Value, Value) = (serde_json::from_str(&t).unwrap(), serde_json::from_str(j).unwrap());
            if g.len() != 1 || tv[0] != jv || t != format!("[{j}]") {
                return fail("object", format!("object {id} is not what was built: {j} became {t}"));
            }
        }
        let all: Vec<String> = sm.objs.keys().cloned().collect();
        let g = guard(|| w.f.get_oca_objects(all.clone()))?.map_err(|x| mism(format!("{x:?}")))?;
        let want = format!("[{}]", sm.objs.values().map(|x| x.1.clone()).collect::<Vec<_>>().join(","));
        if serde_json::to_string(&g).unwrap() != want {
            return fail("objects", "several objects fetched together are not the objects asked for, in order");
        }
        let mut back: Vec<String> = all.iter().rev().cloned().collect();
        back.extend(all.iter().take(2).cloned());
        let g = guard(|| w.f.get_oca_objects(back.clone()))?.map_err(|x| mism(format!("{x:?}")))?;
        let want = format!("[{}]", back.iter().map(|k| sm.objs[k].1.clone()).collect::<Vec<_>>().join(","));
        if serde_json::to_string(&g).unwrap() != want {
            return fail("objects", "several objects fetched together, two of them twice, are not the objects asked for, in order");
        }
        Ok(())
    };
    known(o)?;
    // unknown identifiers: well-formed ones, other kinds of known ones, other keys of the storage
    let cbs: Vec<String> = sm.objs.keys().take(3).cloned().collect();
    let bds: Vec<String> = sm.bundles.keys().take(2).cloned().collect();
    for u in [SAID1, SAID2].iter().map(|s| s.to_string()).chain(cbs.iter().cloned()) {
        o.evals += 1;
        if sm.bundles.contains_key(&u) {
            continue;
        }
        for dep in [false, true] {
            if let Ok(x) = guard(|| w.f.get_oca_bundle(sai(&u), dep))? {
                return fail("unknown", format!("{u} is no bundle, got {}", encs(&x.bundle)));
            }
        }
        if guard(|| w.f.get_oca_bundle_steps(sai(&u)).is_ok())? || guard(|| w.f.get_oca_bundle_ast(sai(&u)).is_ok())? {
            return fail("unknown", format!("{u} is no bundle, but has a history"));
        }
        if guard(|| w.f.get_oca_bundle_ocafile(sai(&u), false).is_ok())? || guard(|| w.f.get_oca_bundle_ocafile(sai(&u), true).is_ok())? {
            return fail("unknown", format!("{u} is no bundle, but has an OCAfile"));
        }
    }
    let mut odd: Vec<String> = vec![SAID1.into(), SAID2.into(), "".into(), "x".into(), "é".into(), "a.b".into(), " ".into()];
    odd.extend(bds.clone());
    for k in cbs.iter().chain(&bds) {
        odd.extend([format!("{k}.metadata"), format!("oca.{k}.operation"), format!("core_model.{k}"), format!("{k} "), k[..k.len() - 1].to_string()]);
    }
    for u in &odd {
        o.evals += 1;
        for list in [vec![u.clone()], vec![cbs[0].clone(), u.clone()], vec![u.clone(), cbs[0].clone()]] {
            if let Ok(x) = guard(|| w.f.get_oca_objects(list.clone()))? {
                return fail("unknown", format!("{u:?} is no object, got {}", serde_json::to_string(&x).unwrap()));
            }
        }
        if let Some(x) = guard(|| w.f.explore(u.clone()))? {
            if !sm.rel.contains_key(u) {
                return fail("unknown", format!("{u:?} is unknown, exploring it gives {:?}", x.relations));
            }
        }
    }
    known(o)
}

// ------------------------------------------------------------------ P12
pub static P12: Entry = (
    "P12",
    "model_checking",
    "every sequence of builds from the pool up to the stated depth; the relations of every identifier compared with the reference model after every build",
    &[],
    |ctx| {
        run_all(ctx, p12_check);
        ctx.run("crowded", &crowded(ctx), |h, o| with(h, p12_check(h, o)));
    },
    |_, c| p12_check(&parse_case(c), &mut Obs::default()),
);
/// kind and identifier of a related object, as its JSON form says
fn wire_kind<T: Serialize>(x: &T) -> String {
    let j = serde_json::to_value(x).unwrap();
    let k = match j["object_type"].as_str() {
        Some("Overlay") => snake(j["metadata"]["kind"]["object_kind"].as_str().unwrap_or("?")),
        _ => match j["object_type"]["object_kind"].as_str() {
            Some("OCABundle") => "bundle".into(),
            Some("CaptureBase") => "capture_base".into(),
            _ => "?".into(),
        },
    };
    format!("{k}:{}", j["said"].as_str().unwrap_or("?"))
}
pub fn relations_match(w: &World, sm: &SM) -> Res {
    let kn = |k: &oca_ast_semantics::ast::ObjectKind| -> String {
        match k {
            oca_ast_semantics::ast::ObjectKind::OCABundle(_) => "bundle".into(),
            oca_ast_semantics::ast::ObjectKind::CaptureBase(_) => "capture_base".into(),
            oca_ast_semantics::ast::ObjectKind::Overlay(t, _) => snake(&t.to_string()),
        }
    };
    for (id, (kind, rel)) in &sm.rel {
        let x = guard(|| w.f.explore(id.clone()))?.ok_or_else(|| mism(format!("{kind} {id} has no relations, expected {rel:?}")))?;
        if x.base_object.said != *id || kn(&x.base_object.object_type) != *kind {
            return fail("base", format!("exploring {kind} {id} reports itself as {:?}", x.base_object));
        }
        let got: BTreeSet<String> = x.relations.iter().map(|r| format!("{}:{}", kn(&r.object_type), r.said)).collect();
        if got != *rel || x.relations.len() != rel.len() {
            return fail("relations", format!("exploring {kind} {id}: expected {rel:?}, got {got:?}"));
        }
        let got: BTreeSet<String> = x.relations.iter().map(wire_kind).collect();
        if got != *rel || wire_kind(&x.base_object) != format!("{kind}:{id}") {
            return fail("json", format!("exploring {kind} {id}: serialised as {} with {got:?}, expected {rel:?}", wire_kind(&x.base_object)));
        }
    }
    Ok(())
}
/// CharacterEncoding -> character_encoding
pub fn snake(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_uppercase() {
            if !o.is_empty() {
                o.push('_');
            }
            o.extend(c.to_lowercase());
        } else {
            o.push(c);
        }
    }
    o
}
fn p12_check(h: &Hist, o: &mut Obs) -> Res {
    let mut r = Run::new();
    o.traces += 1;
    for p in &h.progs {
        r.step(p, o)?;
        relations_match(&r.w, &r.sm)?;
    }
    o.evals += r.sm.rel.len() as u64;
    o.nontrivial(&format!("{:?}", r.sm.rel));
    for u in [SAID1, SAID2] {
        if guard(|| r.w.f.explore(u.into()))?.is_some() {
            return fail("unknown", format!("unknown {u} has relations"));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P13
pub static P13: Entry = (
    "P13",
    "model_checking",
    "every program of the pool made to fail in every way at every position, in every store reached by a sequence of builds; stored bytes and all observations before and after compared, and the continuation by every program of the pool",
    &[],
    p13,
    |_, c| p13_check(&parse_case(c), &mut Obs::default()),
);
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Failing {
    before: Hist,
    text: String,
    after: Vec<Prog>,
}
fn full_snapshot(w: &World) -> (BTreeMap<(String, String), Vec<u8>>, BTreeMap<(String, String), Vec<u8>>) {
    (w.db.snapshot(), w.cache.snapshot())
}
fn all_ids(w: &World) -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for ((n, k), _) in w.cache.snapshot().into_iter().chain(w.db.snapshot()) {
        if n.starts_with("oca_") && SelfAddressingIdentifier::from_str(&k).is_ok() {
            v.insert(k);
        }
    }
    v.into_iter().collect()
}
const WORDS: [&str; 6] = ["alpha", "common", "dog", "first", "soup", "Catty"];
fn p13_check(c: &Failing, o: &mut Obs) -> Res {
    o.traces += 1;
    let mut r = Run::new();
    for p in &c.before.progs {
        r.step(p, o)?;
    }
    let ids = all_ids(&r.w);
    let s0 = full_snapshot(&r.w);
    let o0 = observe(&r.w.f, &ids, &WORDS);
    o.transitions += 1;
    o.evals += 1;
    o.nontrivial(&c.text);
    let res = guard(|| r.w.build_text(c.text.clone()))?;
    if res.is_ok() {
        return fail("accepted", format!("this should not build:\n{}", c.text));
    }
    let s1 = full_snapshot(&r.w);
    if s0 != s1 {
        let d: Vec<_> = s1.0.iter().filter(|x| s0.0.get(x.0) != Some(x.1)).map(|x| x.0.clone()).chain(s1.1.iter().filter(|x| s0.1.get(x.0) != Some(x.1)).map(|x| x.0.clone())).collect();
        return fail("storage", format!("a failing build wrote {d:?}\n{}\nerror: {:?}", c.text, res.err()));
    }
    let ids1 = all_ids(&r.w);
    if let Some(d) = mdiff(&o0, &observe(&r.w.f, &ids1, &WORDS)) {
        return fail("observable", format!("a failing build is observable: {d}\n{}", c.text));
    }
    // later builds behave as if it had not happened
    for p in &c.after {
        r.step(p, o)?;
    }
    if !c.after.is_empty() {
        let mut w2 = Run::new();
        for p in c.before.progs.iter().chain(&c.after) {
            w2.step(p, o)?;
        }
        let ids = all_ids(&w2.w);
        if let Some(d) = mdiff(&observe(&w2.w.f, &ids, &WORDS), &observe(&r.w.f, &ids, &WORDS)) {
            return fail("later", format!("after a failing build, later builds differ: {d}\n{}", c.text));
        }
    }
    Ok(())
}
fn p13(ctx: &Ctx) {
    let pool = pool();
    let bad: Vec<(&str, String)> = vec![
        ("syntax", "ADD SOMETHING en".into()),
        ("unknown reference", "ADD ATTRIBUTE zz=Array[refn:nowhere]".into()),
        ("unknown link target", "ADD LINK refn:nowhere ATTRS a=\"q\"".into()),
        ("duplicate", "ADD ATTRIBUTE zz=Text\nADD ATTRIBUTE zz=Text".into()),
        ("unknown attribute", "ADD LABEL en ATTRS nosuch=\"x\"".into()),
        ("unknown language", "ADD META xq PROPS name=\"x\"".into()),
        ("unknown encoding", "ADD ATTRIBUTE zz=Text\nADD CHARACTER_ENCODING ATTRS zz=\"klingon\"".into()),
        ("remove unknown", "REMOVE ATTRIBUTE nosuch".into()),
        ("base in the middle", format!("FROM {SAID1}")),
        ("modify", "MODIFY LABEL en ATTRS nosuch=\"x\"".into()),
        ("bad identifier", "ADD ATTRIBUTE zz=refs:notanidentifier".into()),
    ];
    let mut cases: Vec<Failing> = vec![];
    let befores: Vec<Vec<usize>> = if ctx.quick() { vec![vec![], vec![0, 1], vec![4]] } else { vec![vec![], vec![0], vec![0, 1], vec![4], vec![4, 5], vec![1, 4, 9], vec![4, 7, 3]] };
    for bf in &befores {
        let before = Hist { progs: bf.iter().map(|i| pool[*i].clone()).collect() };
        for (i, p) in pool.iter().enumerate() {
            let mut sm = SM::default();
            for q in &before.progs {
                let _ = sm.build(q);
            }
            if sm.build(p).is_err() {
                continue;
            }
            for pos in 0..=p.cmds.len() {
                if pos == 0 && matches!(p.cmds.first(), Some(Cmd::From(_))) {
                    continue;
                }
                for (k, (what, bad)) in bad.iter().enumerate() {
                    if *what == "base in the middle" && pos == 0 {
                        continue;
                    }
                    // every failure, with and without names, at the end of every program; elsewhere a third of them
                    let end = pos == p.cmds.len();
                    if ctx.quick() && !end && (k + pos + i) % 3 != 0 && !before.progs.is_empty() {
                        continue;
                    }
                    for name in [None, Some("dog"), Some("newname")] {
                        if name.is_some() && !end && ctx.quick() {
                            continue;
                        }
                        let mut q = p.clone();
                        if name.is_some() {
                            q.name = name.map(|s| s.to_string());
                        }
                        q.cmds.insert(pos, Cmd::Raw(bad.clone()));
                        let after = if pos == p.cmds.len() && (!ctx.quick() || k % 4 == i % 4) { vec![p.clone()] } else { vec![] };
                        cases.push(Failing { before: before.clone(), text: q.text(), after });
                    }
                }
            }
        }
        for t in ["", "\n", "-- name=dog\n", "garbage", "-- precompiler=transformation\n", "ADD ATTRIBUTE a", "FROM refn:dog\n", "-- name=dog\nREMOVE ATTRIBUTE a\n"] {
            cases.push(Failing { before: before.clone(), text: t.into(), after: vec![pool[1].clone()] });
        }
        // the failing build first, every program of the pool afterwards
        let t = Prog::named("dog", vec![attr("a", b("Text")), Cmd::Raw("ADD LABEL en ATTRS nosuch=\"x\"".into())]).text();
        for p in &pool {
            let mut sm = SM::default();
            for q in &before.progs {
                let _ = sm.build(q);
            }
            if sm.build(p).is_ok() {
                cases.push(Failing { before: before.clone(), text: t.clone(), after: vec![p.clone()] });
            }
        }
    }
    // a failure after many commands, and in a store of many bundles
    for n in [33usize, 101, 258] {
        let before = Hist { progs: (0..n).map(|i| Prog::named(&format!("n{}", i % 40), vec![attr("a", b("Text")), meta("en", &[("name", &format!("alpha {i}"))])])).collect() };
        for (k, (_, bad)) in bad.iter().enumerate() {
            let mut c: Vec<Cmd> = (0..n).map(|i| attr(&format!("a{i}"), b("Text"))).collect();
            c.push(Cmd::Raw(bad.clone()));
            cases.push(Failing { before: Hist { progs: vec![] }, text: Prog::named("dog", c).text(), after: vec![pool[1].clone()] });
            if k % 3 == 0 {
                cases.push(Failing { before: before.clone(), text: Prog::named("n3", vec![attr("a", b("Text")), Cmd::Raw(bad.clone())]).text(), after: vec![] });
            }
        }
    }
    ctx.run("failing", &cases, |c, o| p13_check(c, o));
}

// ------------------------------------------------------------------ P14
pub static P14: Entry = (
    "P14",
    "model_checking",
    "every sequence of builds from the pool up to the stated depth followed by every one of its programs again; every permutation of every set of independent programs",
    &["programs are independent when they share no bundle reached in different ways, and do not name or refer to each other by name"],
    p14,
    |st, c| if st == "orders" { p14_orders(&parse_case(c), &mut Obs::default()) } else { p14_check(&parse_case(c), &mut Obs::default()) },
);
/// storage bytes, relation records as sets
fn norm_snapshot(w: &World) -> BTreeMap<(String, String), Vec<u8>> {
    let mut m = BTreeMap::new();
    for (i, s) in [w.db.snapshot(), w.cache.snapshot()].into_iter().enumerate() {
        for ((n, k), v) in s {
            let v = if n == "oca_relations" && !k.ends_with(".metadata") {
                let mut parts: Vec<Vec<u8>> = vec![];
                let mut at = 0;
                while at + 1 < v.len() {
                    let e = (at + 2 + v[at + 1] as usize).min(v.len());
                    parts.push(v[at..e].to_vec());
                    at = e;
                }
                parts.sort();
                parts.concat()
            } else {
                v
            };
            m.insert((format!("{i}{n}"), k), v);
        }
    }
    m
}
fn p14_check(h: &Hist, o: &mut Obs) -> Res {
    let mut r = run_hist(h, o)?;
    let n = h.progs.len();
    for i in 0..n {
        // a name is rebound, or now means another bundle: a different program
        let p = &h.progs[i];
        let mut sm = r.sm.clone();
        let again = sm.build(p).map_err(|e| mism(e))?;
        if again.said != r.built[i].said || sm.env.names != r.sm.env.names {
            continue;
        }
        let ids = all_ids(&r.w);
        let (s0, o0) = (norm_snapshot(&r.w), observe(&r.w.f, &ids, &WORDS));
        let rank0 = ranked(&r.w.f, &WORDS);
        let total0 = r.w.f.fetch_all_oca_bundle(1, 1).unwrap().metadata.total;
        let rows = |f: &oca_rs::Facade| -> Vec<String> {
            let mut v = vec![];
            for page in 1.. {
                let b = f.fetch_all_oca_bundle(1, page).unwrap().records;
                let c = f.fetch_all_capture_base(1, page).unwrap().records;
                if b.is_empty() && c.is_empty() {
                    break;
                }
                v.extend(b.iter().map(said_of));
                v.extend(c.iter().map(|c| c.said.as_ref().map(|s| s.to_string()).unwrap_or_default()));
            }
            v
        };
        let rows0 = rows(&r.w.f);
        for k in 0..2 {
            o.transitions += 1;
            o.evals += 1;
            let g = guard(|| r.w.build(p))?.map_err(|e| mism(format!("building again fails: {e}\n{}", p.text())))?;
            if encs(&g) != r.built[i].enc {
                return fail("bundle", format!("building again (time {}) gives another bundle\n{}", k + 2, p.text()));
            }
        }
        let s1 = norm_snapshot(&r.w);
        if s0 != s1 {
            let d: Vec<_> = s1.iter().filter(|x| s0.get(x.0) != Some(x.1)).map(|x| x.0.clone()).collect();
            return fail("storage", format!("building again changes {d:?}\n{}", p.text()));
        }
        let ids1 = all_ids(&r.w);
        if let Some(d) = mdiff(&o0, &observe(&r.w.f, &ids1, &WORDS)) {
            return fail("observable", format!("building again is observable: {d}\n{}", p.text()));
        }
        if let Some(d) = mdiff(&rank0, &ranked(&r.w.f, &WORDS)) {
            return fail("observable", format!("building again changes what a search says: {d}\n{}", p.text()));
        }
        if r.w.f.fetch_all_oca_bundle(1, 1).unwrap().metadata.total != total0 {
            return fail("observable", "building again changes the total");
        }
        // what stands on a page stays on that page
        let rows1 = rows(&r.w.f);
        if rows1 != rows0 {
            return fail("observable", format!("building again changes the order of a listing: {rows0:?} to {rows1:?}\n{}", p.text()));
        }
        o.nontrivial(&s1);
    }
    Ok(())
}
fn permutations<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
/// The final contents of the store do not depend on the order (decided on the model: the model's
/// own result is order independent, so the real one has to be).
fn p14_orders(h: &Hist, o: &mut Obs) -> Res {
    let mut want: Option<(Hist, BTreeMap<String, String>, BTreeMap<(String, String), Vec<u8>>)> = None;
    for ps in permutations(&h.progs) {
        let hh = Hist { progs: ps };
        let r = run_hist(&hh, o)?;
        o.evals += 1;
        let ids = all_ids(&r.w);
        let mut ob = observe(&r.w.f, &ids, &WORDS);
        ob.extend(ranked(&r.w.f, &WORDS).into_iter().map(|(k, v)| (format!("ranking of {k}"), v)));
        let sn = norm_snapshot(&r.w);
        if let Some((h0, o0, s0)) = &want {
            if let Some(d) = mdiff(o0, &ob) {
                return fail("order", format!("order of independent builds is observable: {d}\nfirst order:\n{}\nsecond order:\n{}", show(h0), show(&hh)));
            }
            if *s0 != sn {
                let d: Vec<_> = sn.iter().filter(|x| s0.get(x.0) != Some(x.1)).map(|x| x.0.clone()).collect();
                return fail("order", format!("order of independent builds shows in storage: {d:?}\nfirst order:\n{}\nsecond order:\n{}", show(h0), show(&hh)));
            }
        } else {
            o.nontrivial(&sn);
            want = Some((hh, ob, sn));
        }
    }
    Ok(())
}
fn independent(progs: &[Prog]) -> bool {
    let sig = |ps: &[Prog]| -> Option<String> {
        let mut sm = SM::default();
        for p in ps {
            sm.build(p).ok()?;
        }
        Some(format!("{:?}", (&sm.hist, &sm.env.names, &sm.core_obj, &sm.core_bundle, &sm.finals)))
    };
    let ps = permutations(progs);
    let Some(first) = sig(&ps[0]) else { return false };
    ps[1..].iter().all(|p| sig(p) == Some(first.clone()))
}
fn p14(ctx: &Ctx) {
    run_all(ctx, p14_check);
    // searchable bundles: rebuilding does not change what a search finds nor how it ranks it
    let metas = meta_pool();
    let mut cases = vec![];
    for s in sequences(&(0..metas.len()).collect::<Vec<_>>(), if ctx.quick() { 2 } else { 3 }) {
        cases.push(Hist { progs: s.iter().map(|i| metas[*i].clone()).collect() });
    }
    ctx.run("searchable", &cases, |h, o| with(h, p14_check(h, o)));
    let pool = pool();
    let mut cases = vec![];
    let n = pool.len();
    for i in 0..n {
        for j in i + 1..n {
            let two = vec![pool[i].clone(), pool[j].clone()];
            if independent(&two) {
                cases.push(Hist { progs: two.clone() });
            }
            for k in j + 1..n {
                if ctx.quick() && (i + j + k) % 4 != 0 {
                    continue;
                }
                let mut three = two.clone();
                three.push(pool[k].clone());
                if independent(&three) {
                    cases.push(Hist { progs: three });
                }
            }
        }
    }
    ctx.run("orders", &cases, |h, o| p14_orders(h, o));
}

// ------------------------------------------------------------------ P16
pub static P16: Entry = (
    "P16",
    "model_checking",
    "every sequence of builds from a pool of bundles that refer to each other (chains, diamonds, arrays, links) up to the stated depth; every bundle fetched with and without dependencies and compared with the closure computed by the reference model",
    &[],
    p16,
    |_, c| p16_check(&parse_case(c), &mut Obs::default()),
);
fn p16_check(h: &Hist, o: &mut Obs) -> Res {
    let r = run_hist(h, o)?;
    for (id, e) in &r.sm.bundles {
        o.evals += 1;
        let g = guard(|| r.w.f.get_oca_bundle(sai(id), true))?;
        match (r.sm.closure(id), g) {
            (Ok(want), Ok(g)) => {
                let got: BTreeSet<String> = g.dependencies.iter().map(said_of).collect();
                if encs(&g.bundle) != *e {
                    return fail("bundle", format!("{id}: another bundle is returned"));
                }
                let j = serde_json::to_value(&g).unwrap();
                let listed: Vec<&str> = j["dependencies"].as_array().map(|a| a.iter().map(|d| d["d"].as_str().unwrap_or("?")).collect()).unwrap_or_default();
                if j["bundle"]["d"].as_str() != Some(id.as_str()) || listed != g.dependencies.iter().map(said_of).collect::<Vec<_>>() {
                    return fail("json", format!("{id}: its JSON form lists {listed:?}"));
                }
                if got != want {
                    return fail("closure", format!("{id}: dependencies expected {want:?}, got {got:?}"));
                }
                for d in &g.dependencies {
                    if encs(d) != r.sm.bundles[&said_of(d)] {
                        return fail("dependency", format!("{id}: dependency {} is not what was built", said_of(d)));
                    }
                }
                o.nontrivial(&want);
            }
            (Err(_), Err(_)) => {}
            (Ok(w), Err(x)) => return fail("closure", format!("{id}: expected dependencies {w:?}, got error {x:?}")),
            (Err(m), Ok(_)) => return fail("missing", format!("{id}: dependency {m} is missing, yet no error")),
        }
        let g = guard(|| r.w.f.get_oca_bundle(sai(id), false))?.map_err(|x| mism(format!("{x:?}")))?;
        if !g.dependencies.is_empty() || encs(&g.bundle) != *e {
            return fail("without", format!("{id}: fetched without dependencies it is not just the bundle"));
        }
    }
    Ok(())
}
fn p16(ctx: &Ctx) {
    // 0 and 1 are leaves; later ones refer to earlier ones in every way
    let mut raw: Vec<Prog> = vec![
        Prog::new(vec![attr("a", b("Text"))]),
        Prog::named("leaf", vec![attr("b", b("Text"))]),
        Prog::new(vec![attr("r", refs(0))]),
        Prog::new(vec![attr("r", arr(refs(1))), attr("s", b("Text"))]),
        Prog::new(vec![attr("r", arr(arr(refs(2)))), attr("s", refs(3)), link(SAID1, &[("r", "x")])]),
        Prog::new(vec![attr("t", refs(4)), attr("u", refs(0)), attr("v", arr(refn("leaf")))]),
        Prog::new(vec![attr("w", refs(5)), attr("x", refs(SAID1.len())), rem(&["x"])]),
        from(2, vec![attr("z", refs(1))]),
        from(5, vec![rem(&["t", "v"])]),
        Prog::new(vec![attr("m", arr(arr(arr(refs(5))))), attr("n", refs(2))]),
    ];
    raw[6].cmds[1] = attr("x", Ty::Refs(SAID1.into()));
    let mut ids: Vec<String> = vec![];
    let mut sm = SM::default();
    for p in &raw {
        ids.push(sm.build(&subst(p, &ids)).unwrap().said);
    }
    let pool: Vec<Prog> = raw.iter().map(|p| subst(p, &ids)).collect();
    // every subset of the pool built in order (some with missing dependencies), and all short sequences
    let mut cases = vec![];
    for mask in 1u32..(1 << pool.len()) {
        if ctx.quick() && mask.count_ones() > 4 && mask.count_ones() < 9 {
            continue;
        }
        let ps: Vec<Prog> = (0..pool.len()).filter(|i| mask & (1 << i) != 0).map(|i| pool[i].clone()).collect();
        let mut sm = SM::default();
        if ps.iter().all(|p| sm.build(p).is_ok()) {
            cases.push(Hist { progs: ps });
        }
    }
    let all: Vec<usize> = (0..pool.len()).collect();
    cases.extend(paths(&pool, &all, if ctx.quick() { 2 } else { 3 }));
    let mut rev: Vec<Prog> = pool[..7].to_vec();
    rev.reverse();
    cases.push(Hist { progs: rev.into_iter().filter(|p| !p.text().contains("refn")).collect() });
    ctx.run("dependencies", &cases, |h, o| with(h, p16_check(h, o)));
    // a bundle with n dependencies, each with one of its own; chains of n; layers of two that refer to both below
    let sizes: Vec<usize> = if ctx.quick() { (1..=12).chain([16, 17, 33, 65]).collect() } else { (1..=40).chain([64, 65, 100, 129, 257]).collect() };
    let mut cases = vec![];
    for &n in &sizes {
        for shape in 0..4 {
            let mut sm = SM::default();
            let mut progs: Vec<Prog> = vec![];
            let mut add = |c: Vec<Cmd>| {
                let p = Prog::new(c);
                let id = sm.build(&p).unwrap().said;
                progs.push(p);
                id
            };
            match shape {
                0 | 1 => {
                    let mut ids = vec![];
                    for i in 0..n {
                        let leaf = add(vec![attr(&format!("leaf{i}"), b("Text"))]);
                        ids.push(add(vec![attr(&format!("r{i}"), if shape == 0 { Ty::Refs(leaf) } else { arr(Ty::Refs(leaf)) })]));
                    }
                    let all = |rev: bool| Cmd::AddAttr((0..n).map(|i| if rev { n - 1 - i } else { i }).map(|i| (format!("d{i}"), Ty::Refs(ids[i].clone()))).collect());
                    let top = add(vec![all(false)]);
                    add(vec![attr("top", Ty::Refs(top)), all(true)]);
                }
                2 => {
                    let mut last = add(vec![attr("a", b("Text"))]);
                    for i in 0..n {
                        last = add(vec![attr(&format!("r{i}"), Ty::Refs(last))]);
                    }
                }
                _ => {
                    // what is below is visited once for every way down
                    let mut two = [add(vec![attr("a", b("Text"))]), add(vec![attr("b", b("Text"))])];
                    for i in 0..n.min(6) {
                        two = ["l", "r"].map(|x| add(vec![attr(&format!("{x}{i}"), Ty::Refs(two[0].clone())), attr("y", arr(Ty::Refs(two[1].clone())))]));
                    }
                }
            }
            cases.push(Hist { progs });
        }
    }
    ctx.note("largest_number_of_dependencies", sizes.iter().max().map(|n| 2 * n));
    cases.reverse();
    ctx.run("sizes", &cases, |h, o| with(h, p16_check(h, o)));
}

// ------------------------------------------------------------------ P25
pub static P25: Entry = (
    "P25",
    "model_checking",
    "every sequence of builds from the pool up to the stated depth; every record of the core model compared with the reference model, every parent chain followed to its end, under several hash-map orders",
    &["records are read in the stored form the facade writes: length-prefixed identifiers"],
    p25,
    |st, c| if st == "orders" { p25_orders(&parse_case(c), &mut Obs::default()) } else { p25_check(&parse_case(c), &mut Obs::default()) },
);
fn fields(v: &[u8]) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    let mut at = 0;
    while at < v.len() {
        let e = at + 1 + v[at] as usize;
        if e > v.len() {
            return fail("record", format!("malformed record {v:?}"));
        }
        out.push(String::from_utf8_lossy(&v[at + 1..e]).to_string());
        at = e;
    }
    Ok(out)
}
fn core_records(w: &World) -> BTreeMap<String, Vec<u8>> {
    w.db.get_all(Namespace::CoreModel).unwrap().into_iter().map(|(k, v)| (k.strip_prefix("core_model.").unwrap_or(&k).to_string(), v)).collect()
}
fn p25_check(h: &Hist, o: &mut Obs) -> Res {
    let mut r = Run::new();
    o.traces += 1;
    for p in &h.progs {
        r.step(p, o)?;
    }
    let sm = &r.sm;
    let rec = core_records(&r.w);
    o.evals += rec.len() as u64;
    o.nontrivial(&rec);
    let parent = |s: &str| if s.is_empty() { None } else { Some(s.to_string()) };
    for (d, j) in &sm.core_cmd {
        match rec.get(d) {
            Some(v) if v == j.as_bytes() => {}
            x => return fail("command", format!("command {j} is not stored under its digest {d}: {:?}", x.map(|v| String::from_utf8_lossy(v).to_string()))),
        }
    }
    for (id, (par, cb, ovs)) in &sm.core_bundle {
        let f = fields(rec.get(id).ok_or_else(|| mism(format!("no record of bundle {id}")))?)?;
        let mut want = vec![par.clone().unwrap_or_default(), cb.clone()];
        want.extend(ovs.iter().cloned());
        let mut got = f.clone();
        got[2.min(f.len())..].sort();
        if got != want {
            return fail("bundle", format!("record of bundle {id}: expected parent, capture base, overlays {want:?}, got {got:?}"));
        }
    }
    for (id, (par, cmd)) in &sm.core_obj {
        let f = fields(rec.get(id).ok_or_else(|| mism(format!("no record of object {id}")))?)?;
        if f != vec![par.clone().unwrap_or_default(), cmd.clone()] {
            return fail("object", format!("record of {} {id}: expected previous version {par:?} and command {}, got {f:?}", sm.objs[id].0, sm.core_cmd[cmd]));
        }
    }
    // nothing else
    for k in rec.keys() {
        if !sm.core_cmd.contains_key(k) && !sm.core_bundle.contains_key(k) && !sm.core_obj.contains_key(k) {
            return fail("extra", format!("record {k} belongs to nothing that was built"));
        }
    }
    // chains end, without gaps, within their kind
    for id in sm.core_bundle.keys().chain(sm.core_obj.keys()) {
        let mut seen = BTreeSet::new();
        let mut at = Some(id.clone());
        while let Some(x) = at {
            if !seen.insert(x.clone()) {
                return fail("cycle", format!("following parents from {id} runs in a circle at {x}"));
            }
            let v = rec.get(&x).ok_or_else(|| mism(format!("following parents from {id}: no record of {x}")))?;
            at = parent(&fields(v)?[0]);
        }
    }
    Ok(())
}
fn p25_orders(h: &Hist, o: &mut Obs) -> Res {
    let mut first: Option<BTreeMap<String, Vec<u8>>> = None;
    for seed in 1..=6u64 {
        o.transitions += h.progs.len() as u64;
        let rec = isolated(seed, || {
            let mut w = World::new();
            for p in &h.progs {
                let _ = w.build(p);
            }
            core_records(&w)
        })?;
        match &first {
            None => first = Some(rec),
            Some(f) if *f != rec => {
                let d: Vec<_> = rec.iter().filter(|x| f.get(x.0) != Some(x.1)).map(|x| x.0).collect();
                return fail("order", format!("records depend on the hash-map order: {d:?}\n{}", show(h)));
            }
            _ => {}
        }
    }
    o.traces += 1;
    Ok(())
}
fn p25(ctx: &Ctx) {
    run_all(ctx, p25_check);
    ctx.run("crowded", &crowded(ctx), |h, o| with(h, p25_check(h, o)));
    let pool = pool();
    let mut cases: Vec<Hist> = paths(&pool, &[1, 3, 12, 13, 9, 15], if ctx.quick() { 1 } else { 2 });
    cases.push(Hist { progs: vec![crate::alpha::full_prog()] });
    // every pair of overlay commands, so that every object has a previous version
    for (x, cmds) in crate::alpha::overlay_cmds("a", "b") {
        for c in &cmds {
            for d in &cmds {
                let _ = x;
                cases.push(Hist { progs: vec![Prog::new(vec![crate::alpha::ab(), c.clone(), d.clone()])] });
            }
        }
    }
    let pairs: Vec<Hist> = cases.iter().filter(|h| h.progs.len() == 1).cloned().collect();
    ctx.run("versions", &pairs, |h, o| with(h, p25_check(h, o)));
    let ord: Vec<Hist> = if ctx.quick() { cases.into_iter().filter(|h| h.progs[0].cmds.len() > 4 || h.progs.len() > 1).collect() } else { cases };
    ctx.run("orders", &ord, p25_orders);
}

// ------------------------------------------------------------------ P15
pub static P15: Entry = (
    "P15",
    "model_checking",
    "every sequence, up to the stated depth, of builds that bind names, rebind them, fail while carrying them, and refer to them (at several array depths and as link target), each compared with the same program with identifiers in place of names; the same programs over external reference tables",
    &[],
    p15,
    |st, c| if st == "external" { p15_external(&parse_case(c), &mut Obs::default()) } else { p15_check(&parse_case(c), &mut Obs::default()) },
);
fn name_pool() -> Vec<Prog> {
    let deep = |n: usize, t: Ty| (0..n).fold(t, |t, _| arr(t));
    vec![
        Prog::named("dog", vec![attr("a", b("Text"))]),
        Prog::named("dog", vec![attr("b", b("Numeric")), label("en", &[("b", "B")])]),
        Prog::named("Dog", vec![attr("c", b("Text"))]),
        Prog::named("dog-2_x", vec![attr("a", b("Text")), class("K")]),
        Prog::new(vec![attr("r", refn("dog"))]),
        Prog::new(vec![attr("r", deep(3, refn("dog"))), attr("s", arr(refn("Dog"))), attr("t", refn("dog"))]),
        Prog::new(vec![attr("x", b("Text")), Cmd::Link(refn("dog"), kv(&[("x", "a")])), Cmd::Link(refn("Dog"), kv(&[("x", "c")]))]),
        // several attributes in one link, between commands of other kinds that refer by name too
        Prog::new(vec![
            attr("x", b("Text")),
            Cmd::AddAttr(vec![("y".into(), refn("dog")), ("z".into(), b("Text"))]),
            Cmd::Link(refn("dog"), kv(&[("x", "a"), ("y", "b"), ("z", "dog")])),
            attr("w", arr(refn("dog"))),
            Cmd::Link(refn("dog"), kv(&[("z", "a"), ("w", "refn")])),
        ]),
        // refers to the name it carries: the earlier bundle of that name
        Prog::named("dog", vec![attr("self", arr(refn("dog")))]),
        Prog::named("cat", vec![attr("d2", refn("dog-2_x")), attr("d", refn("dog"))]),
        Prog::new(vec![attr("r", refn("cat")), Cmd::AddAttr(vec![("p".into(), refn("dog")), ("q".into(), refn("cat"))])]),
        // failing ones that carry a name
        Prog::named("dog", vec![attr("a", b("Text")), attr("a", b("Text"))]),
        Prog::named("cat", vec![attr("a", refn("nowhere"))]),
        Prog::named("Dog", vec![attr("a", b("Text")), Cmd::Link(refn("nowhere"), kv(&[("a", "x")]))]),
        // removed again: the reference still has to be known
        Prog::new(vec![attr("a", b("Text")), attr("r", refn("cat")), rem(&["r"])]),
    ]
}
fn names_of(w: &World) -> Result<BTreeMap<String, String>, Fail> {
    Ok(guard(|| w.f.fetch_all_refs())?.map_err(mism)?.into_iter().collect())
}
fn p15_check(h: &Hist, o: &mut Obs) -> Res {
    o.traces += 1;
    let mut r = Run::new();
    for (i, p) in h.progs.iter().enumerate() {
        let before = r.sm.env.clone();
        r.step(p, o)?;
        o.evals += 1;
        if names_of(&r.w)? != r.sm.env.names {
            return fail("names", format!("after build {i} the names are {:?}, expected {:?}", names_of(&r.w)?, r.sm.env.names));
        }
        o.nontrivial(&format!("{:?}", r.sm.env.names));
        // the same program with identifiers, in a store where the names do not exist
        let mut q = p.clone();
        q.name = None;
        let t: String = q.text();
        let t2 = before.names.iter().fold(t.clone(), |t, (n, s)| {
            t.replace(&format!("refn:{n}]"), &format!("refs:{s}]")).replace(&format!("refn:{n} "), &format!("refs:{s} ")).replace(&format!("refn:{n}\n"), &format!("refs:{s}\n"))
        });
        if t2 != t && !t2.contains("refn:") {
            let mut w2 = World::new();
            let named = r.built.last().unwrap();
            let g = guard(|| w2.build_text(t2.clone()))?.map_err(|e| mism(format!("with identifiers in place of names: {e}\n{t2}")))?;
            if encs(&g) != named.enc {
                return fail("refn", format!("names and identifiers give different bundles: {}\n{t2}", text_diff2(&encs(&g), &named.enc)));
            }
        }
    }
    Ok(())
}
#[derive(Clone, Default)]
struct Ext(BTreeMap<String, String>);
impl oca_rs::facade::build::References for Ext {
    fn find(&self, refn: &str) -> Option<String> {
        self.0.get(refn).cloned()
    }
    fn save(&mut self, refn: &str, value: String) {
        self.0.insert(refn.into(), value);
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExtCase {
    /// what the facade itself knows
    own: Hist,
    /// what is built over the external table
    ext: Vec<Prog>,
}
fn p15_external(c: &ExtCase, o: &mut Obs) -> Res {
    let mut r = run_hist(&c.own, o)?;
    let own_names = names_of(&r.w)?;
    let mut table = Ext::default();
    let mut sm = r.sm.clone();
    sm.env.names.clear();
    for p in &c.ext {
        o.transitions += 1;
        o.evals += 1;
        let before = full_snapshot(&r.w);
        let want = sm.build(p);
        let got = guard(|| r.w.f.validate_ocafile_with_external_references(p.text(), &mut table))?;
        if full_snapshot(&r.w) != before {
            return fail("external", format!("validating with external references writes to the facade\n{}", p.text()));
        }
        match (want, got) {
            (Ok(b), Ok(g)) => {
                if b.enc != encs(&g.oca_bundle) {
                    return fail("external", format!("with external references another bundle is built: {}\n{}", text_diff2(&b.enc, &encs(&g.oca_bundle)), p.text()));
                }
                let s = guard(|| r.w.f.build(&g))?.map_err(|e| mism(ferr(&e)))?;
                if encs(&s) != b.enc {
                    return fail("external", "storing the build changes it");
                }
                let got = guard(|| r.w.f.get_oca_bundle(sai(&b.said), false))?.map_err(|e| mism(format!("{e:?}")))?;
                if encs(&got.bundle) != b.enc {
                    return fail("external", "the stored bundle is not what was built");
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(e)) => return fail("external", format!("rejected: {e:?}\n{}", p.text())),
            (Err(e), Ok(_)) => return fail("external", format!("should fail: {e}\n{}", p.text())),
        }
        if table.0 != sm.env.names {
            return fail("external", format!("external table is {:?}, expected {:?}", table.0, sm.env.names));
        }
        if names_of(&r.w)? != own_names {
            return fail("external", format!("the facade's own names changed to {:?}", names_of(&r.w)?));
        }
        o.nontrivial(&table.0);
    }
    Ok(())
}
fn any_paths(pool: &[Prog], depth: usize) -> Vec<Hist> {
    sequences(&(0..pool.len()).collect::<Vec<_>>(), depth).into_iter().map(|s| Hist { progs: s.iter().map(|i| pool[*i].clone()).collect() }).collect()
}
fn p15(ctx: &Ctx) {
    let pool = name_pool();
    let h: Vec<Hist> = any_paths(&pool, if ctx.quick() { 3 } else { 4 }).into_iter().filter(|h| h.progs.len() > 2 || ctx.quick() || h.progs.len() <= 2).collect();
    ctx.run("names", &h, |h, o| with(h, p15_check(h, o)));
    // names of every shape, next to names easily taken for them
    let chars = ["a", "A", "1", ".", "-", "_", "/", ":", "ż"];
    let mut al: Vec<String> = chars.iter().map(|c| c.to_string()).collect();
    for n in 1..if ctx.quick() { 3 } else { 4 } {
        al = if n == 1 { al } else { al.iter().flat_map(|p| chars.iter().map(move |c| format!("{p}{c}"))).chain(al.clone()).collect::<BTreeSet<_>>().into_iter().collect() };
    }
    al.extend([SAID1, "refn:x", "refs:x", "http://a.b/c", "a/b/c", "x:y:z", "aa", "same.name", "refn", "name"].map(String::from));
    let uses = |x: &str| {
        Prog::new(vec![
            Cmd::AddAttr(vec![("p".into(), refn(x)), ("q".into(), arr(refn(x)))]),
            Cmd::AddAttr(vec![("z".into(), b("Text")), ("r".into(), arr(arr(refn(x))))]),
            Cmd::Link(refn(x), kv(&[("p", "t"), ("z", x)])),
        ])
    };
    let mut hs: Vec<Hist> = vec![];
    for x in &al {
        let tail = |f: fn(&char) -> bool| x.chars().rev().take_while(|c| f(c)).collect::<Vec<_>>().into_iter().rev().collect::<String>();
        let head: String = x.chars().take(1).collect();
        for y in [tail(|c| c.is_alphanumeric()), head, x.to_lowercase(), x.to_uppercase(), format!("{x}/a"), format!("a:{x}"), format!("{x}.")] {
            if y.is_empty() || y == *x {
                continue;
            }
            let one = Prog::named(x, vec![attr("one", b("Text"))]);
            let two = Prog::named(&y, vec![attr("two", b("Text"))]);
            // the other name is known, this one is not
            hs.push(Hist { progs: vec![two.clone(), uses(x)] });
            hs.push(Hist { progs: vec![one, two, uses(x), uses(&y)] });
        }
    }
    ctx.run("aliases", &hs, |h, o| with(h, p15_check(h, o)));
    // many names, and references to each of them
    let mut hs: Vec<Hist> = vec![];
    for n in if ctx.quick() { vec![12, 34, 66, 102, 130, 260] } else { vec![12, 34, 66, 102, 130, 260, 515, 1030] } {
        let mut progs: Vec<Prog> = (0..n).map(|i| Prog::named(&format!("n{i}"), vec![attr(&format!("a{i}"), b("Text"))])).collect();
        progs.push(Prog::new((0..n).map(|i| attr(&format!("r{i}"), if i % 2 == 0 { refn(&format!("n{i}")) } else { arr(refn(&format!("n{i}"))) })).collect()));
        progs.push(uses(&format!("n{n}")));
        progs.push(Prog::named("n0", vec![attr("new", b("Text"))]));
        progs.push(uses("n0"));
        progs.push(uses(&format!("n{}", n - 1)));
        hs.push(Hist { progs });
    }
    ctx.run("many", &hs, |h, o| with(h, p15_check(h, o)));
    let mut cases = vec![];
    for own in any_paths(&pool[..3], 1).into_iter().chain([Hist { progs: vec![] }, Hist { progs: vec![pool[0].clone(), pool[7].clone(), pool[2].clone()] }]) {
        for ext in any_paths(&pool, if ctx.quick() { 2 } else { 3 }) {
            cases.push(ExtCase { own: own.clone(), ext: ext.progs });
        }
    }
    ctx.run("external", &cases, |c, o| p15_external(c, o));
}

// ------------------------------------------------------------------ P19
pub static P19: Entry = (
    "P19",
    "model_checking",
    "every small set of bundles with names and descriptions of every shape, every word against it in every language, every page size; every query text up to the stated length over the special characters of the query language; every page of the listings",
    &["words have three letters or more: the index is built from groups of three characters"],
    p19,
    |st, c| if st == "queries" { p19_query(&parse_case(c), &mut Obs::default()) } else { p19_check(&parse_case(c), &mut Obs::default()) },
);
const SEARCHED: [&str; 15] = ["alpha", "Alpha", "ALPHABET", "common", "dog", "first", "soup", "eng", "pol", "meta", "zzz", "beta", "phab", "żółw", "one"];
fn check_pages(what: &str, want: &BTreeSet<String>, limits: &[usize], page: &dyn Fn(usize, usize) -> Result<(Vec<String>, usize, usize), Fail>) -> Res {
    let n = want.len();
    for &l in limits {
        let pages = if l == 0 { 1 } else { n.div_ceil(l) };
        let mut all: Vec<String> = vec![];
        for p in 1..=pages + 1 {
            let (r, total, pg) = page(l, p)?;
            if total != n || pg != p {
                return fail("total", format!("{what}: page {p} of size {l} reports total {total} and page {pg}, expected {n} and {p}"));
            }
            let expect = if l == 0 || p > pages { 0 } else { l.min(n - (p - 1) * l) };
            if r.len() != expect {
                return fail("page", format!("{what}: page {p} of size {l} has {} results, expected {expect} of {n}", r.len()));
            }
            all.extend(r);
        }
        if l > 0 {
            let set: BTreeSet<String> = all.iter().cloned().collect();
            if set != *want || all.len() != n {
                return fail("results", format!("{what}: pages of size {l} give {all:?}, expected {want:?}"));
            }
        }
    }
    Ok(())
}
fn listings(w: &World, sm: &SM, limits: &[usize]) -> Res {
    let want: BTreeSet<String> = sm.finals.iter().map(|s| sm.bundles[s].clone()).collect();
    check_pages("listing of bundles", &want, limits, &|l, p| {
        let r = guard(|| w.f.fetch_all_oca_bundle(l, p))?.map_err(|e| mism(format!("{e:?}")))?;
        Ok((r.records.iter().map(encs).collect(), r.metadata.total, r.metadata.page))
    })?;
    let want: BTreeSet<String> = sm.final_cbs.iter().map(|s| sm.objs[s].1.clone()).collect();
    check_pages("listing of capture bases", &want, limits, &|l, p| {
        let r = guard(|| w.f.fetch_all_capture_base(l, p))?.map_err(|e| mism(format!("{e:?}")))?;
        Ok((r.records.iter().map(|c| serde_json::to_string(c).unwrap()).collect(), r.metadata.total, r.metadata.page))
    })
}
fn search_exact(w: &World, sm: &SM, word: &str, limits: &[usize]) -> Res {
    let want = sm.search(word);
    for lang in [None, isolang::Language::from_639_1("pl")] {
        check_pages(&format!("search for {word:?} in {lang:?}"), &want, limits, &|l, p| {
            let r = guard(|| w.f.search_oca_bundle(lang, word.to_string(), l, p))?;
            for x in &r.records {
                if encs(&x.oca_bundle) != sm.bundles[&said_of(&x.oca_bundle)] {
                    return fail("record", "a search result is not the stored bundle");
                }
            }
            let ids: Vec<String> = r.records.iter().map(|x| said_of(&x.oca_bundle)).collect();
            let j = serde_json::to_value(&r).unwrap();
            let listed: Vec<&str> = j["r"].as_array().map(|a| a.iter().map(|x| x["oca_bundle"]["d"].as_str().unwrap_or("?")).collect()).unwrap_or_default();
            if listed != ids || j["m"]["total"] != r.metadata.total || j["m"]["page"] != r.metadata.page {
                return fail("json", format!("the JSON form of the results {ids:?} lists {listed:?}"));
            }
            Ok((ids, r.metadata.total, r.metadata.page))
        })?;
        // best first, on a page and from page to page
        for l in limits.iter().filter(|l| **l > 0) {
            let mut scores: Vec<f32> = vec![];
            for p in 1..=want.len() / l + 1 {
                scores.extend(guard(|| w.f.search_oca_bundle(lang, word.to_string(), *l, p))?.records.iter().map(|x| x.metadata.score));
            }
            if scores.windows(2).any(|w| w[0].total_cmp(&w[1]).is_lt()) {
                return fail("order", format!("search for {word:?} in {lang:?}, pages of {l}: scores {scores:?}"));
            }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SearchCase {
    h: Hist,
    words: Vec<String>,
    limits: Vec<usize>,
}
fn p19_check(c: &SearchCase, o: &mut Obs) -> Res {
    let r = run_hist(&c.h, o)?;
    let f = |x: Res| with(&c.h, x);
    f(listings(&r.w, &r.sm, &c.limits))?;
    for w in &c.words {
        o.evals += 1;
        if !r.sm.search(w).is_empty() {
            o.nontrivial(&(w, &r.sm.finals));
        }
        f(search_exact(&r.w, &r.sm, w, &c.limits))?;
    }
    // any page and size is answered
    for l in [0usize, 1, usize::MAX, i64::MAX as usize] {
        for p in [0usize, 1, usize::MAX] {
            f(guard(|| {
                let _ = r.w.f.fetch_all_oca_bundle(l, p);
                let _ = r.w.f.fetch_all_capture_base(l, p);
                let _ = r.w.f.search_oca_bundle(None, "alpha".into(), l, p);
            })
            .map_err(|e| mism(format!("page {p} of size {l}: {e}"))))?;
        }
    }
    f(listings(&r.w, &r.sm, &[1000]))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct QueryCase {
    queries: Vec<String>,
}
fn p19_query(c: &QueryCase, o: &mut Obs) -> Res {
    let h = Hist { progs: meta_pool().into_iter().take(8).collect() };
    let r = run_hist(&h, o)?;
    for q in &c.queries {
        o.evals += 1;
        o.transitions += 1;
        o.nontrivial(q);
        for lang in [None, isolang::Language::from_639_1("en")] {
            let x = guard(|| r.w.f.search_oca_bundle(lang, q.clone(), 1000, 1)).map_err(|e| mism(format!("searching for {q:?}: {e}")))?;
            let set: BTreeSet<String> = x.records.iter().map(|x| said_of(&x.oca_bundle)).collect();
            if set.len() != x.records.len() || x.metadata.total != set.len() || !set.iter().all(|s| r.sm.meta.keys().any(|m| m.0 == *s)) {
                return fail("query", format!("searching for {q:?}: {} records, {} different, total {}", x.records.len(), set.len(), x.metadata.total));
            }
        }
    }
    // and the index still works
    search_exact(&r.w, &r.sm, "alpha", &[2])
}
fn meta_pool() -> Vec<Prog> {
    let p = |i: usize, m: Vec<Cmd>| {
        let mut v = vec![attr(&format!("a{}", i % 3), b("Text"))];
        v.extend(m);
        Prog::new(v)
    };
    vec![
        p(0, vec![meta("en", &[("name", "Alpha first"), ("description", "common words")])]),
        p(0, vec![meta("en", &[("name", "alphabet soup")]), meta("pl", &[("description", "alpha common one two")])]),
        p(1, vec![meta("pl", &[("name", "beta"), ("description", "a common Dog, the first dog of the dogs; alpha:beta")])]),
        p(1, vec![meta("en", &[("name", "regex (a[b*c+?.d{2}|^$ dog"), ("description", "back\\\\slash ...common... <mark>one</mark>")])]),
        p(2, vec![meta("fr", &[("name", "zażółć Żółw"), ("description", "meta_overlay: alpha")])]),
        p(2, vec![meta("en", &[("description", "only a description with common dog")])]),
        p(2, vec![label("en", &[("a2", "alpha common dog")])]),
        p(0, vec![meta("en", &[("author", "alpha common dog")])]),
        p(1, vec![meta("en", &[("name", "one\ttab\\nline alpha"), ("description", "OR AND NOT NEAR \\\"quoted dog\\\" 'x'")]), meta("pl", &[("name", "pol soup")]), meta("fr", &[("name", "fra soup first")])]),
        p(0, vec![meta("en", &[("name", "x"), ("description", &"long text about nothing in particular, ".repeat(6))]), meta("pl", &[("name", &format!("{} alpha {}", "filler words before ".repeat(8), "and words after ".repeat(8)))])]),
    ]
}
fn p19(ctx: &Ctx) {
    let pool = meta_pool();
    let words: Vec<String> = SEARCHED.iter().map(|s| s.to_string()).collect();
    let mut cases = vec![];
    for mask in 0u32..(1 << pool.len()) {
        let k = mask.count_ones() as usize;
        if ctx.quick() && !(k <= 2 || k == pool.len() || (k == 5 && mask % 7 == 0)) {
            continue;
        }
        if !ctx.quick() && !(k <= 4 || k >= 8) {
            continue;
        }
        let ps: Vec<Prog> = (0..pool.len()).filter(|i| mask & (1 << i) != 0).map(|i| pool[i].clone()).collect();
        let n = ps.len();
        cases.push(SearchCase { h: Hist { progs: ps }, words: words.clone(), limits: if ctx.quick() && n < 4 { vec![1, n + 1] } else { (0..=n + 1).collect() } });
    }
    for h in hists(ctx).into_iter().filter(|h| !ctx.quick() || h.progs.len() < 3 || h.progs.len() > 10) {
        cases.push(SearchCase { h, words: vec!["alpha".into(), "common".into(), "dog".into(), "soup".into(), "worden".into(), "wordpl".into(), "wordfr".into(), "wordde".into(), "wordja".into()], limits: vec![1, 2, 9] });
    }
    ctx.run("search", &cases, |c, o| p19_check(c, o));
    // every part of every word of every indexed text, whatever the case, and the words the query language knows
    let mut parts: BTreeSet<String> = ["AND", "NOT", "NEAR", "and", "not", "near", "And", "rowid", "rank", "name", "Name", "description", "language", "code", "eng", "POL", "fra", "deu", "oca", "said", "bundle", "fts", "select", "delete", "null", "mark", "MATCH"].map(String::from).into_iter().collect();
    for m in pool.iter().flat_map(|p| &p.cmds) {
        let Cmd::Meta(_, kvs) = m else { continue };
        for w in kvs.iter().flat_map(|x| x.1.split(|c: char| !c.is_alphabetic())).filter(|w| w.chars().count() >= 3) {
            let c: Vec<char> = w.chars().collect();
            for i in 0..c.len() {
                for j in i + 3..=c.len() {
                    if ctx.quick() && j - i > 4 && j - i != c.len() {
                        continue;
                    }
                    let w: String = c[i..j].iter().collect();
                    parts.extend([w.to_lowercase(), w.to_uppercase(), w.clone(), w + "q"]);
                }
            }
        }
    }
    parts.retain(|w| w.chars().all(|c| c.is_alphabetic()));
    let parts: Vec<String> = parts.into_iter().collect();
    ctx.note("words_searched", parts.len());
    let cases: Vec<SearchCase> = parts.chunks(24).map(|c| SearchCase { h: Hist { progs: pool.clone() }, words: c.to_vec(), limits: vec![3, 100] }).collect();
    ctx.run("words", &cases, |c, o| p19_check(c, o));
    // many bundles, all of which one word finds
    let mut cases = vec![];
    for n in if ctx.quick() { vec![101, 260] } else { vec![51, 101, 129, 257, 513, 1030] } {
        let progs: Vec<Prog> = (0..n).map(|i| Prog::new(vec![attr(&format!("a{i}"), b("Text")), meta("en", &[("name", &format!("common {i:04}"))])])).collect();
        for limits in [vec![(n / 30).max(7)], vec![50, n + 1], vec![100, n - 1], vec![n]] {
            cases.push(SearchCase { h: Hist { progs: progs.clone() }, words: vec!["common".into(), "zzz".into()], limits });
        }
    }
    // the word at the end of a long name or description, in one of many languages
    for len in [60usize, 120, 250, 500, 1000, 2000, 5000, 20_000, 70_000] {
        // a word found in thousands of places takes the index seconds: few of them are asked for
        let pad: String = (0..len / 8).map(|i| format!("hay{i:04} ")).collect();
        let p = |m: &[(&str, &str)]| Prog::new(vec![attr("a", b("Text")), meta("en", m)]);
        cases.push(SearchCase {
            h: Hist {
                progs: vec![
                    p(&[("name", &format!("{pad}needle"))]),
                    p(&[("description", &format!("{pad}needle"))]),
                    p(&[("name", &format!("{pad}one needle")), ("description", &format!("needle {pad}pin {pad}"))]),
                    p(&[("name", &format!("needle {pad}")), ("description", &format!("{pad}pin"))]),
                    p(&[("description", &pad)]),
                ],
            },
            words: ["needle", "pin", "hay0003", "zzz"].map(String::from).to_vec(),
            limits: vec![1, 3, 9],
        });
    }
    for n in if ctx.quick() { vec![2usize, 5, 9, 17, 33, 60] } else { vec![2, 5, 9, 17, 33, 60, 120, 180] } {
        let metas = |word: usize| Prog::new(std::iter::once(attr("a", b("Text"))).chain((0..n).map(|i| meta(&languages()[i], &[("name", if i == word { "needle" } else { "hay" })]))).collect());
        cases.push(SearchCase { h: Hist { progs: vec![metas(0), metas(n / 2), metas(n - 1), metas(n)] }, words: ["needle", "hay"].map(String::from).to_vec(), limits: vec![1, 3] });
    }
    cases.sort_by_key(|c| std::cmp::Reverse(c.h.progs.len()));
    ctx.run("many", &cases, |c, o| p19_check(c, o));
    let alpha = ["\"", "*", "(", ")", ":", "^", "-", "+", "{", "}", ",", ".", "'", "\\", "\0", " ", "é", "alpha", "AND", "OR", "NOT", "NEAR", "name", "[", "|", "%"];
    let qs: Vec<String> = std::iter::once(String::new()).chain(sequences(&alpha, if ctx.quick() { 2 } else { 3 }).into_iter().map(|s| s.concat())).collect();
    let cases: Vec<QueryCase> = qs.chunks(40).map(|c| QueryCase { queries: c.to_vec() }).collect();
    ctx.run("queries", &cases, |c, o| p19_query(c, o));
}
