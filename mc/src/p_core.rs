//! P01-P06: what a program builds.
use crate::alpha::*;
use crate::lang::*;
use crate::rt::*;
use crate::sys::*;
use crate::Entry;
use serde_json::Value;

// ------------------------------------------------------------------ P04
pub static P04: Entry = (
    "P04",
    "model_checking",
    "all command sequences over the alphabets up to the stated depth; a trace is non-trivial when its final state differs from the state without its last command",
    &["the reference model in lang.rs states the intended meaning of each command"],
    p04,
    p04_replay,
);
fn p04_check(p: &Prog, o: &mut Obs) -> Res {
    o.traces += 1;
    let want = match MState::run(p, &Env::default()) {
        Ok(s) => s,
        Err(_) => return Ok(()), // acceptance is P05
    };
    o.transitions += want.len() as u64;
    for s in &want {
        o.state(s);
    }
    let got = build_free(p.text()).map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}\n{}", p.text()) })?;
    let (w, g) = (want.last().unwrap().json(), content(&got));
    if w != g {
        return fail("content", format!("{}\n{}", diff(&w, &g), p.text()));
    }
    Ok(())
}
fn p04(ctx: &Ctx) {
    let mut cases = vec![];
    for s in sequences(&broad(), 2) {
        let mut v = vec![ab()];
        v.extend(s);
        cases.push(Prog::new(v));
    }
    cases.extend(wide_progs());
    ctx.run("seq2", &cases, p04_check);
    // names that differ only in case, by a suffix or in a separator stay apart
    let mut near = vec![];
    let pairs = [("a", "A"), ("a", "aa"), ("Ab", "aB"), ("a-b", "a_b"), ("a.b", "a"), ("a1", "a01")];
    for (x, y) in pairs.iter().take(if ctx.quick() { 3 } else { 6 }) {
        for s in sequences(&near_cmds(x, y), 2) {
            let mut v = vec![Cmd::AddAttr(vec![(x.to_string(), b("Text")), (y.to_string(), b("Numeric"))])];
            v.extend(s);
            near.push(Prog::new(v));
        }
    }
    ctx.run("near", &near, p04_check);
    // texts are kept as they are written, and texts that look alike stay apart
    let mut texts: Vec<Prog> = values().iter().flat_map(|v| text_progs(v, v)).collect();
    texts.extend(confusable().iter().flat_map(|(v, w)| text_progs(v, w)));
    ctx.run("texts", &texts, p04_check);
    ctx.run("names", &odd_names(ctx), p04_check);
    ctx.run("sizes", &sizes(ctx), p04_check);
    ctx.run("large", &large(ctx), p04_check);
    // every reachable state of the implementation under sub-alphabets, to a fixpoint
    let kinds = overlay_cmds("a", "b");
    let mut subs: Vec<Vec<Cmd>> = vec![];
    let st = || vec![attr("a", b("Text")), attr("b", b("Numeric")), rem(&["a"]), rem(&["b"]), rem(&["a", "b"])];
    let cl = || vec![class("C"), class("D"), Cmd::RemClass];
    for i in 0..kinds.len() {
        let mut v = st();
        v.extend(cl());
        v.extend(kinds[i].1.clone());
        v.extend(overlay_cmds("b", "a")[i].1.clone());
        subs.push(v);
        for j in i + 1..kinds.len() {
            let mut v = st();
            v.extend(kinds[i].1.iter().take(if ctx.quick() { 2 } else { 4 }).cloned());
            v.extend(kinds[j].1.iter().take(if ctx.quick() { 2 } else { 4 }).cloned());
            subs.push(v);
            if !ctx.quick() {
                for k in j + 1..kinds.len() {
                    let mut v = st();
                    for x in [i, j, k] {
                        v.extend(kinds[x].1.iter().take(2).cloned());
                    }
                    subs.push(v);
                }
            }
        }
    }
    ctx.run("fixpoint", &subs, p04_fixpoint);
    // conditions that name several attributes, in every order and multiplicity
    let mut conds = vec![];
    let names = ["a", "b", "c", "b.c-d_1"];
    for n in 1..=3usize {
        for i in 0..names.len().pow(n as u32) {
            let mut k = i;
            let mut t = vec![];
            for _ in 0..n {
                t.push(format!("${{{}}}", names[k % names.len()]));
                k /= names.len();
            }
            conds.push(t.join(" + ") + " > 0");
        }
    }
    conds.push("${a}${b}${a}".into());
    conds.push("no names".into());
    conds.push("$a {b} ${a".into());
    let mut cc = vec![];
    for c in &conds {
        let at = Cmd::AddAttr(names.iter().chain(["x", "y"].iter()).map(|n| (n.to_string(), b("Numeric"))).collect());
        cc.push(Prog::new(vec![at.clone(), over(K::Cond, &[("x", c)])]));
        cc.push(Prog::new(vec![at, over(K::Cond, &[("x", "${c} > 1 and ${a} < ${c}"), ("y", c)]), over(K::Cond, &[("x", c)])]));
    }
    ctx.run("conditions", &cc, p04_check);
    // every pair of values of each kind on three attributes: (who, who) combinations
    let mut deep = vec![];
    if !ctx.quick() {
        for s in sequences(&broad(), 3) {
            if s.len() == 3 {
                let mut v = vec![ab()];
                v.extend(s);
                deep.push(Prog::new(v));
            }
        }
    } else {
        let mut r = reps();
        r.extend([rem(&["a"]), attr("a", b("Boolean")), rem(&["b"])]);
        for s in sequences(&r, 3) {
            let mut v = vec![ab()];
            v.extend(s);
            deep.push(Prog::new(v));
        }
    }
    ctx.run("seq3", &deep, p04_check);
}
/// Breadth-first search over the states apply_command reaches, each compared with the model.
fn p04_fixpoint(al: &Vec<Cmd>, o: &mut Obs) -> Res {
    use oca_bundle_semantics::build::apply_command;
    use oca_bundle_semantics::state::oca::OCABox;
    let parse = |c: &Cmd| {
        let pre = match c {
            Cmd::RemAttr(l) => Prog::new(vec![Cmd::AddAttr(l.iter().map(|n| (n.clone(), b("Text"))).collect())]).text(),
            Cmd::RemClass => "ADD CLASSIFICATION x\n".into(),
            _ => String::new(),
        };
        oca_file_semantics::ocafile::parse_from_string(pre + &c.text() + "\n").map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}: {}", c.text()) }).map(|a| a.commands.last().unwrap().clone())
    };
    let cmds: Vec<_> = al.iter().map(parse).collect::<Result<_, _>>()?;
    let key = |bx: &OCABox| {
        let a: std::collections::BTreeMap<_, _> = bx.attributes.iter().map(|(k, v)| (k.clone(), canon(&serde_json::to_value(v).unwrap()).to_string())).collect();
        let m: std::collections::BTreeMap<_, _> = bx.meta.iter().flatten().map(|(l, m)| (l.to_639_3(), m.iter().collect::<std::collections::BTreeMap<_, _>>())).collect();
        format!("{a:?} {m:?} {:?}", bx.classification)
    };
    let mut seen = std::collections::HashSet::new();
    let mut queue: std::collections::VecDeque<(MState, OCABox, Vec<usize>)> = Default::default();
    queue.push_back((MState::default(), OCABox::new(), vec![]));
    o.traces += 1;
    while let Some((m, bx, path)) = queue.pop_front() {
        if seen.len() > 60_000 {
            return fail("bound", "state bound exceeded");
        }
        for (i, c) in al.iter().enumerate() {
            let mut m2 = m.clone();
            let want = m2.apply(c, &Env::default());
            let structural = matches!(c, Cmd::AddAttr(_) | Cmd::RemAttr(_) | Cmd::RemClass);
            if want.is_err() && structural {
                continue; // the parser's validator rejects these: P05
            }
            o.transitions += 1;
            let got = apply_command(Some(bx.clone()), cmds[i].clone());
            let mut p = path.clone();
            p.push(i);
            let trail = || p.iter().map(|i| al[*i].text()).collect::<Vec<_>>().join("\n");
            match (want, got) {
                (Err(_), Err(_)) => {}
                (Err(e), Ok(_)) => return fail("accepted", format!("{e}\n{}", trail())),
                (Ok(_), Err(e)) => return fail("rejected", format!("{e:?}\n{}", trail())),
                (Ok(_), Ok(mut b2)) => {
                    let bundle = b2.generate_bundle();
                    let (w, g) = (m2.json(), content(&bundle));
                    if w != g {
                        return fail("content", format!("{}\n{}", diff(&w, &g), trail()));
                    }
                    o.evals += 1;
                    let k = h64(&(&m2, key(&b2), g.to_string()));
                    o.states.insert(k);
                    if seen.insert(k) {
                        o.nontrivial(&k);
                        queue.push_back((m2, b2, p));
                    }
                }
            }
        }
    }
    Ok(())
}
fn p04_replay(st: &str, c: &Value) -> Res {
    if st == "fixpoint" {
        return p04_fixpoint(&parse_case(c), &mut Obs::default());
    }
    p04_check(&parse_case(c), &mut Obs::default())
}

// ------------------------------------------------------------------ P01
pub static P01: Entry = (
    "P01",
    "model_checking",
    "every program of the family is built under every enumerated hash seed (one fresh thread each); states are (program, observed overlay order) pairs; a case is non-trivial when at least two different internal orders were really observed for it",
    &["std HashMap takes its keys from getrandom(2), which the harness interposes"],
    p01,
    |_, c| p01_check(&parse_case::<(Prog, u64, u64)>(c), &mut Obs::default()),
);
fn fingerprint(text: &str) -> Result<(String, String), String> {
    let mut w = World::new();
    let b = w.build_text(text.to_string())?;
    let mut s = encs(&b);
    s += "\n";
    s += &idents(&b).join(",");
    s += &serde_json::to_string(&b.capture_base).unwrap();
    let mut ov: Vec<String> = b.overlays.iter().map(|o| serde_json::to_string(o).unwrap()).collect();
    let order = b.overlays.iter().map(|o| format!("{}{:?}", o.overlay_type(), o.language())).collect::<Vec<_>>().join(",");
    ov.sort();
    s += &ov.join("\n");
    // the free function and every stored intermediate bundle
    let f = build_free(text.to_string());
    s += &f.map(|b| encs(&b)).unwrap_or_else(|e| e);
    for ((ns, k), v) in w.cache.snapshot() {
        s += &format!("{ns}/{k}={}\n", String::from_utf8_lossy(&v));
    }
    Ok((s, order))
}
fn p01_check(c: &(Prog, u64, u64), o: &mut Obs) -> Res {
    let (p, seeds, from) = c;
    let text = p.text();
    let mut first: Option<String> = None;
    let mut orders = std::collections::BTreeSet::new();
    // every shard also runs seed 0, so that shards agree with one another
    for s in std::iter::once(0).chain(*from + 1..*from + *seeds + 1) {
        o.traces += 1;
        let r = isolated(s, || fingerprint(&text))?;
        let (fp, ord) = match r {
            Ok(x) => x,
            Err(e) => (format!("ERR {e}"), String::new()),
        };
        o.state(&(&text, &ord));
        o.transitions += p.cmds.len() as u64;
        orders.insert(ord);
        match &first {
            None => first = Some(fp),
            Some(f) if *f != fp => {
                let at = f.bytes().zip(fp.bytes()).position(|(a, b)| a != b).unwrap_or(f.len().min(fp.len()));
                let sl = |s: &str| s.chars().skip(at.saturating_sub(60)).take(200).collect::<String>();
                return fail("hash-order", format!("hash seed 0 and {s} give different results\n{text}\n{}\n{}", sl(f), sl(&fp)));
            }
            _ => {}
        }
    }
    if orders.len() > 1 {
        o.nontrivial(&text);
    }
    Ok(())
}
fn p01(ctx: &Ctx) {
    let mut cases: Vec<(Prog, u64, u64)> = vec![];
    let (s_big, s_seq) = if ctx.quick() { (96, 6) } else { (512, 24) };
    // how many iteration orders of a 4-key map the enumerated seeds reach
    let mut perms = std::collections::BTreeSet::new();
    for s in 0..s_big {
        perms.insert(
            isolated(s, || {
                let m: std::collections::HashMap<String, u8> = (0..4).map(|i| (format!("k{i}"), i)).collect();
                m.values().copied().collect::<Vec<u8>>()
            })
            .unwrap(),
        );
    }
    ctx.note("orders_of_a_4_key_map_reached_of_24", perms.len());
    let mut shards = |p: Prog| {
        for k in 0..8 {
            cases.push((p.clone(), s_big / 8, k * (s_big / 8)));
        }
    };
    shards(full_prog());
    // many languages, attributes, links and frames at once
    let names = ["a", "b", "c", "d", "e", "f"];
    let wide = |k: usize| {
        let mut v = vec![Cmd::AddAttr(names.iter().map(|n| (n.to_string(), b("Text"))).collect())];
        let all = |suffix: &str| -> KV { names.iter().map(|n| (n.to_string(), format!("{n}{suffix}"))).collect() };
        for l in ["en", "pl", "fr", "de"] {
            if k & 1 == 0 {
                v.push(Cmd::Meta(l.into(), kv(&[("name", l), ("description", "x"), ("x", "y"), ("k", "z")])));
                v.push(Cmd::Label(l.into(), all(l)));
            } else {
                v.push(Cmd::Info(l.into(), all(l)));
                v.push(Cmd::Entry(l.into(), names.iter().map(|n| (n.to_string(), En::Map(all(n)))).collect()));
            }
        }
        for kk in [K::Fmt, K::Conf, K::Card, K::Unit] {
            v.push(Cmd::Over(kk, all("v")));
        }
        v.push(Cmd::Over(K::Enc, names.iter().map(|n| (n.to_string(), "utf-8".into())).collect()));
        v.push(Cmd::Over(K::Cond, vec![("a".into(), "${b} > 1 and ${c} < 2".into()), ("d".into(), "${e} == ${f}".into())]));
        v.push(Cmd::Ecode(names.iter().map(|n| (n.to_string(), Ec::Groups(vec![("g".into(), vec!["b".into(), "a".into()]), ("h".into(), vec![])]))).collect()));
        v.push(Cmd::Link(Ty::Refs(SAID1.into()), all("1")));
        v.push(Cmd::Link(Ty::Refs(SAID2.into()), all("2")));
        for f in ["f1", "f2"] {
            for (i, n) in names.iter().enumerate().skip(2 * (k & 1)).take(3) {
                v.push(framing(f, &[("label", n), (if i % 2 == 0 { "version" } else { "location" }, "1")], n, n, "p", "j"));
            }
        }
        Prog::new(v)
    };
    shards(wide(0));
    shards(wide(1));
    for p in wide_progs().into_iter().take(6) {
        cases.push((p, s_seq * 2, 0));
    }
    for p in if ctx.quick() { [3, 5, 9, 17].map(sized_prog).to_vec() } else { sizes(ctx) } {
        cases.push((p, s_seq, 0));
    }
    for (x, y) in name_pairs().into_iter().step_by(if ctx.quick() { 5 } else { 1 }) {
        cases.push((named_prog(&x, &y, false), s_seq, 0));
    }
    for s in sequences(&near_cmds("a", "A"), 1) {
        let mut v = vec![Cmd::AddAttr(vec![("a".into(), b("Text")), ("A".into(), b("Numeric"))])];
        v.extend(s);
        cases.push((Prog::new(v), s_seq, 0));
    }
    for s in sequences(&broad(), if ctx.quick() { 1 } else { 2 }) {
        let mut v = vec![Cmd::AddAttr(vec![("a".into(), b("Text")), ("b".into(), b("Numeric")), ("z".into(), b("Text"))])];
        v.extend(s);
        cases.push((Prog::new(v), s_seq, 0));
    }
    for (_, c) in overlay_cmds("a", "b") {
        for s in sequences(&c, 3) {
            let mut v = vec![ab()];
            v.extend(s);
            cases.push((Prog::new(v), s_seq, 0));
        }
    }
    ctx.run("seeds", &cases, p01_check);
}

// ------------------------------------------------------------------ family of built bundles used by P02, P03, P07
pub fn family(ctx: &Ctx, big: bool) -> Vec<Prog> {
    let mut out = vec![full_prog(), Prog::new(vec![meta("en", &[("name", "only meta")])]), Prog::new(vec![class("C")])];
    for t in BASE_TYPES {
        out.push(Prog::new(vec![attr("x-1_y.z", b(t)), attr("B", arr(b(t))), attr("c", arr(arr(b(t))))]));
    }
    for t in [Ty::Refs(SAID1.into()), arr(Ty::Refs(SAID1.into())), arr(arr(arr(Ty::Refs(SAID2.into()))))] {
        out.push(Prog::new(vec![attr("r", t.clone()), attr("q", t)]));
    }
    out.extend(wide_progs());
    for s in sequences(&near_cmds("a", "A"), if big || !ctx.quick() { 2 } else { 1 }) {
        let mut v = vec![Cmd::AddAttr(vec![("a".into(), b("Text")), ("A".into(), b("Numeric"))])];
        v.extend(s);
        out.push(Prog::new(v));
    }
    for n in [255usize, 256, 65_535, 65_536, 70_000] {
        let v = "x".repeat(n);
        out.push(Prog::new(vec![ab(), label("en", &[("a", &v)]), meta("en", &[("name", &v)])]));
        out.push(Prog::new(vec![ab(), elist("a", &[&v]), entry("en", "a", &[(&v, &v)])]));
        out.push(Prog::new(vec![attr(&v, b("Text")), attr("z", b("Text")), link(SAID1, &[("z", &v)])]));
    }
    out.push(Prog::new(vec![attr("deep", (0..100).fold(b("Text"), |t, _| arr(t)))]));
    for s in sequences(&broad(), 1) {
        let mut v = vec![ab()];
        v.extend(s);
        out.push(Prog::new(v));
    }
    for (_, c) in overlay_cmds("a", "b") {
        for s in sequences(&c, 2) {
            let mut v = vec![ab()];
            v.extend(s);
            out.push(Prog::new(v));
        }
    }
    let r = reps();
    for i in 0..r.len() {
        for j in i + 1..r.len() {
            out.push(Prog::new(vec![ab(), class("X"), r[i].clone(), r[j].clone()]));
        }
    }
    // values with unusual characters
    for v in values() {
        out.extend(text_progs(&v, &v));
    }
    for (v, w) in confusable() {
        out.extend(text_progs(&v, &w));
    }
    if big || !ctx.quick() {
        for s in sequences(&broad(), 2) {
            let mut v = vec![ab()];
            v.extend(s);
            out.push(Prog::new(v));
        }
    }
    let odd = odd_names(ctx);
    let (step, sizes) = match (ctx.quick(), big) {
        (true, false) => (15, vec![sized_prog(5)]),
        (true, true) => (4, vec![sized_prog(5), sized_prog(9), sized_prog(17)]),
        (false, false) => (4, vec![sized_prog(5), sized_prog(9)]),
        (false, true) => (1, sizes(ctx)),
    };
    out.extend(odd.into_iter().step_by(step).chain(sizes));
    // the validator rightly rejects conditions over attributes that do not exist
    out.retain(|p| MState::run(p, &Env::default()).is_ok_and(|s| s.last().unwrap().conditions_ok()));
    out.sort_by_key(|p| p.text());
    out.dedup();
    out
}
/// programs over every short attribute name, alone and next to one easily taken for it
pub fn odd_names(ctx: &Ctx) -> Vec<Prog> {
    let mut out: Vec<Prog> = names(if ctx.quick() { 2 } else { 3 }).iter().map(|x| named_prog(x, "zz", false)).collect();
    for (x, y) in name_pairs() {
        out.push(named_prog(&x, &y, false));
        out.push(named_prog(&x, &y, true));
    }
    out
}
/// programs whose every collection has that many members
pub fn sizes(ctx: &Ctx) -> Vec<Prog> {
    let mut n: Vec<usize> = (1..=if ctx.quick() { 12 } else { 40 }).collect();
    n.extend([16, 17, 20, 31, 32, 33, 64, 65]);
    n.sort();
    n.dedup();
    n.into_iter().map(sized_prog).collect()
}
/// programs with many attributes, and with long names and texts, around the lengths a limit is likely to have
pub fn large(ctx: &Ctx) -> Vec<Prog> {
    let mut out: Vec<Prog> = if ctx.quick() { vec![100, 101, 128, 129, 256, 257] } else { vec![99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1001] }.into_iter().map(large_prog).collect();
    let lens = [32usize, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 1024, 1025];
    for l in lens {
        let x = "n".repeat(l);
        out.push(named_prog(&x, &format!("{}m", &x[1..]), false));
    }
    for l in lens.into_iter().chain([4096, 4097, 65_536, 65_537]) {
        for c in ["v", "é"] {
            let v = c.repeat(l);
            out.extend(text_progs(&v, &format!("{}w", c.repeat(l - 1))));
        }
    }
    out
}
/// programs with the texts `v` and `w` at every place an OCAfile carries free text
pub fn text_progs(v: &str, w: &str) -> Vec<Prog> {
    let mut out = vec![];
    let mut add = |c: Vec<Cmd>| {
        let mut p = vec![ab()];
        p.extend(c);
        out.push(Prog::new(p));
    };
    add(vec![label("en", &[("a", v), ("b", w)])]);
    add(vec![meta("en", &[("name", v), ("description", w)])]);
    add(vec![info("pl", &[("b", v), ("a", w)])]);
    add(vec![over(K::Unit, &[("a", v), ("b", w)]), over(K::Fmt, &[("a", w), ("b", v)])]);
    add(vec![over(K::Conf, &[("a", v), ("b", w)]), over(K::Card, &[("b", v), ("a", w)])]);
    if v == w {
        add(vec![elist("a", &[v, "z"]), entry("en", "a", &[(v, v)])]);
        add(vec![egroups("a", &[(v, &[v])]), link(SAID1, &[("a", v)])]);
        add(vec![framing(v, &[("label", v)], "a", "k", v, v)]);
    } else {
        add(vec![elist("a", &[v, w]), entry("en", "a", &[(w, v), (v, w)])]);
        add(vec![elist("b", &[w, v, w]), entry("pl", "b", &[(v, w)])]);
        add(vec![egroups("a", &[(v, &[v, w]), (w, &[w])]), link(SAID1, &[("a", v), ("b", w)])]);
        add(vec![framing(v, &[("label", w)], "a", "k", v, w), framing(w, &[("label", v)], "b", "k", w, v)]);
        add(vec![framing("f", &[("label", w)], "a", v, "p", "j"), framing("f", &[("label", w)], "a", w, "p", "j")]);
    }
    out
}
/// pairs of texts that are easily taken for each other
pub fn confusable() -> Vec<(String, String)> {
    [("x", " x"), ("x", "x "), (" x", "x "), ("x", "X"), ("é", "e\u{301}"), ("é", "É"), ("ß", "ss"), ("1", "01"), ("1", "1.0"), ("x", "x\u{200b}"), ("x y", "x  y"), ("x y", "x\ty"), ("", " "), ("x", "'x'"), ("true", "True"), ("a-b", "a_b")]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}
/// strings an OCAfile can carry between double quotes
pub fn values() -> Vec<String> {
    [
        "",
        " ",
        " x",
        "x ",
        " \t ",
        "x y",
        "it's",
        "a=b",
        "#no comment",
        "-- name=x",
        "zażółć",
        "日本",
        "\u{1F600}",
        "tab\there",
        "refs:abc",
        "refn:dog",
        "{x}",
        "[1, 2]",
        "${a}",
        "a:b",
        "\\n",
        "\\\\",
        "\\u0041",
        "<b>&amp;",
        "ADD ATTRIBUTE q=Text",
        "NaN",
        "null",
        "12",
        "a,b",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

// ------------------------------------------------------------------ P02
pub static P02: Entry = (
    "P02",
    "model_checking",
    "every bundle of the family; for each, every single-position change of its encoded form (leaf values, keys, identifiers, added, removed, duplicated entries), alone and with the outer identifier recomputed; non-trivial: the changed document differs from the original as JSON",
    &["blake3 is collision free on the explored documents"],
    p02,
    |st, c| match st {
        "many" => p02_check(&parse_case(c), 1, &mut Obs::default()),
        "resigned" => p02_resigned(&parse_case(c), &mut Obs::default()),
        _ => p02_check(&parse_case(c), 1, &mut Obs::default()),
    },
);
/// digest of a self-addressing JSON text: identifier replaced by 44 '#'
pub fn digest_of(text: &str, id: &str) -> String {
    let t = text.replace(&format!("\"d\":\"{id}\""), &format!("\"d\":\"{}\"", "#".repeat(44)));
    let code: said::derivation::HashFunction = said::derivation::HashFunctionCode::Blake3_256.into();
    code.derive(t.as_bytes()).to_string()
}
fn p02_consistent(bd: &oca_bundle_semantics::state::oca::OCABundle) -> Res {
    let id = said_of(bd);
    let txt = encs(bd);
    if digest_of(&txt, &id) != id {
        return fail("digest-bundle", format!("bundle {id} is not the digest of {txt}"));
    }
    let v: Value = serde_json::from_str(&txt).unwrap();
    if v["d"] != id.as_str() {
        return fail("digest-bundle", "encoded identifier differs");
    }
    let cb = serde_json::to_string(&bd.capture_base).unwrap();
    let cbid = bd.capture_base.said.as_ref().unwrap().to_string();
    if digest_of(&cb, &cbid) != cbid || v["capture_base"]["d"] != cbid.as_str() {
        return fail("digest-cb", format!("capture base {cbid} is not the digest of {cb}"));
    }
    for o in &bd.overlays {
        let t = serde_json::to_string(o).unwrap();
        let oid = o.said().as_ref().unwrap().to_string();
        if digest_of(&t, &oid) != oid {
            return fail("digest-overlay", format!("overlay {oid} is not the digest of {t}"));
        }
        if o.capture_base().as_ref().map(|s| s.to_string()) != Some(cbid.clone()) {
            return fail("overlay-cb", format!("overlay {t} does not name its capture base {cbid}"));
        }
    }
    if let Some(e) = invalid(bd) {
        return fail("validator", format!("built bundle rejected: {e}\n{txt}"));
    }
    Ok(())
}
/// all single changes of a JSON document
pub fn tamper(v: &Value, every: usize) -> Vec<(String, Value)> {
    fn variants(x: &Value) -> Vec<Value> {
        match x {
            Value::String(s) => {
                let mut o = vec![Value::String(format!("{s}x")), Value::Null, Value::from(1), Value::Array(vec![x.clone()])];
                if !s.is_empty() {
                    let mut c: Vec<char> = s.chars().collect();
                    let l = c.len() - 1;
                    c[l] = if c[l] == 'A' { 'B' } else { 'A' };
                    o.push(Value::String(c.into_iter().collect()));
                    o.push(Value::String(String::new()));
                }
                for (a, b) in [("eng", "pol"), ("pol", "eng"), ("fra", "deu"), ("Text", "Numeric"), ("Numeric", "Text"), ("utf-8", "utf-16"), ("Boolean", "Binary")] {
                    if s == a {
                        o.push(Value::String(b.into()));
                    }
                }
                if s.len() == 44 && s.starts_with('E') {
                    o.push(Value::String(SAID1.into()));
                    o.push(Value::String(SAID2.into()));
                }
                o
            }
            Value::Array(a) => {
                let mut o = vec![];
                for i in 0..a.len() {
                    let mut w = a.clone();
                    w.remove(i);
                    o.push(Value::Array(w));
                    let mut w = a.clone();
                    w.push(a[i].clone());
                    o.push(Value::Array(w));
                }
                let mut w = a.clone();
                w.push(Value::String("zz".into()));
                o.push(Value::Array(w));
                o.push(Value::Null);
                if a.len() == 1 {
                    o.push(a[0].clone());
                }
                o
            }
            Value::Object(m) => {
                let mut o = vec![];
                for k in m.keys() {
                    let mut w = m.clone();
                    let x = w.remove(k).unwrap();
                    o.push(Value::Object(w.clone()));
                    w.insert(format!("{k}x"), x);
                    o.push(Value::Object(w));
                }
                for extra in [Value::String("zz".into()), Value::Array(vec![])] {
                    let mut w = m.clone();
                    w.insert("zz".into(), extra);
                    o.push(Value::Object(w));
                }
                if let Some(first) = m.values().next() {
                    let mut w = m.clone();
                    w.insert("b".into(), first.clone());
                    o.push(Value::Object(w));
                }
                o.push(Value::Null);
                o
            }
            _ => vec![Value::from(7), Value::String("x".into())],
        }
    }
    fn walk(root: &Value, path: &mut Vec<String>, out: &mut Vec<(String, Value)>) {
        let ptr: String = path.iter().map(|p| format!("/{}", p.replace('~', "~0").replace('/', "~1"))).collect();
        let x = root.pointer(&ptr).unwrap().clone();
        for nv in variants(&x) {
            if nv == x {
                continue;
            }
            let mut r = root.clone();
            *r.pointer_mut(&ptr).unwrap() = nv.clone();
            out.push((format!("{ptr} := {nv}"), r));
        }
        match &x {
            Value::Object(m) => {
                for k in m.keys() {
                    path.push(k.clone());
                    walk(root, path, out);
                    path.pop();
                }
            }
            Value::Array(a) => {
                for i in 0..a.len() {
                    path.push(i.to_string());
                    walk(root, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    walk(v, &mut vec![], &mut out);
    out.into_iter().enumerate().filter(|(i, _)| i % every == 0).map(|x| x.1).collect()
}
fn p02_check(p: &Prog, every: usize, o: &mut Obs) -> Res {
    let bd = build_free(p.text()).map_err(|e| Fail { key: "rejected".into(), msg: e })?;
    o.traces += 1;
    let orig = encs(&bd);
    o.state(&orig);
    p02_consistent(&bd)?;
    let v: Value = serde_json::from_str(&orig).unwrap();
    for (what, t) in tamper(&v, every) {
        o.transitions += 1;
        o.evals += 1;
        let txt = serde_json::to_string(&t).unwrap();
        o.nontrivial(&txt);
        let judge = |b2: &oca_bundle_semantics::state::oca::OCABundle, how: &str| -> Res {
            if invalid(b2).is_none() && (how != "" || guard(|| encs(b2)).map_err(Fail::from)? != orig || said_of(b2) != said_of(&bd)) {
                return fail("tamper", format!("{what}{how}: accepted\noriginal {orig}\ntampered {txt}"));
            }
            Ok(())
        };
        if let Ok(mut b2) = load(&txt) {
            judge(&b2, "")?;
            let inner_changed = content(&b2) != content(&bd) || {
                let mut x = jval(&b2);
                let mut y = v.clone();
                for z in [&mut x, &mut y] {
                    z.as_object_mut().unwrap().remove("d");
                    z.as_object_mut().unwrap().remove("v");
                }
                canon(&x) != canon(&y)
            };
            // the attacker also fixes the bundle's own identifier
            b2.fill_said();
            let changed_inside = what.starts_with("/capture_base/") || what.starts_with("/overlays/") && what.matches('/').count() > 2;
            if inner_changed && changed_inside && jval(&b2)["overlays"].as_object().map(|x| x.len()) == v["overlays"].as_object().map(|x| x.len()) && b2.overlays.len() == bd.overlays.len() {
                judge(&b2, " with the bundle identifier recomputed")?;
            }
        }
    }
    Ok(())
}
/// Every identifier recomputed: what is left wrong is which capture base an overlay belongs to.
fn p02_resigned(p: &Prog, o: &mut Obs) -> Res {
    let bd = build_free(p.text()).map_err(|e| Fail { key: "rejected".into(), msg: e })?;
    o.traces += 1;
    let v = jval(&bd);
    o.state(&v.to_string());
    let mut overlay_ptrs = vec![];
    for (k, x) in v["overlays"].as_object().unwrap() {
        match x {
            Value::Array(a) => overlay_ptrs.extend((0..a.len()).map(|i| format!("/overlays/{k}/{i}"))),
            _ => overlay_ptrs.push(format!("/overlays/{k}")),
        }
    }
    // (what, document, recompute the overlays' identifiers, the capture base's)
    let mut docs: Vec<(String, Value, bool, bool)> = vec![];
    for ptr in &overlay_ptrs {
        let own = v.pointer(ptr).unwrap()["d"].clone();
        for cb in [Value::Null, Value::from("absent"), SAID1.into(), own, v["d"].clone(), "".into(), Value::from(1)] {
            let mut w = v.clone();
            let m = w.pointer_mut(ptr).unwrap().as_object_mut().unwrap();
            if cb == "absent" {
                m.remove("capture_base");
            } else {
                m.insert("capture_base".into(), cb.clone());
            }
            docs.push((format!("{ptr}/capture_base := {cb}"), w, true, false));
        }
        // a second overlay of the same kind, changed and with its own correct identifier
        for key in ["aaa", "zzz"] {
            let mut w = v.clone();
            let mut x = v.pointer(ptr).unwrap().clone();
            for (k, y) in x.as_object_mut().unwrap() {
                if let (Value::Object(y), true) = (y, k.starts_with("attribute_") || k == "framing_metadata") {
                    y.clear();
                }
            }
            w["overlays"][key] = x;
            docs.push((format!("a second {ptr} under {key}"), w, true, false));
        }
    }
    for x in [Value::from("x"), Value::from(1), Value::from(true), Value::from(1.5), Value::from("")] {
        for key in ["aaa", "zzz"] {
            let mut w = v.clone();
            w["overlays"][key] = x.clone();
            docs.push((format!("/overlays/{key} := {x}"), w, false, false));
        }
    }
    if !bd.overlays.is_empty() {
        let names: Vec<String> = v["capture_base"]["attributes"].as_object().unwrap().keys().cloned().collect();
        let mut w = v.clone();
        w["capture_base"]["attributes"]["zz"] = "Text".into();
        docs.push(("an attribute added".into(), w, false, true));
        for n in &names {
            let mut w = v.clone();
            w["capture_base"]["attributes"].as_object_mut().unwrap().remove(n);
            docs.push((format!("attribute {n} removed"), w, false, true));
            let mut w = v.clone();
            w["capture_base"]["attributes"][n] = "Binary".into();
            docs.push((format!("type of {n} changed"), w, false, true));
        }
        let mut w = v.clone();
        w["capture_base"]["classification"] = "zz".into();
        docs.push(("classification changed".into(), w, false, true));
        let mut w = v.clone();
        w["capture_base"]["flagged_attributes"] = names.into();
        docs.push(("all attributes flagged".into(), w, false, true));
    }
    for (what, w, ov, cb) in docs {
        if w == v {
            continue;
        }
        o.transitions += 1;
        o.evals += 1;
        let txt = w.to_string();
        o.nontrivial(&txt);
        let Ok(mut b2) = load(&txt) else { continue };
        if ov {
            b2.overlays.iter_mut().for_each(|x| x.fill_said());
        }
        if cb {
            b2.capture_base.sign();
        }
        // (a second overlay with the bundle's identifier recomputed too would be a bundle of its own)
        if !what.starts_with("a second") {
            b2.fill_said();
        }
        if invalid(&b2).is_none() && encs(&b2) != encs(&bd) {
            return fail("resigned", format!("{what}, identifiers recomputed: accepted\noriginal {v}\nchanged {txt}\nloaded {}", encs(&b2)));
        }
    }
    Ok(())
}
fn p02(ctx: &Ctx) {
    let fam = family(ctx, false);
    // quick: of the larger bundles, every fifth change (thorough: all)
    let every = |p: &Prog| {
        if ctx.quick() && p.cmds.len() > 16 || p.text().len() > 5000 {
            5
        } else {
            1
        }
    };
    ctx.run("tamper", &fam, |p, o| p02_check(p, every(p), o));
    ctx.run("resigned", &fam, p02_resigned);
    // bundles of many overlays
    let many: Vec<Prog> = if ctx.quick() { vec![12, 33] } else { vec![9, 12, 17, 33, 40] }.into_iter().map(overlays_prog).collect();
    ctx.run("many", &many, |p, o| p02_check(p, if ctx.quick() { 11 } else { 1 }, o));
    ctx.run("resigned", &many, p02_resigned);
}
/// every kind of overlay that has a language, in `n` languages, and `n` framings and links
fn overlays_prog(n: usize) -> Prog {
    let mut v = vec![ab()];
    for l in crate::alpha::LANGS.iter().take(n) {
        v.push(label(l, &[("a", l)]));
        if v.len() % 3 == 0 {
            v.push(meta(l, &[("name", l)]));
        }
    }
    for i in 0..n / 3 {
        v.push(framing(&format!("f{i}"), &[("label", "F")], "a", "k", "p", "j"));
    }
    Prog::new(v)
}

// ------------------------------------------------------------------ P03
pub static P03: Entry =
    ("P03", "model_checking", "every bundle of the family, encoded and loaded back: whole, part by part, from storage, and packed with lists of transformations up to length 2 (all of them with bundles of up to two commands), for the smallest bundles also lists up to 257", &[], p03, |_, c| p03_check(&parse_case(c), &mut Obs::default()));
pub fn transformations() -> Vec<String> {
    let s = |x: &str| format!("-- precompiler=transformation\n-- source=refs:{SAID1}\n-- target=refs:{SAID2}\n{x}");
    vec![s("RENAME ATTRIBUTE a=b\n"), s("LINK ATTRIBUTE a -> b c -> d\n"), s("RENAME ATTRIBUTE x=y z=w\nLINK ATTRIBUTE q -> r\n"), format!("-- precompiler=transformation\n-- source=refs:{SAID2}\n-- target=refs:{SAID1}\nRENAME ATTRIBUTE a=b\n")]
}
pub fn text_diff(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let sl = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(80).min(s.len())..(at + 160).min(s.len())]).to_string();
    format!("...{}... became ...{}...", sl(a), sl(b))
}
/// A reader that gives at most `step` bytes at a time and is interrupted now and then.
struct Drip<'a> {
    text: &'a [u8],
    step: usize,
    calls: usize,
}
impl std::io::Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 7 == 2 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = self.step.min(buf.len()).min(self.text.len());
        buf[..n].copy_from_slice(&self.text[..n]);
        self.text = &self.text[n..];
        Ok(n)
    }
}
fn p03_check(p: &Prog, o: &mut Obs) -> Res {
    let bd = build_free(p.text()).map_err(|e| Fail { key: "rejected".into(), msg: e })?;
    o.traces += 1;
    let e1 = encs(&bd);
    o.state(&e1);
    let same = |b2: &oca_bundle_semantics::state::oca::OCABundle, how: &str| -> Res {
        let e2 = encs(b2);
        if e1 != e2 {
            return fail("roundtrip", format!("{how}: encodes differently: {}\n{}", text_diff(&e1, &e2), p.text()));
        }
        if idents(&bd) != idents(b2) {
            return fail("roundtrip", format!("{how}: identifiers differ {:?} {:?}", idents(&bd), idents(b2)));
        }
        if let Some(e) = invalid(b2) {
            return fail("roundtrip", format!("{how}: loaded bundle is rejected: {e}"));
        }
        let mut b3 = b2.clone();
        b3.fill_said();
        if b3.said != bd.said {
            return fail("roundtrip", format!("{how}: recomputed identifier differs"));
        }
        Ok(())
    };
    let b2 = load(&e1).map_err(|e| Fail { key: "load".into(), msg: format!("{e}\n{e1}") })?;
    same(&b2, "encode and load")?;
    // loading what a loaded bundle prints, pretty printed and key-reordered
    let v: Value = serde_json::from_str(&e1).unwrap();
    for (t, how) in [(serde_json::to_string_pretty(&v).unwrap(), "pretty printed"), (serde_json::to_string(&canon(&v)).unwrap(), "keys sorted"), (serde_json::to_string(&bd).unwrap(), "serde form")] {
        o.transitions += 1;
        let b = load(&t).map_err(|e| Fail { key: "load".into(), msg: format!("{how}: {e}\n{t}") })?;
        same(&b, how)?;
    }
    // whole, and from a source that gives a little at a time
    for step in [usize::MAX, 1 + e1.len() % 97, 5000] {
        let via_ctl = oca_bundle_semantics::controller::load_oca(&mut Drip { text: e1.as_bytes(), step, calls: 0 }).map_err(|e| Fail { key: "load".into(), msg: e.to_string() })?;
        same(&via_ctl, "controller::load_oca")?;
    }
    // parts
    let cbs = serde_json::to_string(&bd.capture_base).unwrap();
    let cb: oca_bundle_semantics::state::oca::capture_base::CaptureBase = serde_json::from_str(&cbs).map_err(|e| Fail { key: "load".into(), msg: format!("{e}\n{cbs}") })?;
    o.transitions += 1;
    let mut cb2 = cb.clone();
    cb2.sign();
    if serde_json::to_string(&cb).unwrap() != cbs || cb.said != bd.capture_base.said || cb2.said != cb.said {
        return fail("roundtrip-cb", format!("{cbs} became {}", serde_json::to_string(&cb).unwrap()));
    }
    for ov in &bd.overlays {
        let s = serde_json::to_string(ov).unwrap();
        o.transitions += 1;
        let mut x: oca_bundle_semantics::state::oca::DynOverlay = serde_json::from_str(&s).map_err(|e| Fail { key: "load".into(), msg: format!("{e}\n{s}") })?;
        let s2 = serde_json::to_string(&x).unwrap();
        if s2 != s || x.said() != ov.said() || x.overlay_type() != ov.overlay_type() || x.language() != ov.language() {
            return fail("roundtrip-overlay", format!("{s} became {s2}"));
        }
        x.fill_said();
        if x.said() != ov.said() {
            return fail("roundtrip-overlay", format!("{s}: identifier changes to {:?}", x.said()));
        }
    }
    // storage
    let mut w = World::new();
    let built = w.build(p).map_err(|e| Fail { key: "rejected".into(), msg: e })?;
    same(&built, "facade build")?;
    let got = w.f.get_oca_bundle(bd.said.clone().unwrap(), false).map_err(|e| Fail { key: "stored".into(), msg: e.join(";") })?;
    same(&got.bundle, "storage")?;
    // package
    let ts: Vec<_> = transformations()
        .iter()
        .map(|t| {
            let ast = match oca_file::ocafile::parse_from_string(t.clone()).unwrap() {
                oca_file::ocafile::OCAAst::TransformationAst(a) => a,
                _ => panic!("not a transformation"),
            };
            transformation_file::build::from_ast(&ast).unwrap()
        })
        .collect();
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..ts.len() {
        lists.push(vec![i]);
        for j in 0..ts.len() {
            // all pairs with small bundles, every transformation twice and before another with larger ones
            if p.cmds.len() <= 2 || j == i || j == (i + 1) % ts.len() {
                lists.push(vec![i, j]);
            }
        }
    }
    if p.cmds.len() <= 1 {
        lists.extend(vec![vec![0, 1, 2], vec![3, 2, 1, 0], vec![1, 0, 1, 1]]);
    }
    if p.text() == Prog::new(vec![class("C")]).text() {
        lists.extend([9usize, 12, 17, 33, 65, 101, 257].map(|n| (0..n).map(|i| (i * i + i / 3) % ts.len()).collect()));
    }
    for l in lists {
        o.transitions += 1;
        let mut pk = oca_rs::facade::bundle::Bundle::new();
        pk.add(oca_rs::facade::bundle::BundleElement::Structural(bd.clone()));
        for i in &l {
            pk.add(oca_rs::facade::bundle::BundleElement::Transformation(ts[*i].clone()));
        }
        pk.fill_said();
        let e = pk.encode().map_err(|e| Fail { key: "package".into(), msg: e.to_string() })?;
        let pk2 = oca_rs::facade::bundle::load_oca(&mut Drip { text: e.as_bytes(), step: 1 + (e.len() * 31) % 5003, calls: 0 }).map_err(|x| Fail { key: "package".into(), msg: format!("{x}\n{e}") })?;
        let e2 = pk2.encode().map_err(|e| Fail { key: "package".into(), msg: e.to_string() })?;
        if e != e2 {
            return fail("package", format!("package {l:?} encodes differently after loading\n{e}\n{e2}"));
        }
        same(pk2.structural.as_ref().unwrap(), "package")?;
        let tj = |x: &transformation_file::state::Transformation| serde_json::to_string(x).unwrap();
        if pk.transformations.iter().map(tj).collect::<Vec<_>>() != l.iter().map(|i| tj(&ts[*i])).collect::<Vec<_>>() {
            return fail("package", format!("the package of transformations {l:?} does not hold just them: {e}"));
        }
        if pk2.transformations.iter().map(tj).collect::<Vec<_>>() != pk.transformations.iter().map(tj).collect::<Vec<_>>() {
            return fail("package", "transformations changed");
        }
        // what was encoded carries the digest of itself
        let v: Value = serde_json::from_str(&e).unwrap();
        let id = v["d"].as_str().unwrap().to_string();
        if digest_of(&e, &id) != id {
            return fail("package", format!("package identifier {id} is not the digest of {e}"));
        }
        if pk2.said.as_ref().map(|s| s.to_string()) != Some(id.clone()) {
            return fail("package", "loaded package lost its identifier");
        }
        if pk.said.as_ref().map(|s| s.to_string()) != Some(id.clone()) {
            return fail("package-id", format!("fill_said gives {:?}, encode writes {id}", pk.said.as_ref().map(|s| s.to_string())));
        }
    }
    Ok(())
}
fn p03(ctx: &Ctx) {
    ctx.run("roundtrip", &family(ctx, true), p03_check);
    // quick: every fourth of the long texts (thorough: all)
    let l = large(ctx).into_iter().enumerate().filter(|(i, _)| !ctx.quick() || *i < 19 || i % 4 == 0).map(|x| x.1).collect::<Vec<_>>();
    let mut l = l;
    // documents beyond a megabyte
    for n in if ctx.quick() { vec![(1 << 20) + 1] } else { vec![300_000, (1 << 20) - 200, (1 << 20) + 1, 5_000_000] } {
        l.insert(0, Prog::new(vec![ab(), label("en", &[("a", &"x".repeat(n))]), class("C")]));
    }
    ctx.run("large", &l, p03_check);
}

// ------------------------------------------------------------------ P05
pub static P05: Entry = (
    "P05",
    "model_checking",
    "every sequence of commands up to the stated depth over alphabets that contain, for each rule, commands that keep and commands that break it; the verdict of the free builder, of the facade and of the parser's own checks is compared with the reference semantics; non-trivial: programs the reference semantics rejects",
    &["within one command no key is given twice"],
    p05,
    |st, c| p05_check(st, &parse_case(c), &mut Obs::default()),
);
fn raw(s: &str) -> Cmd {
    Cmd::Raw(s.into())
}
/// well-formed and ill-formed commands, one or two for each rule
fn alpha5() -> Vec<Cmd> {
    let f = |s: &str| framing("f1", &[("label", "FL")], s, "u1", "p1", "j1");
    vec![
        attr("a", b("Text")),
        attr("b", b("Numeric")),
        ab(),
        attr("a", arr(Ty::Refs(SAID1.into()))),
        attr("c", Ty::Refn("nobody".into())),
        attr("c", arr(Ty::Refn("nobody".into()))),
        rem(&["a"]),
        rem(&["b", "a"]),
        class("C"),
        Cmd::RemClass,
        flag(&["a"]),
        flag(&["a", "b"]),
        meta("en", &[("name", "N")]),
        meta("zz", &[("name", "N")]),
        label("en", &[("a", "L")]),
        label("en", &[("a", "L"), ("b", "M")]),
        label("xx", &[("a", "L")]),
        info("pl", &[("b", "I")]),
        info("qq", &[("b", "I")]),
        over(K::Enc, &[("a", "utf-8")]),
        over(K::Enc, &[("a", "utf-9")]),
        over(K::Fmt, &[("b", "image/png")]),
        over(K::Conf, &[("a", "M"), ("b", "O")]),
        over(K::Card, &[("a", "1")]),
        over(K::Unit, &[("b", "kg")]),
        over(K::Cond, &[("a", "${b} > 0")]),
        elist("a", &["x", "y"]),
        egroups("b", &[("g", &["x"])]),
        entry("en", "a", &[("x", "X")]),
        entry("ww", "a", &[("x", "X")]),
        entry_sai("en", "b", SAID1),
        link(SAID1, &[("a", "t")]),
        Cmd::Link(Ty::Refn("nobody".into()), kv(&[("a", "t")])),
        f("a"),
        f("b"),
        Cmd::From(SAID1.into()),
    ]
}
fn garbage() -> Vec<Cmd> {
    [
        "ADD",
        "ADD FOO",
        "ADD ATTRIBUTE",
        "ADD ATTRIBUTE q",
        "ADD ATTRIBUTE q=",
        "ADD ATTRIBUTE q=Foo",
        "ADD ATTRIBUTE q=Array[]",
        "ADD ATTRIBUTE q=Array[Text",
        "ADD ATTRIBUTE q=Array[Text, Text]",
        "ADD ATTRIBUTE q=refs:abc",
        "ADD ATTRIBUTE q=Array[refs:abc]",
        "ADD ATTRIBUTE q=refs:",
        "ADD ATTRIBUTE =Text",
        "ADD ATTRIBUTE q r=Text",
        "ADD LABEL ATTRS a=\"x\"",
        "ADD LABEL en a=\"x\"",
        "ADD LABEL eng ATTRS a=\"x\"",
        "ADD LABEL en ATTRS",
        "ADD LABEL en ATTRS a=\"x",
        "ADD META en name=\"x\"",
        "ADD META en PROPS",
        "ADD META en PROPS lang=\"pl\"",
        "ADD META en PROPS type=\"x\"",
        "ADD META en PROPS name=\"x\" d=\"x\"",
        "ADD META en PROPS capture_base=\"x\"",
        "ADD META en PROPS language=\"pol\"",
        "ADD CHARACTER_ENCODING ATTRS a",
        "ADD CHARACTER_ENCODING a=utf-8",
        "ADD ENTRY ATTRS a=\"x\"",
        "ADD ENTRY_CODE ATTRS a=[x]",
        "ADD ENTRY_CODE ATTRS a=[\"x\"",
        "ADD ENTRY en ATTRS a={\"x\"}",
        "ADD LINK refs:abc ATTRS a=\"t\"",
        "ADD LINK refs:abc ATTRS a=\"t\" b=\"u\"",
        "ADD LINK ATTRS a=\"t\"",
        "ADD ATTR_FRAMING ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}",
        "ADD ATTR_FRAMING label=\"x\" ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}",
        "ADD ATTR_FRAMING id=\"x\" ATTRS a=\"b\"",
        "ADD ATTR_FRAMING id=\"x\" ATTRS a={\"k\": \"v\"}",
        "ADD ATTR_FRAMING id=\"x\" ATTRS a={\"k\": {\"predicate_id\": \"p\"}}",
        "ADD ATTR_FRAMING id=\"x\" ATTRS a={\"k\": {\"framing_justification\": \"p\"}}",
        "ADD FLAGGED_ATTRIBUTES",
        "ADD FLAGGED_ATTRIBUTES nothere",
        "ADD CLASSIFICATION",
        "REMOVE",
        "REMOVE FOO",
        "REMOVE ATTRIBUTE nothere",
        "REMOVE ATTRIBUTE a nothere",
        "REMOVE CLASSIFICATION X",
        "REMOVE LABEL en",
        "REMOVE LABEL en ATTRS a",
        "REMOVE META en",
        "REMOVE META en PROPS name",
        "REMOVE INFORMATION en ATTRS a=\"x\"",
        "REMOVE UNIT ATTRS a=\"x\"",
        "MODIFY ATTRIBUTE a=Text",
        "MODIFY LABEL en ATTRS a=\"x\"",
        "FROM",
        "FROM abc",
        "FROM refn:x",
        "FROM EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0 ADD ATTRIBUTE x=Text",
        "LINK ATTRIBUTE a -> b",
        "RENAME ATTRIBUTE a=b",
        "hello",
        "-- name",
        "-- =x",
        "-- foo=x",
        "-- name=",
        "\u{0}",
        "\"",
        "\\",
        "{",
        "ADD ATTRIBUTE q=Text ADD ATTRIBUTE r=Text",
    ]
    .iter()
    .map(|s| raw(s))
    .chain([raw(&format!("ADD ATTRIBUTE q={}Text{}", "Array[".repeat(101), "]".repeat(101)))])
    .collect()
}
/// every word near one of a closed vocabulary: languages, encodings, types
fn words5() -> Vec<Prog> {
    let near = |w: &str| -> Vec<String> {
        let mut v = vec![w.to_string(), w.to_uppercase(), w.to_lowercase(), format!(" {w}"), format!("{w} "), format!("{w}s"), format!("x{w}"), w.replace('-', "_"), w.replace('-', ""), w.replace(['-', '_'], " ")];
        v.push(w[..1].to_uppercase() + &w[1..]);
        for i in 0..w.len() {
            v.push(format!("{}{}", &w[..i], &w[i + 1..]));
            v.push(format!("{}{}{}", &w[..i], &w[i..i + 1].to_uppercase(), &w[i + 1..]));
        }
        v.sort();
        v.dedup();
        v
    };
    let mut out = vec![];
    for e in ENCODINGS {
        for w in near(e) {
            out.push(Prog::new(vec![ab(), over(K::Enc, &[("a", &w)])]));
            out.push(Prog::new(vec![ab(), over(K::Enc, &[("b", "utf-8"), ("a", &w)]), label("en", &[("a", "L")])]));
        }
    }
    for t in BASE_TYPES {
        for w in near(t) {
            let text = format!("ADD ATTRIBUTE q={w}");
            let kw = w.trim();
            out.push(Prog::new(vec![if BASE_TYPES.contains(&kw) { attr("q", b(kw)) } else { raw(&text) }, attr("r", b("Text"))]));
            out.push(Prog::new(vec![if BASE_TYPES.contains(&kw) { attr("q", arr(b(kw))) } else { raw(&format!("ADD ATTRIBUTE q=Array[{w}]")) }]));
        }
    }
    let letters: Vec<char> = ('a'..='z').collect();
    let mut langs: Vec<String> = letters.iter().flat_map(|x| letters.iter().map(move |y| format!("{x}{y}"))).collect();
    langs.extend(["EN", "En", "eN", "PL", "en-us", "en-US", "en-en", "pl-pl", "EN-us"].map(String::from));
    for l in langs {
        let l = l.as_str();
        for c in [meta(l, &[("name", "n")]), label(l, &[("a", "x")]), info(l, &[("b", "x")]), entry(l, "a", &[("k", "x")])] {
            out.push(Prog::new(vec![ab(), c]));
        }
    }
    out
}
fn p05_check(stage: &str, p: &Prog, o: &mut Obs) -> Res {
    let want = MState::run(p, &Env::default());
    o.traces += 1;
    o.transitions += p.cmds.len() as u64;
    let text = p.text();
    if want.is_err() {
        o.nontrivial(&text);
    }
    if let Ok(s) = &want {
        o.state(s.last().unwrap());
    }
    let free = guard(|| build_free(text.clone()))?;
    let judge = |got: &Result<oca_bundle_semantics::state::oca::OCABundle, String>, who: &str| -> Res {
        match (&want, got) {
            (Ok(s), Ok(bd)) => {
                let (w, g) = (s.last().unwrap().json(), content(bd));
                if w != g {
                    return fail("silently-different", format!("{who}: {}\n{text}", diff(&w, &g)));
                }
                Ok(())
            }
            (Ok(_), Err(e)) => fail("rejected", format!("{who}: a well-formed program is rejected: {e}\n{text}")),
            (Err((i, e)), Ok(_)) => fail("accepted", format!("{who}: command {i} is ill-formed ({e}), yet a bundle is built\n{text}")),
            (Err(_), Err(e)) if e.trim().is_empty() => fail("empty-error", format!("{who}: no message\n{text}")),
            _ => Ok(()),
        }
    };
    // the free builder has no table of names and keeps a name as it is written
    if !text.contains("refn:") {
        judge(&free, "free builder")?;
    }
    if stage != "seq3" {
        let mut w = World::new();
        let got = guard(|| w.build_text(text.clone()))?;
        judge(&got, "facade")?;
        let v = guard(|| w.f.validate_ocafile(text.clone()).is_ok())?;
        // validate_ocafile checks syntax, names and attributes but does not apply the commands
        if got.is_ok() && !v {
            return fail("validate", format!("builds, yet validate_ocafile rejects it\n{text}"));
        }
    }
    Ok(())
}
fn p05(ctx: &Ctx) {
    let al = alpha5();
    let g = garbage();
    let mut all = al.clone();
    all.extend(g.clone());
    // FROM as the first command is P06's
    let ok = |p: &Prog| !matches!(p.cmds[0], Cmd::From(_)) && !matches!(&p.cmds[0], Cmd::Raw(s) if s.starts_with("FROM E"));
    let mut cases: Vec<Prog> = sequences(&al, 2).into_iter().map(Prog::new).filter(ok).collect();
    for x in &g {
        cases.push(Prog::new(vec![x.clone()]));
        for y in &al {
            cases.push(Prog::new(vec![x.clone(), y.clone()]));
            cases.push(Prog::new(vec![y.clone(), x.clone()]));
        }
        cases.push(Prog::new(vec![ab(), class("C"), x.clone(), label("en", &[("a", "L")])]));
    }
    cases.push(Prog::new(vec![]));
    cases.retain(|p| p.cmds.is_empty() || ok(p));
    ctx.run("seq2", &cases, |p, o| p05_check("seq2", p, o));
    ctx.run("words", &words5(), |p, o| p05_check("words", p, o));
    // among many attributes, one mistake at several places
    let mut cases = vec![];
    for n in if ctx.quick() { vec![9usize, 17, 33, 65, 101, 129, 257] } else { vec![9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 513, 1001] } {
        let nm = |i: usize| format!("n{i}");
        let all: Vec<String> = (0..n).map(nm).collect();
        let kvs = |x: &[String]| -> KV { x.iter().map(|a| (a.clone(), "t".into())).collect() };
        let at = |i: usize, y: &str| { let mut v = all.clone(); v.insert(i, y.into()); v };
        let base = Cmd::AddAttr(all.iter().map(|x| (x.clone(), b("Text"))).collect());
        for i in [0, n / 2, n - 1] {
            let mut add = |v: Vec<Cmd>| cases.push(Prog::new(std::iter::once(base.clone()).chain(v).collect()));
            add(vec![attr(&nm(i), b("Text"))]);
            add(vec![rem(&[&nm(i)]), attr(&nm(i), b("Numeric")), rem(&[&nm(i)])]);
            add(vec![rem(&[&nm(i)]), rem(&[&nm(i)])]);
            add(vec![rem(&[&nm(i)]), over(K::Unit, &[(&nm(i), "u")])]);
            for y in ["unknown", &nm(n)] {
                let v = at(i, y);
                add(vec![Cmd::RemAttr(v.clone())]);
                add(vec![Cmd::Flag(v.clone())]);
                add(vec![Cmd::Label("en".into(), kvs(&v))]);
                add(vec![Cmd::Info("en".into(), kvs(&v))]);
                for k in [K::Unit, K::Fmt, K::Conf, K::Card] {
                    add(vec![Cmd::Over(k, kvs(&v))]);
                }
                add(vec![Cmd::Over(K::Enc, v.iter().map(|a| (a.clone(), "utf-8".into())).collect())]);
                add(vec![Cmd::Link(Ty::Refs(SAID1.into()), kvs(&v))]);
                add(vec![Cmd::Entry("en".into(), v.iter().map(|a| (a.clone(), En::Map(kv(&[("o", "p")])))).collect())]);
                add(vec![Cmd::Ecode(v.iter().map(|a| (a.clone(), Ec::List(vec!["o".into()]))).collect())]);
            }
            add(vec![Cmd::Over(K::Enc, all.iter().enumerate().map(|(j, a)| (a.clone(), if i == j { "klingon" } else { "utf-8" }.into())).collect())]);
        }
        // one command per attribute
        let single: Vec<Cmd> = (0..n).map(|i| attr(&nm(i), b("Text"))).collect();
        cases.push(Prog::new(single.iter().cloned().chain([rem(&[&nm(n - 1)])]).collect()));
        cases.push(Prog::new(single.iter().cloned().chain([attr(&nm(n / 2), b("Text"))]).collect()));
        cases.push(Prog::new(single.iter().cloned().chain([rem(&[&nm(0)]), label("en", &[(&nm(0), "x")])]).collect()));
    }
    ctx.run("many", &cases, |p, o| p05_check("many", p, o));
    // adding, naming and removing attributes whose names are easily taken for one another
    let mut cases: Vec<Prog> = vec![];
    for (i, (x, y)) in std::iter::once(("name".to_string(), "Name".to_string())).chain(name_pairs()).enumerate() {
        let (x, y) = (x.as_str(), y.as_str());
        let al = [
            attr(x, b("Text")),
            attr(y, b("Numeric")),
            rem(&[x]),
            rem(&[y]),
            rem(&[x, y]),
            flag(&[x]),
            label("en", &[(y, "L")]),
            over(K::Unit, &[(x, "u"), (y, "v")]),
            entry("en", y, &[("k", "v")]),
        ];
        for s in sequences(&al, if i == 0 || !ctx.quick() { 3 } else { 2 }) {
            let mut v = vec![Cmd::AddAttr(vec![(x.into(), b("Text")), (y.into(), b("Text"))])];
            v.extend(s);
            cases.push(Prog::new(v));
        }
    }
    ctx.run("names", &cases, |p, o| p05_check("seq3", p, o));
    let mut deep: Vec<Prog> = vec![];
    for s in sequences(&al, if ctx.quick() { 2 } else { 3 }) {
        let mut v = vec![ab()];
        v.extend(s.clone());
        deep.push(Prog::new(v));
        let mut v = vec![attr("a", b("Text"))];
        v.extend(s);
        deep.push(Prog::new(v));
    }
    for s in sequences(&al, 3) {
        if s.len() == 3 {
            deep.push(Prog::new(s));
        }
    }
    deep.retain(ok);
    ctx.run("seq3", &deep, |p, o| p05_check("seq3", p, o));
}

// ------------------------------------------------------------------ P06
pub static P06: Entry = (
    "P06",
    "model_checking",
    "every (base, extension) pair of command sequences up to the stated depths, and chains of extensions, each built with FROM in one store and in one go in a fresh one; identifiers, encoded bytes and the reference semantics' content are compared; non-trivial: the extension changes the bundle",
    &["the base's text and the extension are built by the same library version"],
    p06,
    |st, c| p06_check(st, &parse_case(c), &mut Obs::default()),
);
fn p06_check(stage: &str, chain: &Vec<Vec<Cmd>>, o: &mut Obs) -> Res {
    o.traces += 1;
    let mut w = World::new();
    let mut st = MState::default();
    let mut at: Option<String> = None;
    let mut all: Vec<Cmd> = vec![];
    for (k, part) in chain.iter().enumerate() {
        let mut cmds = part.clone();
        if let Some(b) = &at {
            cmds.insert(0, Cmd::From(b.clone()));
        }
        if stage == "unknown" {
            cmds.insert(0, Cmd::From(SAID1.into()));
        }
        let text = Prog::new(cmds).text();
        let mut want = Some(st.clone());
        for c in part {
            o.transitions += 1;
            want = want.and_then(|mut s| s.apply(c, &Env::default()).ok().map(|_| s));
        }
        if stage == "unknown" {
            want = None;
        }
        let got = guard(|| w.build_text(text.clone()))?;
        match (want, got) {
            (None, Err(_)) => return Ok(()),
            (None, Ok(_)) if stage == "unknown" => return fail("unknown-base", format!("FROM an unknown bundle builds\n{text}")),
            (None, Ok(_)) => return fail("accepted", format!("part {k} is ill-formed, yet builds on {all:?}\n{text}")),
            (Some(_), Err(e)) => return fail("rejected", format!("part {k}: {e}; base {all:?}\n{text}")),
            (Some(s), Ok(bd)) => {
                all.extend(part.iter().cloned());
                let one = Prog::new(all.clone());
                let mut w2 = World::new();
                let b2 = w2.build(&one).map_err(|e| Fail { key: "rejected".into(), msg: format!("in one go: {e}\n{}", one.text()) })?;
                if enc(&bd) != enc(&b2) || idents(&bd) != idents(&b2) {
                    return fail("from", format!("FROM gives another bundle than one go: {}\nbase and extension: {chain:?}", text_diff(&encs(&b2), &encs(&bd))));
                }
                let (x, y) = (s.json(), content(&bd));
                if x != y {
                    return fail("content", format!("{}\n{chain:?}", diff(&x, &y)));
                }
                if k > 0 && s == st && at.as_deref() != Some(&said_of(&bd)) {
                    return fail("no-change", format!("nothing changed, yet {} became {}", at.unwrap(), said_of(&bd)));
                }
                let stored = guard(|| w.f.get_oca_bundle(bd.said.clone().unwrap(), false))?;
                if stored.map(|x| enc(&x.bundle)).ok() != Some(enc(&bd)) {
                    return fail("stored", format!("the extended bundle is not served from the store\n{chain:?}"));
                }
                if s != st {
                    o.nontrivial(&(&at, &text));
                }
                o.state(&s);
                at = Some(said_of(&bd));
                st = s;
            }
        }
    }
    Ok(())
}
fn p06(ctx: &Ctx) {
    let mut al = reps();
    al.extend([
        attr("a", b("Text")),
        attr("z", Ty::Refs(SAID2.into())),
        rem(&["a"]),
        rem(&["b", "a"]),
        class("C"),
        Cmd::RemClass,
        label("en", &[("a", "L9")]),
        over(K::Unit, &[("a", "lb")]),
        elist("a", &["n"]),
        framing("f1", &[("version", "3")], "b", "u9", "p9", "j9"),
        link(SAID1, &[("b", "t9")]),
    ]);
    let mut cases: Vec<Vec<Vec<Cmd>>> = vec![];
    let mut bases: Vec<Vec<Cmd>> = vec![vec![ab()]];
    for s in sequences(&al, if ctx.quick() { 1 } else { 2 }) {
        let mut v = vec![ab()];
        v.extend(s);
        bases.push(v);
    }
    bases.push(full_prog().cmds);
    bases.extend(wide_progs().into_iter().take(6).map(|p| p.cmds));
    bases.push(vec![meta("en", &[("name", "N")])]);
    bases.push(vec![class("C")]);
    let mut exts: Vec<Vec<Cmd>> = vec![vec![]];
    exts.extend(sequences(&al, 1));
    for bs in &bases {
        for e in &exts {
            cases.push(vec![bs.clone(), e.clone()]);
        }
    }
    for e in sequences(&al, 2) {
        cases.push(vec![vec![ab()], e.clone()]);
        if !ctx.quick() {
            cases.push(vec![full_prog().cmds, e.clone()]);
        }
        if e.len() == 2 {
            cases.push(vec![vec![ab()], vec![e[0].clone()], vec![e[1].clone()]]);
        }
    }
    for s in broad() {
        for t in broad() {
            cases.push(vec![vec![ab(), s.clone()], vec![t]]);
        }
    }
    for v in values() {
        cases.push(vec![vec![ab(), label("en", &[("a", &v)]), meta("pl", &[("name", &v)]), elist("a", &[&v]), over(K::Unit, &[("a", &v)])], vec![info("en", &[("b", &v)])]]);
    }
    // odd names and large collections, cut in two at several places
    let mut cut: Vec<Prog> = odd_names(ctx);
    if ctx.quick() {
        cut = cut.into_iter().enumerate().filter(|(i, _)| *i < 42 || i % 7 == 0).map(|x| x.1).collect();
    }
    cut.extend(sizes(ctx).into_iter().take(if ctx.quick() { 12 } else { 20 }));
    cut.extend([sized_prog(33)].into_iter().take(!ctx.quick() as usize));
    let limits: Vec<Prog> = large(ctx);
    cut.extend(limits.into_iter().enumerate().filter(|(i, _)| !ctx.quick() || (1..19).contains(i) && i % 2 == 1 || i % 5 == 0).map(|x| x.1));
    for p in cut {
        let n = p.cmds.len();
        for at in if ctx.quick() { vec![n.saturating_sub(2).max(1), n] } else { (1..=n).collect() } {
            cases.push(vec![p.cmds[..at].to_vec(), if at < n { p.cmds[at..].to_vec() } else { vec![attr("new", b("Text"))] }]);
        }
    }
    // extended again and again
    cases.reverse();
    for n in if ctx.quick() { vec![12usize, 33, 66] } else { vec![12, 33, 66, 102, 130, 260] } {
        cases.push((0..n).map(|i| vec![if i == 0 { attr("a", b("Text")) } else { label(["en", "pl", "fr"][i % 3], &[("a", &format!("L{i}"))]) }]).collect());
        cases.push((0..n).map(|i| vec![match i % 3 { 0 => attr(&format!("a{i}"), b("Text")), 1 => over(K::Unit, &[(&format!("a{}", i - 1), "u")]), _ => meta("en", &[(&format!("k{i}"), "v")]) }]).collect());
        // many commands at once on a base of many
        cases.push(vec![(0..n).map(|i| attr(&format!("a{i}"), b("Text"))).collect(), (0..n).map(|i| label("en", &[(&format!("a{i}"), "L")])).collect(), (0..n / 2).map(|i| rem(&[&format!("a{i}")])).collect()]);
    }
    cases.reverse();
    ctx.run("chain", &cases, |p, o| p06_check("chain", p, o));
    ctx.run("unknown", &[vec![vec![ab()]], vec![vec![]], vec![vec![rem(&["a"])]]], |p, o| p06_check("unknown", p, o));
}

// ------------------------------------------------------------------ P28
pub static P28: Entry = (
    "P28",
    "model_checking",
    "all programs of the family, all command sequences up to the stated depth, all orders and groupings of commuting commands; grouped by the content the reference model gives them: one identifier per content, one content per identifier",
    &["the reference model in lang.rs says which programs have the same content"],
    p28,
    |st, c| if st == "distinct" { p28_distinct(&parse_case(c), &mut Obs::default()) } else { p28_same(&parse_case(c), &mut Obs::default()) },
);
fn p28_same(ps: &Vec<Prog>, o: &mut Obs) -> Res {
    let mut first: Option<(String, String)> = None;
    for p in ps {
        o.traces += 1;
        o.evals += 1;
        o.transitions += p.cmds.len() as u64;
        let t = p.text();
        let bd = build_free(t.clone()).map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}\n{t}") })?;
        let e = encs(&bd) + "\n" + &idents(&bd).join(",");
        match &first {
            None => {
                o.state(&e);
                first = Some((e, t));
            }
            Some((f, t0)) if *f != e => return fail("canonical", format!("the same content gives different bundles: {}\n{t0}-----\n{t}", text_diff(f, &e))),
            _ => {}
        }
    }
    if ps.len() > 1 {
        o.nontrivial(&ps[0].text());
    }
    Ok(())
}
fn p28_distinct(c: &(Prog, Prog), _: &mut Obs) -> Res {
    let id = |p: &Prog| build_free(p.text()).map(|b| said_of(&b)).map_err(|e| Fail { key: "rejected".into(), msg: format!("{e}\n{}", p.text()) });
    if id(&c.0)? == id(&c.1)? {
        return fail("distinct", format!("different contents have the same identifier\n{}-----\n{}", c.0.text(), c.1.text()));
    }
    Ok(())
}
fn p28(ctx: &Ctx) {
    let mut progs = family(ctx, !ctx.quick());
    // orders of four commands of different kinds, and of two commands per kind
    let r = reps();
    let at = || Cmd::AddAttr(vec![("a".into(), b("Text")), ("b".into(), b("Numeric"))]);
    for s in sequences(&r, if ctx.quick() { 3 } else { 4 }) {
        if s.len() > 1 && s.iter().enumerate().all(|(i, c)| !s[..i].contains(c)) {
            let mut v = vec![at()];
            v.extend(s);
            progs.push(Prog::new(v));
        }
    }
    for (_, c) in overlay_cmds("a", "b") {
        for s in sequences(&c, if ctx.quick() { 3 } else { 4 }) {
            let mut v = vec![at()];
            v.extend(s);
            progs.push(Prog::new(v));
        }
    }
    for s in sequences(&structure_cmds(), if ctx.quick() { 4 } else { 5 }) {
        progs.push(Prog::new(s));
    }
    progs.extend(odd_names(ctx));
    progs.extend(sizes(ctx));
    progs.extend(large(ctx));
    for (x, y) in name_pairs() {
        for f in [vec![flag(&[&x, &y])], vec![flag(&[&y, &x])], vec![flag(&[&y]), flag(&[&x])], vec![flag(&[&x]), flag(&[&y])]] {
            for at in [[&x, &y], [&y, &x]] {
                let mut v: Vec<Cmd> = at.iter().map(|n| attr(n, b("Text"))).collect();
                v.extend(f.clone());
                progs.push(Prog::new(v));
            }
        }
    }
    // one command for several attributes, or one for each, in either order
    let at2: Vec<Vec<Cmd>> = vec![vec![at()], vec![attr("b", b("Numeric")), attr("a", b("Text"))], vec![attr("a", b("Text")), attr("z", b("Text")), attr("b", b("Numeric")), rem(&["z"])]];
    for pre in &at2 {
        for k in [K::Fmt, K::Conf, K::Card, K::Unit] {
            let (x, y) = (over(k, &[("a", "u")]), over(k, &[("b", "v")]));
            for v in [vec![over(k, &[("a", "u"), ("b", "v")])], vec![over(k, &[("b", "v"), ("a", "u")])], vec![x.clone(), y.clone()], vec![y.clone(), x.clone()], vec![over(k, &[("a", "w")]), y.clone(), x.clone()]] {
                progs.push(Prog::new(pre.iter().cloned().chain(v).collect()));
            }
        }
        for v in [
            vec![meta("en", &[("name", "N"), ("x", "X")])],
            vec![meta("en", &[("x", "X"), ("name", "N")])],
            vec![meta("en", &[("x", "X")]), meta("en", &[("name", "N")])],
            vec![elist("a", &["2", "1", "3"])],
            vec![elist("a", &["3", "2", "1"])],
            vec![entry("en", "a", &[("1", "o"), ("2", "t")])],
            vec![entry("en", "a", &[("2", "t"), ("1", "o")])],
            vec![egroups("a", &[("g", &["1"]), ("h", &["2"])])],
            vec![egroups("a", &[("h", &["2"]), ("g", &["1"])])],
            vec![flag(&["a", "b"])],
            vec![flag(&["b", "a"])],
            vec![flag(&["b"]), flag(&["a"])],
            vec![framing("f", &[("label", "L"), ("version", "1")], "a", "k", "p", "j"), framing("f", &[], "b", "k", "p", "j")],
            vec![framing("f", &[("version", "1")], "b", "k", "p", "j"), framing("f", &[("label", "L")], "a", "k", "p", "j")],
        ] {
            progs.push(Prog::new(pre.iter().cloned().chain(v).collect()));
        }
    }
    let mut classes: std::collections::BTreeMap<String, Vec<Prog>> = Default::default();
    for p in progs {
        if let Ok(s) = MState::run(&p, &Env::default()) {
            if let Some(l) = s.last() {
                classes.entry(l.json().to_string()).or_default().push(p);
            }
        }
    }
    let classes: Vec<Vec<Prog>> = classes.into_values().collect();
    ctx.note("contents", classes.len());
    ctx.note("programs", classes.iter().map(|c| c.len()).sum::<usize>());
    ctx.run("same", &classes, p28_same);
    // no two contents share an identifier
    let ids = std::sync::Mutex::new(std::collections::HashMap::new());
    let pairs = std::sync::Mutex::new(vec![]);
    let reps: Vec<Prog> = classes.into_iter().map(|mut c| c.swap_remove(0)).collect();
    ctx.run("identifiers", &reps, |p, o| {
        o.evals += 1;
        let Ok(bd) = build_free(p.text()) else {
            return Ok(());
        };
        if let Some(q) = ids.lock().unwrap().insert(said_of(&bd), p.clone()) {
            pairs.lock().unwrap().push((p.clone(), q));
        }
        Ok(())
    });
    ctx.run("distinct", &pairs.into_inner().unwrap(), p28_distinct);
}
