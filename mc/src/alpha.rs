//! Command alphabets the enumerations are built from.
use crate::lang::*;

/// One or two representatives of every effective overlay command for attribute `x`, two values each.
pub fn overlay_cmds(x: &str, y: &str) -> Vec<(&'static str, Vec<Cmd>)> {
    vec![
        ("meta", vec![meta("en", &[("name", "N1")]), meta("en", &[("name", "N2"), ("description", "D")]), meta("pl", &[("name", "P")])]),
        ("label", vec![label("en", &[(x, "L1")]), label("en", &[(x, "L2"), (y, "L3")]), label("pl", &[(x, "E1")])]),
        ("info", vec![info("en", &[(x, "I1")]), info("en", &[(y, "I3"), (x, "I2")]), info("fr", &[(x, "F1")])]),
        ("enc", vec![over(K::Enc, &[(x, "utf-8")]), over(K::Enc, &[(x, "base64"), (y, "utf-16le")])]),
        ("fmt", vec![over(K::Fmt, &[(x, "image/png")]), over(K::Fmt, &[(x, "text/plain"), (y, "DD.MM")])]),
        ("conf", vec![over(K::Conf, &[(x, "M")]), over(K::Conf, &[(x, "O"), (y, "M")])]),
        ("card", vec![over(K::Card, &[(x, "1-2")]), over(K::Card, &[(x, "0-"), (y, "3")])]),
        ("unit", vec![over(K::Unit, &[(x, "kg")]), over(K::Unit, &[(x, "m/s"), (y, "cm")])]),
        ("flag", vec![flag(&[x]), flag(&[y, x])]),
        ("cond", vec![over(K::Cond, &[(x, &format!("${{{y}}} > 0"))]), over(K::Cond, &[(x, &format!("${{{y}}} >= 0 and ${{{y}}} < 9"))])]),
        ("ecode", vec![elist(x, &["o2", "o1"]), esai(x, SAID1), egroups(x, &[("g2", &["c1", "c0"]), ("g1", &["c2"])]), elist(y, &["q"])]),
        ("entry", vec![entry("en", x, &[("o2", "two"), ("o1", "one")]), entry_sai("en", x, SAID1), entry("pl", x, &[("o1", "jeden")]), entry("en", y, &[("q", "Q")])]),
        ("link", vec![link(SAID1, &[(x, "t1")]), link(SAID1, &[(x, "t2"), (y, "t3")]), link(SAID2, &[(x, "u1")])]),
        (
            "framing",
            vec![
                framing("f1", &[("label", "FL")], x, "u1", "p1", "j1"),
                framing("f1", &[("label", "FX"), ("version", "2")], x, "u1", "p2", "j2"),
                framing("f1", &[("location", "LOC")], y, "u2", "p1", "j1"),
                framing("f2", &[("label", "F2")], x, "u1", "p1", "j1"),
            ],
        ),
    ]
}
pub fn structure_cmds() -> Vec<Cmd> {
    vec![
        attr("a", b("Text")),
        attr("a", arr(b("Numeric"))),
        attr("b", Ty::Refs(SAID1.into())),
        Cmd::AddAttr(vec![("b".into(), b("Boolean")), ("c".into(), arr(arr(Ty::Refs(SAID2.into()))))]),
        rem(&["a"]),
        rem(&["b"]),
        rem(&["a", "b"]),
        class("GICS:1"),
        class("GICS:2"),
        Cmd::RemClass,
    ]
}
/// every command kind, several values: the broad alphabet
pub fn broad() -> Vec<Cmd> {
    let mut v = structure_cmds();
    for (_, c) in overlay_cmds("a", "b") {
        v.extend(c);
    }
    v
}
/// Commands whose names, codes and values differ only in case, by a suffix or in a separator.
pub fn near_cmds(x: &str, y: &str) -> Vec<Cmd> {
    let mut v = vec![rem(&[x]), rem(&[y]), attr(y, b("Boolean")), class("K"), class("k")];
    for (p, q) in [(x, y), (y, x)] {
        for (n, c) in overlay_cmds(p, q) {
            if !matches!(n, "framing" | "ecode" | "entry" | "meta") {
                v.extend(c.into_iter().take(2));
            }
        }
        v.push(framing(p, &[("label", "one"), ("version", "two")], p, q, "p", "j"));
        v.push(framing(p, &[("label", "One")], q, p, "P", "J"));
        v.push(elist(p, &[y, x]));
        v.push(egroups(p, &[(y, &[x, y]), (x, &[y])]));
        v.push(entry("en", p, &[(y, "w"), (x, "W")]));
        v.push(meta("en", &[(p, "v"), ("name", "V")]));
        v.push(meta("en", &[("Name", p)]));
    }
    v
}
pub fn ab() -> Cmd {
    Cmd::AddAttr(vec![("a".into(), b("Text")), ("b".into(), b("Numeric"))])
}
/// One representative per kind.
pub fn reps() -> Vec<Cmd> {
    overlay_cmds("a", "b").into_iter().map(|(_, c)| c[0].clone()).collect()
}
/// A program that uses every kind of command.
pub fn full_prog() -> Prog {
    let mut v = vec![ab(), Cmd::AddAttr(vec![("c".into(), arr(arr(b("DateTime")))), ("d".into(), Ty::Refs(SAID1.into())), ("e".into(), arr(Ty::Refs(SAID2.into())))]), class("GICS:35102020")];
    for (_, c) in overlay_cmds("a", "b") {
        v.extend(c);
    }
    v.push(label("pl", &[("b", "Be"), ("c", "Ce")]));
    v.push(info("pl", &[("c", "Ci"), ("a", "Ai")]));
    Prog::new(v)
}
/// Every kind of overlay for several attributes and languages at once, texts that coincide with
/// names, codes and one another, and orders other than by name.
pub fn wide_progs() -> Vec<Prog> {
    let mut out = vec![];
    let names = ["d", "a", "c", "b"];
    for langs in [["en", "pl", "fr"], ["pl", "fr", "de"], ["de", "en", "ja"]] {
        for same in [false, true] {
            let mut v = vec![Cmd::AddAttr(names.iter().map(|n| (n.to_string(), b(if *n < "b" || *n > "c" { "Text" } else { "Numeric" }))).collect()), flag(&["c", "d"]), flag(&["a"])];
            let all = |s: &str| -> KV { names.iter().map(|n| (n.to_string(), if same { "a".into() } else { format!("{n} {s}") })).collect() };
            let codes = |n: &str| vec![n.to_string(), "a".to_string(), format!("{n}0")];
            v.push(Cmd::Ecode(names.iter().map(|n| (n.to_string(), Ec::List(codes(n)))).collect()));
            for l in langs {
                v.push(Cmd::Meta(l.into(), if same { kv(&[("name", "alpha"), ("description", "alpha")]) } else { kv(&[("name", &format!("alpha word{l}")), ("x", l)]) }));
                v.push(Cmd::Label(l.into(), all(l)));
                v.push(Cmd::Info(l.into(), all("i")));
                v.push(Cmd::Entry(l.into(), names.iter().map(|n| (n.to_string(), En::Map(codes(n).iter().map(|c| (c.clone(), if same || c == n { c.clone() } else { format!("{c} {l}") })).collect()))).collect()));
            }
            for k in [K::Fmt, K::Conf, K::Card, K::Unit] {
                v.push(Cmd::Over(k, all("v")));
            }
            v.push(Cmd::Over(K::Enc, names.iter().map(|n| (n.to_string(), "utf-8".into())).collect()));
            v.push(Cmd::Over(K::Cond, vec![("a".into(), "${c} == ${b} and ${c} > 1".into()), ("d".into(), "${b} == ${c}".into())]));
            for t in [SAID2, SAID1] {
                v.push(Cmd::Link(Ty::Refs(t.into()), all("t")));
            }
            for f in ["f2", "f1"] {
                for n in names {
                    v.push(framing(f, &[("label", if same { "a" } else { "F" })], n, if same { "a" } else { n }, "p", "j"));
                }
            }
            out.push(Prog::new(v));
        }
    }
    // the same with attributes named and flagged in every order
    for i in 0..24usize {
        let mut left = names.to_vec();
        let mut k = i;
        let mut order = vec![];
        for m in (1..=4).rev() {
            order.push(left.remove(k % m));
            k /= m;
        }
        let mut v: Vec<Cmd> = order.iter().map(|n| attr(n, b("Text"))).collect();
        v.push(flag(&[order[2], order[0], order[3]]));
        v.push(Cmd::Label("en".into(), order.iter().map(|n| (n.to_string(), n.to_string())).collect()));
        out.push(Prog::new(v));
    }
    out
}
/// every attribute name of up to `n` characters over the kinds of character a name can have
pub fn names(n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for _ in 0..n {
        last = last.iter().flat_map(|p| ["a", "A", "0", "-", "_", "."].iter().map(move |c| format!("{p}{c}"))).collect();
        out.extend(last.clone());
    }
    out
}
/// Every kind of command for the attributes `x` and `y`, in the order given.
pub fn named_prog(x: &str, y: &str, rev: bool) -> Prog {
    let mut v = vec![attr(x, b("Numeric")), attr(y, b("Numeric"))];
    if rev {
        v.reverse();
    }
    let (p, q) = if rev { (y, x) } else { (x, y) };
    v.push(class(x));
    for (n, c) in overlay_cmds(p, q) {
        match n {
            "cond" => v.push(c[0].clone()),
            "flag" => v.push(c[1].clone()),
            "ecode" => v.extend([c[0].clone(), c[3].clone()]),
            "entry" => v.extend([c[0].clone(), c[3].clone()]),
            "link" => v.push(c[1].clone()),
            "framing" => v.extend([c[0].clone(), c[2].clone()]),
            _ => v.push(c[1].clone()),
        }
    }
    Prog::new(v)
}
/// two names that are easily taken for each other, in either order
pub fn name_pairs() -> Vec<(String, String)> {
    let all = names(2);
    let canon = |s: &String| s.to_lowercase().replace(['-', '.'], "_").replace("__", "_").trim_matches('_').trim_start_matches('0').to_string();
    let mut out = vec![];
    for x in &all {
        for y in &all {
            if x != y && (canon(x) == canon(y) || y.starts_with(x.as_str()) && y.len() > x.len() || y.ends_with(x.as_str())) {
                out.push((x.clone(), y.clone()));
            }
        }
    }
    out
}
/// one collection of each kind, with `n` members
pub fn large_prog(n: usize) -> Prog {
    let names: Vec<String> = (0..n).rev().map(|i| format!("n{i}")).collect();
    let pairs = |p: &str| -> KV { names.iter().map(|x| (x.clone(), format!("{p} {x}"))).collect() };
    let mut v = vec![
        Cmd::AddAttr(names.iter().map(|x| (x.clone(), b("Numeric"))).collect()),
        Cmd::Flag(names.clone()),
        Cmd::Meta("en".into(), pairs("m")),
        Cmd::Label("en".into(), pairs("l")),
        Cmd::Info("pl".into(), pairs("i")),
        Cmd::Over(K::Enc, names.iter().map(|x| (x.clone(), "utf-8".into())).collect()),
    ];
    for k in [K::Fmt, K::Conf, K::Card, K::Unit] {
        v.push(Cmd::Over(k, pairs("v")));
    }
    let c: Vec<String> = names[..n - 1].iter().map(|x| format!("${{{x}}} > 0")).collect();
    v.push(over(K::Cond, &[("n0", &c.join(" and "))]));
    let of = |x: &str| names.iter().map(|c| (c.clone(), format!("{x} {c}"))).collect::<KV>();
    v.push(Cmd::Ecode(vec![("n0".into(), Ec::List(names.clone())), ("n1".into(), Ec::Groups(vec![("g".into(), names.clone())])), ("n2".into(), Ec::Groups(names.iter().map(|x| (x.clone(), vec!["c".into()])).collect()))]));
    v.push(Cmd::Entry("en".into(), vec![("n0".into(), En::Map(of("w")))]));
    v.push(Cmd::Link(Ty::Refs(SAID1.into()), pairs("t")));
    v.push(Cmd::Framing("f".into(), kv(&[("label", "F")]), vec![("n0".into(), names.iter().map(|x| (x.clone(), "p".into(), "j".into())).collect())]));
    Prog::new(v)
}
pub const LANGS: [&str; 40] =
    ["en", "pl", "fr", "de", "ja", "it", "es", "pt", "nl", "sv", "da", "fi", "cs", "sk", "hu", "ro", "bg", "el", "tr", "uk", "ar", "he", "fa", "hi", "bn", "ta", "te", "th", "vi", "ko", "zh", "id", "ms", "sw", "am", "ka", "hy", "et", "lv", "lt"];
/// every collection of a bundle with `n` members, put in an order other than by name
pub fn sized_prog(n: usize) -> Prog {
    let order: Vec<usize> = (0..n).map(|i| (i * 7 + 3) % n).collect();
    let order = if order.iter().collect::<std::collections::BTreeSet<_>>().len() == n { order } else { (0..n).rev().collect() };
    let all = |p: &str| -> Vec<String> { order.iter().map(|i| format!("{p}{i}")).collect() };
    let names = all("n");
    let pairs = |p: &str| -> KV { order.iter().map(|i| (format!("n{i}"), format!("{p} {i}"))).collect() };
    let codes = all("c");
    let mut v = vec![Cmd::AddAttr(names.iter().map(|x| (x.clone(), b("Numeric"))).collect()), Cmd::Flag(names.clone())];
    for l in LANGS.iter().take(n) {
        v.push(meta(l, &[("name", l)]));
    }
    v.push(Cmd::Meta("en".into(), order.iter().map(|i| (format!("k{i}"), format!("m {i}"))).collect()));
    for l in ["pl", "en"] {
        v.push(Cmd::Label(l.into(), pairs("l")));
        v.push(Cmd::Info(l.into(), pairs("i")));
    }
    for k in [K::Fmt, K::Conf, K::Card, K::Unit] {
        v.push(Cmd::Over(k, pairs("v")));
    }
    v.push(Cmd::Over(K::Enc, names.iter().map(|x| (x.clone(), "utf-8".into())).collect()));
    if n > 1 {
        let c: Vec<String> = names.iter().filter(|x| *x != "n0").map(|x| format!("${{{x}}} > 0")).collect();
        v.push(over(K::Cond, &[("n0", &c.join(" and "))]));
    }
    v.push(Cmd::Ecode(names.iter().enumerate().map(|(i, x)| (x.clone(), if i == 0 { Ec::List(codes.clone()) } else { Ec::Groups(all("g").into_iter().map(|g| (g, codes.clone())).take(if i == 1 { n } else { 1 }).collect()) })).collect()));
    for l in ["pl", "en"] {
        v.push(Cmd::Entry(l.into(), names.iter().take(2).map(|x| (x.clone(), En::Map(codes.iter().map(|c| (c.clone(), format!("{c} {l}"))).collect()))).collect()));
    }
    for s in [SAID2, SAID1] {
        v.push(Cmd::Link(Ty::Refs(s.into()), pairs("t")));
    }
    for x in names.iter().take(2) {
        for c in &codes {
            v.push(framing("f", &[("label", "F")], x, c, "p", "j"));
        }
    }
    Prog::new(v)
}
