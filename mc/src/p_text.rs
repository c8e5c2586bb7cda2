//! P07 export and rebuild, P08 AST/text/JSON, P09 layout, P22 no crash on any text.
use crate::alpha::*;
use crate::lang::*;
use crate::p_core::{family, values};
use crate::rt::*;
use crate::sys::*;
use oca_ast_semantics::ast::{Command, OCAAst};
use oca_file_semantics::ocafile::{generate_from_ast, parse_from_string};
use oca_rs::facade::build::parse_oca_bundle_to_ocafile;
use serde::{Deserialize, Serialize};
use serde_json::Value;

type Entry = (&'static str, &'static str, &'static str, &'static [&'static str], fn(&Ctx), fn(&str, &Value) -> Res);

// ------------------------------------------------------------------ P07
pub static P07: Entry = (
    "P07",
    "model_checking",
    "every history of the stated families (single programs, sequences up to the stated depth over the broad alphabet, pairs of programs and FROM extensions in one store), under several hash-map orders; every export of every bundle is rebuilt in a fresh store; non-trivial: distinct exported texts",
    &["the bundle has content: for an empty bundle no OCAfile exists"],
    p07,
    |_, c| p07_check(&parse_case(c), &mut Obs::default()),
);
#[derive(Serialize, Deserialize, Clone)]
struct History {
    progs: Vec<Prog>,
    seed: u64,
}
fn p07_check(h: &History, o: &mut Obs) -> Res {
    isolated(h.seed, || p07_inner(h, o))?
}
fn p07_inner(h: &History, o: &mut Obs) -> Res {
    let mut w = World::new();
    let mut built: Vec<oca_bundle_semantics::state::oca::OCABundle> = vec![];
    for p in &h.progs {
        // <n> stands for the identifier of the n-th built bundle
        let mut t = p.text();
        for (i, b) in built.iter().enumerate() {
            t = t.replace(&format!("<{i}>"), &said_of(b));
        }
        let bd = match w.build_text(t.clone()) {
            Ok(b) => b,
            Err(e) => return fail("setup", format!("{e}\n{t}")),
        };
        built.push(bd);
    }
    o.transitions += h.progs.iter().map(|p| p.cmds.len() as u64).sum::<u64>();
    let mut done = std::collections::BTreeSet::new();
    for bd in &built {
        let id = said_of(bd);
        let empty = content(bd) == MState::default().json();
        if empty || !done.insert(id.clone()) {
            continue;
        }
        o.state(&id);
        let want = enc(bd);
        let mut texts: Vec<(&str, String)> = vec![("free export", guard(|| parse_oca_bundle_to_ocafile(bd))?)];
        texts.push(("facade export", guard(|| w.f.parse_oca_bundle_to_ocafile(bd))?.map_err(|e| e.join(";"))?));
        let stored = match w.f.get_oca_bundle(sai(&id), false) {
            Ok(b) => b.bundle,
            Err(e) => return fail("stored", format!("{id} is not retrievable: {e:?}")),
        };
        texts.push(("export of the stored bundle", guard(|| parse_oca_bundle_to_ocafile(&stored))?));
        let loaded = load(&encs(bd))?;
        texts.push(("export of the loaded bundle", guard(|| parse_oca_bundle_to_ocafile(&loaded))?));
        for d in [false, true] {
            texts.push((
                if d { "history, dereferenced" } else { "history" },
                guard(|| w.f.get_oca_bundle_ocafile(sai(&id), d))?.map_err(|e| Fail { key: "history".into(), msg: e.join(";") })?,
            ));
        }
        let mut seen = std::collections::BTreeSet::new();
        for (who, t) in texts {
            if !seen.insert(t.clone()) {
                continue;
            }
            o.nontrivial(&t);
            o.traces += 1;
            let mut f = World::new();
            match guard(|| f.build_text(t.clone()))? {
                Ok(r) => {
                    if enc(&r) != want {
                        return fail("export", format!("{who} of {id} rebuilds to {}: {}\n--- export:\n{t}", said_of(&r), diff(&content(bd), &content(&r))));
                    }
                }
                Err(e) => return fail("export", format!("{who} of {id} does not build: {e}\n--- export:\n{t}")),
            }
        }
    }
    Ok(())
}
fn p07(ctx: &Ctx) {
    let h = |p: Vec<Prog>, seed| History { progs: p, seed };
    let seeds = if ctx.quick() { 2u64 } else { 8 };
    let ok = |v: &Vec<Cmd>| MState::run(&Prog::new(v.clone()), &Env::default()).is_ok();
    let mut cases: Vec<History> = vec![];
    for p in family(ctx, false) {
        for s in 0..seeds {
            cases.push(h(vec![p.clone()], s));
        }
    }
    // several values of everything, bare words, whole-frame metadata, names
    for v in values() {
        for w in ["x", "it's"] {
            cases.push(h(vec![Prog::new(vec![ab(), framing("f", &[("label", &v), ("location", w), ("version", &v)], "a", "k", w, &v)])], 0));
        }
    }
    cases.push(h(vec![Prog::named("nm", vec![attr("a", b("Text"))]), Prog::new(vec![attr("r", Ty::Refn("nm".into())), attr("q", arr(arr(Ty::Refn("nm".into())))), Cmd::Link(Ty::Refn("nm".into()), kv(&[("r", "a")]))])], 0));
    ctx.run("export", &cases, p07_check);
    ctx.run("large", &crate::p_core::large(ctx).into_iter().map(|p| h(vec![p], 0)).collect::<Vec<_>>(), p07_check);
    let mut deep = vec![];
    for s in sequences(&broad(), if ctx.quick() { 2 } else { 3 }) {
        let mut v = vec![ab()];
        v.extend(s);
        if ok(&v) {
            deep.push(h(vec![Prog::new(v)], 3));
        }
    }
    ctx.run("depth", &deep, p07_check);
    // several histories in one store
    let r = reps();
    let mut multi = vec![];
    for x in broad() {
        let from = |n: usize, c: &[Cmd]| {
            let mut v = vec![Cmd::Raw(format!("FROM <{n}>"))];
            v.extend_from_slice(c);
            Prog::new(v)
        };
        for y in &r {
            if ok(&vec![ab(), x.clone(), y.clone()]) && ok(&vec![ab(), y.clone(), x.clone()]) {
                multi.push(h(vec![Prog::new(vec![ab(), x.clone()]), from(0, &[y.clone()])], 1));
                multi.push(h(vec![Prog::new(vec![ab()]), from(0, &[x.clone(), y.clone()]), Prog::new(vec![ab(), y.clone()]), from(2, &[x.clone()])], 1));
                multi.push(h(vec![Prog::new(vec![ab(), y.clone(), x.clone()]), Prog::new(vec![ab(), x.clone(), y.clone()])], 1));
            }
        }
    }
    ctx.run("stores", &multi, p07_check);
}

// ------------------------------------------------------------------ P08
pub static P08: Entry = (
    "P08",
    "model_checking",
    "every command text of the stated families: all commands of the alphabets with every value in every quoting form, every syntactic variant, every array nesting up to the stated depth, alone and in sequences; each parsed, printed, parsed again, and serialised to JSON and back; non-trivial: distinct parsed forms",
    &[],
    p08,
    |_, c| p08_check(&parse_case::<String>(c), &mut Obs::default()),
);
fn p08_check(t: &String, o: &mut Obs) -> Res {
    o.traces += 1;
    let ast = match guard(|| parse_from_string(t.clone()))? {
        Ok(a) => a,
        Err(e) => return fail("setup", format!("{e:?}\n{t}")),
    };
    let js = |c: &Vec<Command>| serde_json::to_string(c).unwrap();
    o.nontrivial(&js(&ast.commands));
    o.state(&js(&ast.commands));
    o.transitions += ast.commands.len() as u64;
    let printed = guard(|| generate_from_ast(&ast))?;
    let again = match guard(|| parse_from_string(printed.clone()))? {
        Ok(a) => a,
        Err(e) => return fail("print", format!("the printed form does not parse: {e:?}\n--- text:\n{t}\n--- printed:\n{printed}")),
    };
    if again.commands != ast.commands {
        return fail("print", format!("printing changes the commands: {}\n--- text:\n{t}\n--- printed:\n{printed}", crate::p_core::text_diff(&js(&ast.commands), &js(&again.commands))));
    }
    for c in &ast.commands {
        let s = serde_json::to_string(c).unwrap();
        match guard(|| serde_json::from_str::<Command>(&s))? {
            Ok(b) if &b == c => {}
            Ok(b) => return fail("json", format!("JSON changes the command: {s}\nexpected {c:?}\n     got {b:?}")),
            Err(e) => return fail("json", format!("JSON does not read back: {e}: {s}")),
        }
    }
    let s = serde_json::to_string(&ast).unwrap();
    match guard(|| serde_json::from_str::<OCAAst>(&s))? {
        Ok(b) if b == ast => {
            if guard(|| generate_from_ast(&b))? != printed {
                return fail("json", format!("prints differently after JSON: {s}"));
            }
        }
        Ok(b) => return fail("json", format!("JSON changes the parsed form: {s}\nexpected {ast:?}\n     got {b:?}")),
        Err(e) => return fail("json", format!("JSON does not read back: {e}: {s}")),
    }
    Ok(())
}
/// every way to write a value
fn quoted(v: &str) -> Vec<String> {
    let mut r = vec![];
    let esc = |q: char| {
        let mut c = v.chars();
        while let Some(x) = c.next() {
            if x == q || x == '\\' && c.next().is_none() {
                return false;
            }
        }
        true
    };
    if esc('"') {
        r.push(format!("\"{v}\""));
    }
    if esc('\'') {
        r.push(format!("'{v}'"));
    }
    r
}
fn value_variants() -> Vec<String> {
    let mut v: Vec<String> = values().iter().flat_map(|v| quoted(v)).collect();
    v.extend(
        ["bare", "a-b_c.d/e:f", "12.5", "zażółć", "日本", "\"a\\\"b\"", "'a\\'b'", "'a\"b'", "\"a'b\"", "\"a\\'b\"", "'a\\\"b'", "\"line\nbreak\"", "\"tab\\t\"", "\"\\\n\"", "\"\\u00e9\\U0001F600\"", "'\\\\'", "\"\\\\\\\"\"", "refs:x", "refn:y", "\"refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0\"", "\"refn:dog\""]
            .iter()
            .map(|s| s.to_string()),
    );
    v.sort();
    v.dedup();
    v
}
fn p08_texts(ctx: &Ctx) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let p = "ADD ATTRIBUTE a=Text b=Numeric\n";
    let k = |v: &str| v.starts_with('"') || v.starts_with('\'');
    for v in value_variants() {
        for c in [
            "ADD LABEL en ATTRS a=@ b=\"x\"", "ADD META en PROPS name=@", "ADD META pl PROPS a=@ b=@", "ADD INFORMATION pl ATTRS a=@ b=@", "ADD CHARACTER_ENCODING ATTRS a=@",
            "ADD FORMAT ATTRS a=@", "ADD CONFORMANCE ATTRS a=@ b=@", "ADD CONDITION ATTRS a=@", "ADD CARDINALITY ATTRS a=@ b=@", "ADD UNIT ATTRS a=@ b=@", "ADD ENTRY_CODE ATTRS a=@", "ADD ENTRY en ATTRS a=@ b=@",
            "ADD LINK refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0 ATTRS a=@ b=@", "ADD LINK refn:dog ATTRS a=@", "ADD ATTR_FRAMING id=@ ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}",
            "ADD ATTR_FRAMING id=\"i\" label=@ location=@ version=@ ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}",
        ] {
            out.push(format!("{p}{}\n", c.replace('@', &v)));
        }
        if k(&v) {
            for c in [
                "ADD ENTRY_CODE ATTRS a=[@] b=[\"x\", @]", "ADD ENTRY_CODE ATTRS a={@: [@], \"z\": []}", "ADD ENTRY en ATTRS a={@: @, \"z\": \"y\"}",
                "ADD ATTR_FRAMING id=\"i\" ATTRS a={@: {\"predicate_id\": @, \"framing_justification\": @}}", "ADD FLAGGED_ATTRIBUTES @", "ADD CLASSIFICATION @",
            ] {
                out.push(format!("{p}{}\n", c.replace('@', &v)));
            }
        }
    }
    for t in BASE_TYPES.iter().map(|s| s.to_string()).chain([format!("refs:{SAID1}"), "refn:dog".into(), "refn:a/b:c.d-e_f".into()]) {
        for d in 0..100 {
            out.push(format!("ADD ATTRIBUTE a-1_.x={}{t}{} B=Text\n", "Array[".repeat(d), "]".repeat(d)));
        }
    }
    for c in [
        "ADD ENTRY_CODE ATTRS a=[]", "ADD ENTRY_CODE ATTRS a={}", "ADD ENTRY en ATTRS a={}", "ADD CLASSIFICATION GICS:1", "REMOVE CLASSIFICATION", "REMOVE ATTRIBUTE a", "REMOVE ATTRIBUTE a b", "ADD FLAGGED_ATTRIBUTES a b",
        "ADD CHARACTER_ENCODING PROPS x=\"y\"", "ADD CHARACTER_ENCODING PROPS x=y z=\"w\"", "ADD LABEL en-US ATTRS a=\"x\"", "add label pl attrs a='x'",
        "ADD ATTR_FRAMING id=\"i\" ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}, \"l\": {\"framing_justification\": \"j\", \"predicate_id\": \"p\"}}",
        "ADD ATTR_FRAMING id=\"i\" ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}} b={\"l\": {\"predicate_id\": \"q\", \"framing_justification\": \"r\"}}",
        "ADD ATTR_FRAMING id=i label=l ATTRS a={\"Key\": {\"Predicate_ID\": \"p\", \"framing_justification\": \"j\"}}",
        "FROM EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0",
    ] {
        let pre = if c.starts_with("REMOVE CL") { format!("{p}ADD CLASSIFICATION x\n") } else if c.starts_with("FROM") { String::new() } else { p.to_string() };
        out.push(format!("{pre}{c}\n"));
        out.push(format!("-- name=dog\n-- version=0.0.1\n{pre}{c}\n"));
    }
    for p in family(ctx, true).into_iter().chain(crate::p_core::large(ctx)) {
        out.push(p.text());
    }
    for s in sequences(&reps(), 3) {
        let mut v = vec![ab()];
        v.extend(s);
        out.push(Prog::new(v).text());
    }
    for s in sequences(&broad(), if ctx.quick() { 2 } else { 3 }) {
        let mut v = vec![ab()];
        v.extend(s);
        if MState::run(&Prog::new(v.clone()), &Env::default()).is_ok() {
            out.push(Prog::new(v).text());
        }
    }
    out
}
fn p08(ctx: &Ctx) {
    ctx.run("roundtrip", &p08_texts(ctx), p08_check);
}

// ------------------------------------------------------------------ P09
pub static P09: Entry = (
    "P09",
    "model_checking",
    "every layout change of the stated lists at every position of every program of the family, alone and in pairs at the smaller programs; values holding text that looks like headers, comments or commands; a failing command at every position among layout lines; non-trivial: distinct texts",
    &[],
    p09,
    |st, c| match st {
        "lines" | "far" => p09_line(&parse_case(c), &mut Obs::default()),
        "values" => p09_value(&parse_case::<(Prog, Vec<String>)>(c), &mut Obs::default()),
        _ => p09_layout(&parse_case(c), &mut Obs::default()),
    },
);
/// positions of blanks and equal signs between arguments, outside quotes, braces and brackets
fn gaps(cmd: &str) -> (Vec<usize>, Vec<usize>) {
    let (mut sp, mut eq) = (vec![], vec![]);
    let (mut q, mut d) = (None, 0);
    let mut esc = false;
    for (i, c) in cmd.char_indices() {
        if esc {
            esc = false;
            continue;
        }
        match c {
            '\\' if q.is_some() => esc = true,
            '"' | '\'' if q.is_none() => q = Some(c),
            c if Some(c) == q => q = None,
            '{' | '[' if q.is_none() => d += 1,
            '}' | ']' if q.is_none() => d -= 1,
            ' ' if q.is_none() && d == 0 => sp.push(i),
            '=' if q.is_none() && d == 0 => eq.push(i),
            _ => {}
        }
    }
    (sp, eq)
}
const BLANKS: [&str; 11] = ["  ", "\t", " \t ", " \\\n", "\\\n", " \\\n  ", "\\\n# c\n", "\\ \t\n \t\n", " \\\n  # ADD ATTRIBUTE z=Text \\\n\n \t", " \\\r\n ", " \\\n#\n\n# -- name=x\n "];
const EQUALS: [&str; 7] = [" = ", "= ", " =", "\t=\t", "=\\\n", " \\\n = ", " \\\n#c\n=  "];
pub const BETWEEN: [&str; 14] = [
    "\n", "\n\n\n", " \t\n", "# comment\n", "  # indented\n", "#\n", "# ends with \\\n", "# ADD ATTRIBUTE z=Text\n", "-- version=0.0.1\n", "-- name=anything\n", "-- precompiler=semantics\n", "\t-- name = x\n", "# \"\n", "\r\n",
];
pub const ENDS: [&str; 6] = [" ", "\t", "  \t ", "\n", "\r", " \n"];
#[derive(Serialize, Deserialize, Clone)]
struct Layout {
    cmds: Vec<String>,
    text: String,
    what: String,
    build: bool,
}
fn keyword_cases(cmd: &str) -> Vec<String> {
    let mut out = vec![];
    let words: Vec<&str> = cmd.split(' ').collect();
    let kw = ["ADD", "REMOVE", "ATTRIBUTE", "CLASSIFICATION", "META", "LABEL", "INFORMATION", "CHARACTER_ENCODING", "FORMAT", "CONFORMANCE", "CONDITION", "CARDINALITY", "UNIT", "ENTRY_CODE", "ENTRY", "LINK", "ATTR_FRAMING", "FLAGGED_ATTRIBUTES", "ATTRS", "PROPS", "FROM", "RENAME"];
    let idx: Vec<usize> = (0..words.len()).filter(|i| kw.contains(&words[*i]) && *i < 6).collect();
    let low = |s: &str| s.to_lowercase();
    let mix = |s: &str| s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
    for f in [&low as &dyn Fn(&str) -> String, &mix] {
        let mut all: Vec<String> = words.iter().map(|s| s.to_string()).collect();
        for i in &idx {
            let mut one: Vec<String> = words.iter().map(|s| s.to_string()).collect();
            one[*i] = f(words[*i]);
            out.push(one.join(" "));
            all[*i] = f(words[*i]);
        }
        out.push(all.join(" "));
    }
    out
}
/// every single layout variant of one command
pub fn variants(cmd: &str) -> Vec<(String, String)> {
    let (sp, eq) = gaps(cmd);
    let mut v = vec![];
    let from = cmd.starts_with("FROM");
    for i in sp.iter() {
        for b in BLANKS {
            if from && b.contains('\\') {
                continue;
            }
            v.push((format!("{}{b}{}", &cmd[..*i], &cmd[i + 1..]), format!("blank {b:?}")));
        }
    }
    for i in eq.iter() {
        for b in EQUALS {
            v.push((format!("{}{b}{}", &cmd[..*i], &cmd[i + 1..]), format!("equal {b:?}")));
        }
    }
    for b in BLANKS {
        if !from {
            let t = sp.iter().rev().fold(cmd.to_string(), |s, i| format!("{}{b}{}", &s[..*i], &s[i + 1..]));
            v.push((t, format!("all blanks {b:?}")));
        }
    }
    for k in keyword_cases(cmd) {
        v.push((k, "case".into()));
    }
    for e in [" ", "\t", " \t "] {
        v.push((format!("{cmd}{e}"), "trailing".into()));
    }
    v
}
fn norm(ast: &OCAAst) -> String {
    serde_json::to_string(&ast.commands).unwrap()
}
fn p09_layout(l: &Layout, o: &mut Obs) -> Res {
    o.traces += 1;
    o.nontrivial(&l.text);
    let base = l.cmds.join("\n") + "\n";
    let parse = |t: &str| guard(|| oca_file::ocafile::parse_from_string(t.to_string()));
    let want = match parse(&base)? {
        Ok(oca_file::ocafile::OCAAst::SemanticsAst(a)) => a,
        r => return fail("setup", format!("{r:?}\n{base}")),
    };
    o.transitions += want.commands.len() as u64;
    o.state(&norm(&want));
    let got = match parse(&l.text)? {
        Ok(oca_file::ocafile::OCAAst::SemanticsAst(a)) => a,
        Ok(_) => return fail("layout", format!("[{}] taken for a transformation:\n{}", l.what, l.text)),
        Err(e) => return fail("layout", format!("[{}] does not parse: {e:?}\n{}", l.what, l.text)),
    };
    if norm(&got) != norm(&want) {
        return fail("layout", format!("[{}] changes the commands: {}\n{}", l.what, crate::p_core::text_diff(&norm(&want), &norm(&got)), l.text));
    }
    if l.build {
        let mut w = World::new();
        match (build_free(base.clone()), guard(|| build_free(l.text.clone()))?, guard(|| w.build_text(l.text.clone()))?) {
            (Ok(a), Ok(b), Ok(c)) if enc(&a) == enc(&b) && enc(&a) == enc(&c) => {}
            (a, b, c) => {
                let f = |r: &Result<oca_bundle_semantics::state::oca::OCABundle, String>| r.as_ref().map(said_of).unwrap_or_else(|e| e.clone());
                return fail("layout", format!("[{}] builds {} / {} instead of {}\n{}", l.what, f(&b), f(&c), f(&a), l.text));
            }
        }
    }
    Ok(())
}
/// values that hold text looking like layout
fn p09_value(c: &(Prog, Vec<String>), o: &mut Obs) -> Res {
    o.traces += 1;
    let want = match MState::run(&c.0, &Env::default()) {
        Ok(s) => s.last().unwrap().json(),
        Err(e) => return fail("setup", e.1),
    };
    let mut w = World::new();
    let t = c.0.text();
    o.nontrivial(&t);
    for (who, r) in [("free", guard(|| build_free(t.clone()))?), ("facade", guard(|| w.build_text(t.clone()))?)] {
        match r {
            Ok(bd) if content(&bd) == want => {}
            Ok(bd) => return fail("value", format!("{who}: {}\n{t}", diff(&want, &content(&bd)))),
            Err(e) => return fail("value", format!("{who}: {e}\n{t}")),
        }
    }
    let refs = guard(|| w.f.fetch_all_refs().unwrap())?;
    if !refs.is_empty() {
        return fail("value", format!("a value was taken for a name header: {refs:?}\n{t}"));
    }
    Ok(())
}
#[derive(Serialize, Deserialize, Clone)]
struct Lines {
    text: String,
    line: usize,
    /// the failing command's text
    raw: String,
    from: bool,
    /// 0 reported when built, 1 when parsed
    parse: bool,
}
fn p09_line(l: &Lines, o: &mut Obs) -> Res {
    use oca_rs::facade::build::{Error as E, ValidationError as V};
    o.traces += 1;
    let mut w = World::new();
    let mut text = l.text.clone();
    let mut free = true;
    if l.from {
        let b = w.build(&Prog::new(vec![ab()]))?;
        text = text.replace("<BASE>", &said_of(&b));
        free = false;
    }
    o.nontrivial(&text);
    let mut results = vec![guard(|| w.f.build_from_ocafile(text.clone()))?];
    if free {
        results.push(guard(|| oca_rs::facade::build::build_from_ocafile(text.clone()))?);
    }
    for r in results {
        let errs = match r {
            Ok(_) => return fail("accepted", format!("builds:\n{text}")),
            Err(E::ValidationError(v)) => v,
            Err(e) => return fail("error", format!("{e}")),
        };
        if errs.is_empty() {
            return fail("error", format!("no error:\n{text}"));
        }
        for e in errs {
            let (line, raw) = match &e {
                V::OCABundleBuild(oca_bundle_semantics::build::Error::FromASTError { line_number, raw_line, .. }) => (*line_number, raw_line.clone()),
                V::InvalidCommand { line_number, raw_line, .. } => (*line_number, raw_line.clone()),
                V::OCAFileParse(oca_file::ocafile::error::ParseError::SemanticsError(oca_file_semantics::ocafile::error::ParseError::GrammarError { line_number, raw_line, .. }))
                | V::OCAFileParse(oca_file::ocafile::error::ParseError::GrammarError { line_number, raw_line, .. }) if l.parse => (*line_number, raw_line.clone()),
                e => return fail("error", format!("unexpected kind of error {e:?}\n{text}")),
            };
            if line != l.line || !raw.contains(l.raw.split([' ', '\\']).next().unwrap()) {
                return fail("line", format!("error names line {line} ({raw:?}), the command is on line {}: {e}\n{text}", l.line));
            }
        }
    }
    Ok(())
}
fn p09(ctx: &Ctx) {
    let mut progs: Vec<Vec<String>> = vec![];
    let mut all: Vec<Cmd> = broad();
    all.push(Cmd::Framing("f".into(), kv(&[("label", "L M"), ("version", "1")]), vec![("a".into(), vec![("k".into(), "p".into(), "j".into())]), ("b".into(), vec![("l".into(), "q".into(), "r".into())])]));
    all.push(label("en", &[("a", "x = y # z"), ("b", "it's \\\" q")]));
    all.push(Cmd::Ecode(vec![("a".into(), Ec::List(vec!["x".into()])), ("b".into(), Ec::Sai(SAID1.into()))]));
    all.push(Cmd::Entry("en".into(), vec![("a".into(), En::Map(vec![("x".into(), "X".into())])), ("b".into(), En::Sai(SAID1.into()))]));
    for x in &all {
        let mut v = vec![ab(), class("K")];
        if matches!(x, Cmd::AddAttr(_)) {
            v = vec![];
        }
        v.push(x.clone());
        if MState::run(&Prog::new(v.clone()), &Env::default()).is_ok() {
            progs.push(v.iter().map(|c| c.text()).collect());
        }
    }
    // bare and single-quoted values
    let pre: Vec<String> = vec![ab().text()];
    for c in ["ADD LABEL en ATTRS a=bare b=word", "ADD UNIT ATTRS a=kg b=m/s", "ADD UNIT ATTRS a='k g' b=%", "ADD META en PROPS name='x y' version=1", "ADD FLAGGED_ATTRIBUTES a b", "ADD CARDINALITY ATTRS a=1 b=2", "ADD ENTRY_CODE ATTRS a=E123 b=[\"x\"]", "ADD ENTRY en ATTRS a=E123 b={\"x\": \"y\"}", "ADD LINK refn:dog ATTRS a=x b=y", "REMOVE ATTRIBUTE a b", "ADD ATTR_FRAMING id=x label=y ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}"] {
        let mut v = pre.clone();
        v.push(c.into());
        progs.push(v);
    }
    // lines that continue a command and look like header lines
    let pre = "ADD ATTRIBUTE --name=Text --=Numeric --version=Boolean";
    progs.push(vec![pre.into()]);
    for c in ["ADD LABEL en ATTRS --name=dog --=cat", "ADD UNIT ATTRS --version=kg --name=m", "ADD FLAGGED_ATTRIBUTES -- --name", "ADD ENTRY_CODE ATTRS --=[\"x\"] --name=[\"y\"]", "ADD ENTRY en ATTRS --=E123 --name={\"x\": \"y\"}", "ADD ATTR_FRAMING id=x label=y ATTRS --={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}\n--name={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}"] {
        progs.push(vec![pre.into(), c.into()]);
    }
    let mut cases: Vec<Layout> = vec![];
    for p in &progs {
        let buildable = !p.iter().any(|c| c.contains("refn:") || c.starts_with("FROM"));
        let n = p.len() - 1;
        let build = |i: usize| buildable && (!ctx.quick() || i % 5 == 0);
        for (i, (v, what)) in variants(&p[n]).into_iter().enumerate() {
            for (j, tail) in ["\n", "", "\n# end", "\nADD META en PROPS z=\"1\"\n"].iter().enumerate() {
                if ctx.quick() && j > 0 && (i + j) % 4 != 0 {
                    continue;
                }
                let mut cmds = p.clone();
                if j == 3 {
                    cmds.push("ADD META en PROPS z=\"1\"".into());
                }
                cases.push(Layout { cmds, text: format!("{}\n{v}{tail}", p[..n].join("\n")), what: what.clone(), build: build(i) && j == 0 });
            }
        }
        // two changed places in one command
        if !ctx.quick() || p[n].len() < 36 {
            for (v, what) in variants(&p[n]) {
                // a continuation after the last argument asks for more
                if what == "trailing" {
                    continue;
                }
                let (sp, eq) = gaps(&v);
                for i in sp {
                    if v.contains('\\') || v.contains('#') {
                        continue;
                    }
                    for b in BLANKS {
                        cases.push(Layout { cmds: p.clone(), text: format!("{}\n{}{b}{}\n", p[..n].join("\n"), &v[..i], &v[i + 1..]), what: format!("{what} + blank {b:?}"), build: false });
                    }
                }
                for i in eq {
                    if v.contains('\\') || v.contains('#') {
                        continue;
                    }
                    for b in EQUALS {
                        cases.push(Layout { cmds: p.clone(), text: format!("{}\n{}{b}{}\n", p[..n].join("\n"), &v[..i], &v[i + 1..]), what: format!("{what} + equal {b:?}"), build: false });
                    }
                }
            }
        }
        // lines between commands
        for pos in 0..=p.len() {
            for (i, x) in BETWEEN.iter().enumerate() {
                for (j, y) in std::iter::once(&"").chain(BETWEEN.iter()).enumerate() {
                    if j > 0 && ctx.quick() && (p.len() > 2 || p[n].len() > 40) {
                        continue;
                    }
                    let mut t = String::new();
                    for (k, c) in p.iter().enumerate() {
                        if k == pos {
                            t += x;
                            t += y;
                        }
                        t += c;
                        t.push('\n');
                    }
                    if pos == p.len() {
                        t += x;
                        t += y;
                    }
                    cases.push(Layout { cmds: p.clone(), text: t.clone(), what: format!("between {x:?} {y:?}"), build: build(i + j) });
                    cases.push(Layout { cmds: p.clone(), text: t.trim_end_matches('\n').into(), what: format!("between, no final newline {x:?} {y:?}"), build: build(i + j + 1) });
                }
            }
        }
        // a lot of layout at one place
        let (sp, eq) = gaps(&p[n]);
        for k in if ctx.quick() { vec![33usize, 257] } else { vec![9, 17, 33, 65, 129, 257, 1025, 5000] } {
            for unit in ["\n", "# c\n", " \t\n", "-- version=1\n", "# \u{17c}\u{1f600}", "#"] {
                let pad = unit.repeat(k) + if unit.ends_with('\n') { "" } else { "\n" };
                for pos in [0, p.len() - 1, p.len()] {
                    let mut q = p.clone();
                    q.insert(pos, pad.trim_end_matches('\n').to_string() + &pad[pad.trim_end_matches('\n').len()..pad.len() - 1]);
                    cases.push(Layout { cmds: p.clone(), text: q.join("\n") + "\n", what: format!("{k} times {unit:?}"), build: buildable && k < 300 });
                }
            }
            if k > 2000 || p[n].starts_with("FROM") {
                continue;
            }
            for unit in [" ", "\t", "\\\n", "\\\n# c\n"] {
                for i in sp.iter().chain(&eq) {
                    let blank = sp.contains(i);
                    if !blank && unit.contains('\\') {
                        continue;
                    }
                    let pad = unit.repeat(k);
                    let t = if blank { format!("{} {pad}{}", &p[n][..*i], &p[n][i + 1..]) } else { format!("{}{pad}={pad}{}", &p[n][..*i], &p[n][i + 1..]) };
                    cases.push(Layout { cmds: p.clone(), text: format!("{}\n{t}\n", p[..n].join("\n")), what: format!("{k} times {unit:?} within"), build: false });
                }
            }
        }
        for e in ENDS {
            for f in ENDS {
                cases.push(Layout { cmds: p.clone(), text: format!("{}{e}{f}", p.join("\n")), what: format!("end {e:?}{f:?}"), build: buildable });
            }
        }
        if !p.iter().any(|c| c.contains('\n')) {
            cases.push(Layout { cmds: p.clone(), text: p.join("\r\n") + "\r\n", what: "CRLF".into(), build: buildable });
        }
    }
    ctx.run("layout", &cases, p09_layout);
    // values
    let mut vals = vec![];
    for l in ["-- name=dog", "-- precompiler=transformation", "-- version=9", "# comment", "ADD ATTRIBUTE z=Text", "REMOVE ATTRIBUTE a", "FROM x", "-- bad", "--", "\\\n", "a \\\n# c\n b"] {
        for pat in ["@", "x\n@", "x\n@\n", "\n@\ny", "x\n  @\n\ny", "x @ y"] {
            let v = pat.replace('@', l);
            vals.push((Prog::new(vec![ab(), label("en", &[("a", &v)])]), vec![]));
            vals.push((Prog::new(vec![ab(), meta("en", &[("name", &v), ("description", "z")]), class("C")]), vec![]));
            vals.push((Prog::new(vec![ab(), info("pl", &[("b", "k"), ("a", &v)]), over(K::Unit, &[("a", &v)])]), vec![]));
            vals.push((Prog::new(vec![ab(), elist("a", &[&v, "z"]), entry("en", "a", &[(&v, &v)])]), vec![]));
            vals.push((Prog::new(vec![ab(), egroups("a", &[(&v, &[&v])]), link(SAID1, &[("a", &v)])]), vec![]));
            vals.push((Prog::new(vec![ab(), framing(&v, &[("label", &v)], "a", "k", &v, &v)]), vec![]));
        }
    }
    ctx.run("values", &vals, p09_value);
    // error lines
    let good = ["ADD LABEL en ATTRS a=\"x\"".to_string(), "ADD UNIT ATTRS \\\n a=kg \\\n# c\n b=m".to_string(), "ADD META en PROPS name=\"two\nlines\"".to_string(), "ADD ATTR_FRAMING id=\"x\" ATTRS a={\n\"k\": {\"predicate_id\": \"p\",\n\"framing_justification\": \"j\"}\n}".to_string()];
    let bad: Vec<(String, bool)> = vec![
        ("ADD LABEL xx ATTRS a=\"x\"".into(), false),
        ("ADD LABEL en ATTRS nope=\"x\"".into(), false),
        ("ADD FLAGGED_ATTRIBUTES nope".into(), false),
        ("ADD CHARACTER_ENCODING ATTRS a=\"utf-9\"".into(), false),
        ("ADD ENTRY \\\n zz ATTRS a={\"x\": \"y\"}".into(), false),
        ("ADD UNIT \\\n# c\n\n ATTRS nope=kg".into(), false),
        ("ADD FOO".into(), true),
        ("hello".into(), true),
        ("ADD ATTRIBUTE q=Foo".into(), true),
    ];
    let mut lines = vec![];
    let layouts = ["", "\n", "# c\n", "\n\n# c\n \n", "-- version=1\n"];
    for (bt, parse) in &bad {
        for from in [false, true] {
            let first = if from { "FROM <BASE>".to_string() } else { ab().text() };
            for g in 0..=good.len() {
                for h in 0..=good.len() {
                    for l0 in layouts {
                        for l1 in layouts {
                            for after in ["", "\n", "\nADD META pl PROPS x=\"y\"\n\n"] {
                                if ctx.quick() && g > 0 && h > 0 && (l0.len() + l1.len() + after.len()) % 3 != 0 {
                                    continue;
                                }
                                let mut t = format!("{l0}{first}\n");
                                if g > 0 {
                                    t += &good[g - 1];
                                    t.push('\n');
                                }
                                t += l1;
                                if h > 0 {
                                    t += &good[h - 1];
                                    t.push('\n');
                                }
                                t += l0;
                                let line = t.matches('\n').count() + 1;
                                t += bt;
                                t += after;
                                lines.push(Lines { text: t, line, raw: bt.clone(), from, parse: *parse });
                            }
                        }
                    }
                }
            }
        }
    }
    // far down a long file
    let mut far = vec![];
    let counts = if ctx.quick() { vec![98usize, 99, 126, 127, 254, 255, 256, 998, 999, 9_998, 32_766, 65_534, 65_535] } else { vec![8, 9, 98, 99, 126, 127, 254, 255, 256, 510, 511, 998, 999, 9_998, 9_999, 32_766, 32_767, 65_533, 65_534, 65_535, 99_998] };
    for n in counts {
        for (what, pad, most) in [("blank", "\n".to_string(), 70_000), ("comment", "# some comment\n".to_string(), 70_000), ("continued", "ADD LABEL \\\n en \\\n ATTRS a=\"x\"\n".to_string(), 300), ("commands", "ADD LABEL en ATTRS a=\"x\"\n".to_string(), 600)] {
            if n > most {
                continue;
            }
            for (bt, parse) in bad.iter().step_by(3) {
                for front in [true, false] {
                    let (p, f) = (pad.repeat(n), ab().text() + "\n");
                    if front && what != "blank" && what != "comment" {
                        continue;
                    }
                    let mut t = if front { p + &f } else { f + &p };
                    let line = t.matches('\n').count() + 1;
                    t += bt;
                    t += "\n";
                    far.push(Lines { text: t, line, raw: bt.clone(), from: false, parse: *parse });
                }
            }
        }
    }
    ctx.run("far", &far, p09_line);
    ctx.run("lines", &lines, p09_line);
}

// ------------------------------------------------------------------ P22
pub static P22: Entry = (
    "P22",
    "model_checking",
    "every text of the stated families: all token sequences up to the stated depth over the token alphabet, all strings up to the stated length over the special characters in every template, all truncations and single-character edits of one program of every kind, deep and long inputs in a separate process, for semantic and transformation files; non-trivial: distinct texts that are rejected",
    &["inputs of the deep stage are at most 1 MB"],
    p22,
    |st, c| match st {
        "deep" => p22_deep(&parse_case(c), &mut Obs::default()),
        "words" => p22_word_list(&parse_case(c), &mut Obs::default()),
        _ => p22_batch(&parse_case(c), &mut Obs::default()),
    },
);
#[derive(Serialize, Deserialize, Clone)]
struct Batch {
    /// the texts are prefix + every sequence over `toks` of length 0..=depth + suffix
    prefix: String,
    toks: Vec<String>,
    depth: usize,
    sep: String,
    suffix: String,
    store: bool,
}
/// parse and build one text every way there is; any result will do
pub fn swallow(t: &str, w: &mut World) -> bool {
    let text = t.to_string();
    let r = oca_file::ocafile::parse_from_string(text.clone());
    match r {
        Ok(oca_file::ocafile::OCAAst::SemanticsAst(_)) => {
            let _ = oca_rs::facade::build::build_from_ocafile(text.clone());
            let _ = w.f.validate_ocafile(text.clone());
            w.f.build_from_ocafile(text).is_ok()
        }
        Ok(oca_file::ocafile::OCAAst::TransformationAst(a)) => {
            let _ = oca_rs::facade::build::build_from_ocafile(text.clone());
            let _ = w.f.build_from_ocafile(text);
            transformation_file::build::from_ast(&a).is_ok()
        }
        Err(_) => {
            let r = w.f.build_from_ocafile(text.clone());
            let _ = parse_from_string(text.clone());
            let _ = oca_file_transformation::ocafile::parse_from_string(text);
            r.is_ok()
        }
    }
}
fn p22_usable(w: &mut World, last: &str) -> Res {
    let p = Prog::new(vec![ab(), label("en", &[("a", "L")])]);
    let want = said_of(&build_free(p.text())?);
    match guard(|| w.build(&p))? {
        Ok(b) if said_of(&b) == want => {
            if guard(|| w.f.get_oca_bundle(sai(&want), false).is_ok())? {
                Ok(())
            } else {
                fail("unusable", format!("afterwards {want} cannot be fetched; last text:\n{last}"))
            }
        }
        r => fail("unusable", format!("afterwards a good program gives {:?}; last text:\n{last}", r.map(|b| said_of(&b)))),
    }
}
fn p22_batch(b: &Batch, o: &mut Obs) -> Res {
    let mut w = World::new();
    let mut idx = vec![0usize; 0];
    let mut last = String::new();
    loop {
        let mid: Vec<&str> = idx.iter().map(|i| b.toks[*i].as_str()).collect();
        let text = format!("{}{}{}{}", b.prefix, if idx.is_empty() { "" } else { &b.sep }, mid.join(&b.sep), b.suffix);
        o.transitions += 1;
        o.state(&text);
        match guard(|| swallow(&text, &mut w)) {
            Ok(true) => {}
            Ok(false) => o.nontrivial(&text),
            Err(p) => return Err(Fail { key: Fail::from(p.clone()).key, msg: format!("{p}\n--- text: {text:?}") }),
        }
        last = text;
        // next sequence
        let mut k = idx.len();
        loop {
            if k == 0 {
                idx.insert(0, 0);
                for x in idx.iter_mut() {
                    *x = 0;
                }
                break;
            }
            k -= 1;
            if idx[k] + 1 < b.toks.len() {
                idx[k] += 1;
                for x in idx[k + 1..].iter_mut() {
                    *x = 0;
                }
                break;
            }
        }
        if idx.len() > b.depth || b.toks.is_empty() {
            break;
        }
    }
    o.traces += 1;
    p22_usable(&mut w, &last)
}
/// a text too deep or long to try in this process: (unit, count, ...)
#[derive(Serialize, Deserialize, Clone)]
struct Deep {
    pre: String,
    open: String,
    n: usize,
    mid: String,
    close: String,
    post: String,
}
pub fn child_text(path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut w = World::new();
    // the stack a thread of a server has
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let r = guard(|| swallow(&text, &mut w));
        (r, guard(|| p22_usable(&mut w, "")))
    }).unwrap().join();
    match r {
        Ok((Ok(_), Ok(Ok(())))) => std::process::exit(0),
        Ok((a, b)) => {
            say(&format!("{a:?} {b:?}"));
            std::process::exit(3)
        }
        Err(_) => std::process::exit(4),
    }
}
fn p22_deep(d: &Deep, o: &mut Obs) -> Res {
    let text = format!("{}{}{}{}{}", d.pre, d.open.repeat(d.n), d.mid, d.close.repeat(d.n), d.post);
    o.transitions += 1;
    o.traces += 1;
    o.nontrivial(&text);
    let path = std::env::temp_dir().join(format!("mc-p22-{}-{:x}", std::process::id(), h64(&text)));
    std::fs::write(&path, &text).unwrap();
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("child-text").arg(&path).output();
    let _ = std::fs::remove_file(&path);
    let out = out.unwrap();
    if out.status.success() {
        return Ok(());
    }
    fail(format!("abort {:?}", d.open), format!("the process ends with {}: {}{:?}*{}{:?}: {}", out.status, d.pre, d.open, d.n, d.mid, String::from_utf8_lossy(&out.stdout)))
}
/// one word given to every public entry point that takes a word
fn p22_word(t: &String, w: &World, o: &mut Obs) -> Res {
    use oca_ast_semantics::ast::*;
    o.transitions += 1;
    o.state(t);
    let said = |what: &str, r: Result<(), String>| r.map_err(|p| Fail { key: Fail::from(p.clone()).key, msg: format!("{what}({t:?}): {p}") });
    let js = serde_json::to_string(t).unwrap();
    macro_rules! parse {
        ($t:ty) => {
            said(
                stringify!($t),
                guard(|| {
                    if let Ok(x) = t.parse::<$t>() {
                        let _ = format!("{x:?}");
                    }
                }),
            )?;
            if let Err(e) = guard(|| t.parse::<$t>().is_ok()) {
                return fail("panic", e);
            }
        };
    }
    macro_rules! load {
        ($t:ty) => {
            said(
                concat!("JSON ", stringify!($t)),
                guard(|| {
                    if let Ok(x) = serde_json::from_str::<$t>(&js) {
                        let _ = serde_json::to_string(&x);
                    }
                }),
            )?;
        };
    }
    parse!(RefValue);
    parse!(AttributeType);
    parse!(OverlayType);
    parse!(oca_bundle_semantics::state::encoding::Encoding);
    load!(RefValue);
    load!(AttributeType);
    load!(OverlayType);
    load!(NestedAttrType);
    load!(NestedValue);
    load!(oca_bundle_semantics::state::encoding::Encoding);
    load!(oca_bundle_semantics::state::entries::EntriesElement);
    load!(oca_bundle_semantics::state::entry_codes::EntryCodes);
    load!(oca_bundle_semantics::state::standard::Standard);
    said("parse_said", guard(|| drop(parse_said(t))))?;
    said("Standard", guard(|| drop(oca_bundle_semantics::state::standard::Standard::new(t.clone()).validate().is_ok())))?;
    said("explore", guard(|| drop(w.f.explore(t.clone()))))?;
    said("get_oca_objects", guard(|| drop(w.f.get_oca_objects(vec![t.clone()]))))?;
    for l in [None, Some(isolang::Language::Eng)] {
        said("search_oca_bundle", guard(|| drop(w.f.search_oca_bundle(l, t.clone(), 10, 1))))?;
    }
    Ok(())
}
fn p22_word_list(ts: &Vec<String>, o: &mut Obs) -> Res {
    let mut w = World::new();
    w.build(&Prog::named("dog", vec![ab(), meta("en", &[("name", "dog")]), label("en", &[("a", "L")])]))?;
    ts.iter().try_for_each(|t| p22_word(t, &w, o))
}
fn p22_words(ctx: &Ctx) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let known = ["Text", "Array[Numeric]", "refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "refn:dog", "refx:y", "Label", "AttributeFraming", "spec/overlays/label/1.1", "utf-8", "iso-8859-1", "urn:iso:std:iso:3166:-1", "GICS:35102020", "EAAA", "0AAA"];
    let wide = ["ż", "€", "\u{1f600}", "e\u{301}", "\0", " ", ":", "\"", "\n"];
    for w in known {
        let cs: Vec<char> = w.chars().collect();
        for i in 0..=cs.len() {
            let (p, q): (String, String) = (cs[..i].iter().collect(), cs[i..].iter().collect());
            out.push(p.clone());
            out.push(q.clone());
            for x in wide {
                out.push(format!("{p}{x}{q}"));
                out.push(format!("{p}{x}"));
                if i < cs.len() {
                    out.push(format!("{p}{x}{}", cs[i + 1..].iter().collect::<String>()));
                }
            }
        }
    }
    let toks = [":", "refs", "refn", "x", "0", "E", "ż", "€", "\u{1f600}", "[", "]", "Array", "Text", "/", "-", "*", "%"];
    out.extend(sequences(&toks, if ctx.quick() { 3 } else { 4 }).into_iter().map(|s| s.concat()));
    out.sort();
    out.dedup();
    out
}
fn p22(ctx: &Ctx) {
    let words = p22_words(ctx);
    ctx.note("words", words.len());
    ctx.run("words", &words.chunks(200).map(|c| c.to_vec()).collect::<Vec<_>>(), p22_word_list);
    let s = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let toks = s(&[
        "ADD", "REMOVE", "FROM", "MODIFY", "ATTRIBUTE", "LABEL", "META", "ENTRY_CODE", "ENTRY", "LINK", "ATTR_FRAMING", "CLASSIFICATION", "FLAGGED_ATTRIBUTES", "CONDITION", "UNIT", "CARDINALITY", "CHARACTER_ENCODING", "ATTRS", "PROPS", "en", "zz", "a=Text", "b=Array[refn:x]",
        "a=\"v\"", "a=v", "a", "a=[\"x\"]", "a={\"x\":\"y\"}", "a={\"x\": [\"y\"]}", "a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}", "id=\"f\"", "refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "refs:x", "refs:0", "refn:x", "EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0", "\n", "\\\n", "#", "-- name=x", "\"", "lang=\"x\"",
    ]);
    let mut cases: Vec<Batch> = vec![];
    let bt = |p: String, t: &Vec<String>, d: usize, sep: &str, suf: &str| Batch { prefix: p, toks: t.clone(), depth: d, sep: sep.into(), suffix: suf.into(), store: true };
    cases.push(bt(String::new(), &toks, 1, " ", ""));
    for x in &toks {
        for y in &toks {
            cases.push(bt(format!("{x} {y}"), &toks, 1, " ", ""));
        }
    }
    let pre = "ADD ATTRIBUTE a=Text c=Numeric\n";
    let objects = ["ADD ATTRIBUTE", "REMOVE ATTRIBUTE", "ADD LABEL", "ADD LABEL en", "ADD LABEL en ATTRS", "ADD META en PROPS", "REMOVE META", "REMOVE LABEL", "ADD ENTRY_CODE ATTRS", "ADD ENTRY en ATTRS", "ADD LINK", "ADD LINK refn:x ATTRS", "ADD LINK refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0 ATTRS", "ADD ATTR_FRAMING", "ADD ATTR_FRAMING id=\"f\" ATTRS", "ADD CLASSIFICATION", "ADD FLAGGED_ATTRIBUTES", "ADD CONDITION ATTRS", "ADD UNIT ATTRS", "ADD CARDINALITY ATTRS", "ADD CHARACTER_ENCODING", "ADD CHARACTER_ENCODING ATTRS", "ADD CHARACTER_ENCODING PROPS", "ADD FORMAT ATTRS", "REMOVE UNIT ATTRS", "REMOVE CLASSIFICATION", "MODIFY", "FROM"];
    for ob in objects {
        for x in &toks {
            cases.push(bt(format!("{pre}{ob} {x}"), &toks, if ctx.quick() { 1 } else { 2 }, " ", ""));
            cases.push(bt(format!("{ob} {x}"), &toks, if ctx.quick() { 1 } else { 2 }, " ", "\n"));
        }
    }
    ctx.run("tokens", &cases, p22_batch);
    // strings of special characters in templates
    let chars = s(&["\"", "'", "\\", " ", "{", "}", "[", "]", ",", ":", "=", "#", "\n", "$", "-", "\u{e9}", "a", "\t", "\r", "\u{0}", "\u{1f}", "\u{feff}", "\u{2028}"]);
    let templates = [
        ("", ""), ("-- ", "\n"), ("-- name=", "\nADD ATTRIBUTE a=Text"), ("-- precompiler=", ""), ("ADD ATTRIBUTE ", "=Text"), ("ADD ATTRIBUTE a", "=Text"), ("ADD ATTRIBUTE a=", ""), ("ADD ATTRIBUTE a=Array[", "]"), ("ADD ATTRIBUTE a=refn:", ""), ("ADD ATTRIBUTE a=refs:", ""), ("FROM ", ""), ("ADD CLASSIFICATION ", ""), ("ADD ", ""),
        ("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=", ""), ("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"", "\""), ("ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a='", "'"), ("ADD ATTRIBUTE a=Text\nADD LABEL ", " ATTRS a=x"), ("ADD ATTRIBUTE a=Text\nADD UNIT ATTRS a=", ""),
        ("ADD META en PROPS ", "=x"), ("ADD META en PROPS x=", ""), ("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=", ""), ("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=[", "]"), ("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a={\"g\"", "}"), ("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a={", "}"), ("ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a={\"x\":", "}"),
        ("ADD ATTRIBUTE a=Text\nADD LINK ", " ATTRS a=x"), ("ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=", " ATTRS a={\"k\": {\"predicate_id\": \"p\", \"framing_justification\": \"j\"}}"), ("ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=\"x\" ATTRS a={", "}"), ("ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=\"x\" ATTRS a={\"k\": {", "}}"),
        ("ADD ATTRIBUTE a=Text\nADD CONDITION ATTRS a=\"", "\""), ("ADD ATTRIBUTE a=Text\nADD CARDINALITY ATTRS a=\"", "\""), ("ADD ATTRIBUTE a=Text\nADD CHARACTER_ENCODING ATTRS a=", ""), ("ADD ATTRIBUTE a=Text\nADD FLAGGED_ATTRIBUTES ", ""), ("ADD ATTRIBUTE a=Text\nREMOVE ATTRIBUTE ", ""), ("ADD ATTRIBUTE a=Text\nREMOVE ", ""),
        ("-- precompiler=transformation\n-- source=", "\n-- target=y\n"), ("-- precompiler=transformation\n-- source=x\n-- target=y\nRENAME ATTRIBUTE ", ""), ("-- precompiler=transformation\n-- source=x\n-- target=y\nLINK ATTRIBUTE a->", ""), ("-- precompiler=transformation\n", "\n-- source=x\n-- target=y\n"),
    ];
    let mut cases = vec![];
    for (p, q) in templates {
        cases.push(bt(p.into(), &chars, 0, "", q));
        for c in &chars {
            cases.push(bt(format!("{p}{c}"), &chars, if ctx.quick() { 1 } else { 2 }, "", q));
        }
        // ${...} inside values
        for c in ["${a}", "${", "${a} ${a}", "${${a}}", "$", "${0}", "${ }", "${é}"] {
            cases.push(bt(format!("{p}{c}"), &chars, 1, "", q));
        }
    }
    // long runs of characters of every width, at every offset: no position is the start of a character for all
    for (p, q) in templates {
        for c in ["é", "€", "\u{1f600}", "e\u{301}"] {
            for i in 0..4 {
                for n in [40usize, 1500] {
                    cases.push(bt(format!("{p}{}{}", "x".repeat(i), c.repeat(n)), &vec![], 0, "", q));
                }
            }
        }
    }
    ctx.run("strings", &cases, p22_batch);
    // truncations and edits
    let mut srcs: Vec<String> = broad().iter().map(|c| {
        let p = Prog::new(vec![ab(), class("K"), c.clone()]);
        p.text()
    }).collect();
    srcs.push("-- precompiler=transformation\n-- version=1\n-- name=\"n\"\n-- source=refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0\n-- target=refs:EJVVlVSZJqVNnuAMLHLkeSQgwfxYLWTKBELi9e8j1PW0\nRENAME ATTRIBUTE a=b c=d\n# c\nLINK ATTRIBUTE a -> b \\\n c -> d\n".into());
    srcs.push("-- name=dog\n-- version=0.0.1\n\n# comment\nADD ATTRIBUTE a=Text \\\n # c\n b = Array[refn:x]\n".into());
    let mut cases = vec![];
    for t in &srcs {
        let cs: Vec<char> = t.chars().collect();
        for i in 0..=cs.len() {
            let pre: String = cs[..i].iter().collect();
            cases.push(bt(pre.clone(), &vec![], 0, "", ""));
            let rest: String = cs[i..].iter().collect();
            cases.push(bt(pre.clone(), &chars, 1, "", &rest));
            if i < cs.len() {
                let rest: String = cs[i + 1..].iter().collect();
                cases.push(bt(pre.clone(), &chars, 1, "", &rest));
            }
        }
    }
    if ctx.quick() {
        // the commands before the last one are the same in every source: edit them once
        let n = Prog::new(vec![ab(), class("K")]).text().len();
        let mut seen = false;
        cases.retain(|c| {
            let k = c.prefix.len() >= n || !c.prefix.starts_with("ADD ATTRIBUTE a=Text b=N") && !c.suffix.contains("b=Numeric\nADD CLASSIFICATION K") || !seen;
            if c.suffix.len() < 30 {
                seen = true;
            }
            k
        });
    }
    ctx.run("edits", &cases, p22_batch);
    let mut deep = vec![];
    let sizes: &[usize] = if ctx.quick() { &[200, 20_000] } else { &[100, 1_000, 10_000, 100_000] };
    let d = |pre: &str, open: &str, n: usize, mid: &str, close: &str, post: &str| Deep { pre: pre.into(), open: open.into(), n, mid: mid.into(), close: close.into(), post: post.into() };
    for &n in sizes {
        deep.push(d("ADD ATTRIBUTE a=", "Array[", n, "Text", "]", "\n"));
        deep.push(d("ADD ATTRIBUTE a=", "Array[", n, "refn:x", "]", "\n"));
        deep.push(d("ADD ATTRIBUTE a=", "Array[", n, "", "", "\n"));
        for (o, c) in [("{", "}"), ("[", "]"), ("\"", ""), ("'", ""), ("\\", ""), ("\\\\", ""), ("{\"k\":", "}"), ("{\"k\": {\"x\": ", "}}"), ("x", ""), ("\\\"", ""), ("\\\n", "")] {
            for p in ["ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=", "ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a=\"", "ADD ATTRIBUTE a=Text\nADD LABEL en ATTRS a='", "ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=", "ADD ATTRIBUTE a=Text\nADD ENTRY en ATTRS a=", "ADD ATTRIBUTE a=Text\nADD ATTR_FRAMING id=\"x\" ATTRS a=", "ADD ATTRIBUTE a=Text\nADD UNIT ATTRS a=", "-- name=", "", "ADD ATTRIBUTE a=Text\nADD CONDITION ATTRS a=\""] {
                deep.push(d(p, o, n, "", c, "\n"));
                if p.ends_with('"') {
                    deep.push(d(p, o, n, "", c, "\"\n"));
                }
            }
        }
        deep.push(d("ADD ATTRIBUTE a=Text ", "\\\n", n, " b=Text", "", ""));
        deep.push(d("ADD ATTRIBUTE a=Text ", "\\\n# c\n", n, " b=Text", "", ""));
        deep.push(d("ADD ATTRIBUTE a=Text", "", n, "", " ", ""));
        deep.push(d("", "\n", n, "ADD ATTRIBUTE a=Text", "\n", ""));
        deep.push(d("", "# x\n", n, "ADD ATTRIBUTE a=Text\n", "-- name=x\n", ""));
        deep.push(d("ADD ATTRIBUTE a=Text\nADD CONDITION ATTRS a=\"", "(", n, "1", ")", "\"\n"));
        deep.push(d("ADD ATTRIBUTE a=Text\nADD CONDITION ATTRS a=\"", "${a} ", n, "1", "", "\"\n"));
        deep.push(d("ADD ATTRIBUTE a=Text\nADD ENTRY_CODE ATTRS a=[", "\"x\", ", n, "\"y\"", "", "]\n"));
    }
    deep.retain(|x| x.n < 50_000 || x.open.len() < 8);
    ctx.run("deep", &deep, p22_deep);
}
