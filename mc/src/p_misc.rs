//! P24: transformations; P27: the version graph and the step-by-step builder.
use crate::alpha;
use crate::lang::*;
use crate::rt::*;
use crate::sys::*;
use crate::Entry;
use oca_ast_transformation::ast::TransformationAST;
use oca_dag_semantics::data_storage::{DataStorage, SledDataStorage};
use oca_dag_semantics::versioning::{ocafile::build_oca, Graph};
use oca_rs::{EncodeBundle, HashFunctionCode, SerializationFormats};
use said::derivation::HashFunction;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, LazyLock, Mutex};
use transformation_file::state::Transformation;

pub static P24: Entry = (
    "P24",
    "model_checking",
    "every transformation file of a header variant and up to three (thorough: four) commands, in several layouts, with an invalid line at every position",
    &["values of the header lines are plain identifiers"],
    p24,
    |st, c| match st {
        "content" => p24_check(&parse_case(c), &mut Obs::default()),
        "layout" => p24_layout(&parse_case(c), &mut Obs::default()),
        "chain" => p24_chain(&parse_case(c), &mut Obs::default()),
        _ => p24_invalid(&parse_case(c), &mut Obs::default()),
    },
);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct TCmd {
    link: bool,
    pairs: Vec<(String, String)>,
}
impl TCmd {
    fn text(&self, layout: usize) -> String {
        let sep = if self.link { "->" } else { "=" };
        let kw = match (self.link, layout) {
            (true, 1) => "link attribute",
            (true, _) => "LINK ATTRIBUTE",
            (false, 1) => "rename attribute",
            (false, _) => "RENAME ATTRIBUTE",
        };
        let pairs: Vec<String> = self
            .pairs
            .iter()
            .map(|(a, b)| match (self.link, layout) {
                (false, 0) => format!("{a}{sep}{b}"),
                (_, 3) => format!("{a}\t{sep}\t{b}"),
                _ => format!("{a} {sep} {b}"),
            })
            .collect();
        format!("{kw} {}", pairs.join(if layout == 2 { " \\\n  " } else { " " }))
    }
}
fn rename(p: &[(&str, &str)]) -> TCmd {
    TCmd { link: false, pairs: p.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
}
fn tlink(p: &[(&str, &str)]) -> TCmd {
    TCmd { link: true, ..rename(p) }
}
fn tcmds() -> Vec<TCmd> {
    vec![
        rename(&[("a", "b")]),
        rename(&[("a", "c")]),
        rename(&[("b", "a")]),
        rename(&[("a", "b"), ("b", "c")]),
        rename(&[("a", "b"), ("a", "c")]),
        tlink(&[("a", "b")]),
        tlink(&[("a", "x-y_z")]),
        tlink(&[("c", "a"), ("a", "d")]),
        tlink(&[("b", "b")]),
        rename(&[("A", "b")]),
        rename(&[("b", "Aa-1_B")]),
        rename(&[("a", "b"), ("c", "b")]),
        tlink(&[("c", "d"), ("b", "d"), ("a", "d")]),
    ]
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct TFile {
    header: Vec<(String, String)>,
    cmds: Vec<TCmd>,
    layout: usize,
}
const PRE: &str = "-- precompiler=transformation\n";
fn header_lines(h: &[(String, String)]) -> String {
    h.iter().map(|(k, v)| format!("-- {k}={v}\n")).collect()
}
impl TFile {
    fn text(&self) -> String {
        let cmds = self.cmds.iter().map(|c| c.text(self.layout) + "\n").collect::<String>();
        let h = header_lines(&self.header);
        match self.layout {
            // comments and blank lines
            2 => format!("# first\n\n{PRE}{h}\n# c\n{}", cmds.replace("\nL", "\n\n# between\nL").replace("\nR", "\n \nR")),
            // header lines behind the commands, no end of the last line
            3 => format!("{PRE}{cmds}{}", h.trim_end()),
            // the kind of the file named after everything else, or among the header lines
            4 => format!("{h}{cmds}{}", PRE.trim_end()),
            1 => match h.find('\n') {
                Some(i) => format!("{}{PRE}{}{cmds}", &h[..=i], &h[i + 1..]),
                None => format!("{PRE}{cmds}"),
            },
            _ => format!("{PRE}{h}{cmds}"),
        }
    }
    fn get(&self, k: &str) -> Option<String> {
        self.header.iter().filter(|x| x.0 == k).next_back().map(|x| x.1.trim_start_matches("refs:").to_string())
    }
    fn pairs(&self) -> BTreeMap<String, String> {
        self.cmds.iter().flat_map(|c| c.pairs.iter().cloned()).collect()
    }
}
fn headers() -> Vec<Vec<(String, String)>> {
    let h = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let r1 = format!("refs:{SAID1}");
    let r2 = format!("refs:{SAID2}");
    vec![
        h(&[("source", &r1), ("target", &r2)]),
        h(&[("source", SAID1), ("target", SAID2)]),
        h(&[("target", &r1), ("source", &r2)]),
        h(&[("source", &r1), ("target", &r1)]),
        h(&[("name", "n"), ("version", "1"), ("source", &r1), ("target", &r2)]),
        h(&[("source", &r2), ("source", &r1), ("target", &r1), ("target", &r2)]),
        h(&[("source", "x"), ("target", "y.z")]),
        h(&[("source", &r1)]),
        h(&[("target", &r1)]),
        h(&[("name", "n")]),
        h(&[]),
    ]
}
fn parse_t(t: &str) -> Result<TransformationAST, String> {
    match oca_file::ocafile::parse_from_string(t.to_string()) {
        Ok(oca_file::ocafile::OCAAst::TransformationAst(a)) => Ok(a),
        Ok(_) => Err("parsed as a semantic OCAfile".into()),
        Err(e) => Err(e.to_string()),
    }
}
/// the line a syntax error is reported on
fn t_error_line(t: &str) -> Option<usize> {
    use oca_file::ocafile::error::ParseError as P;
    use oca_file_transformation::ocafile::error::ParseError as T;
    match oca_file::ocafile::parse_from_string(t.to_string()) {
        Err(P::GrammarError { line_number, .. }) | Err(P::TransformationError(T::GrammarError { line_number, .. })) => Some(line_number),
        _ => None,
    }
}
fn build_t(t: &str) -> Result<Transformation, String> {
    guard(|| {
        let a = parse_t(t)?;
        transformation_file::build::from_ast(&a).map_err(|e| e.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("; "))
    })
    .map_err(|p| format!("panic: {p}"))?
}
fn json_of(t: &Transformation) -> String {
    use said::version::Encode;
    String::from_utf8(t.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).unwrap()).unwrap()
}
static IDS: LazyLock<Mutex<HashMap<String, String>>> = LazyLock::new(Default::default);
fn p24_check(f: &TFile, o: &mut Obs) -> Res {
    let text = f.text();
    o.transitions += f.cmds.len() as u64 + 1;
    o.traces += 1;
    o.state(&text);
    let bad = |m: String| fail("transformation", format!("{m}\nfile:\n{text}"));
    let built = build_t(&text);
    let (Some(src), Some(tgt)) = (f.get("source"), f.get("target")) else {
        return match built {
            Err(e) if e.starts_with("panic") => bad(e),
            Err(_) => Ok(()),
            Ok(t) => bad(format!("no source or target, but built as {}", json_of(&t))),
        };
    };
    let t = match built {
        Ok(t) => t,
        Err(e) => return bad(format!("not built: {e}")),
    };
    let got: BTreeMap<String, String> = t.attributes.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if (t.source.as_deref(), t.target.as_deref()) != (Some(&src), Some(&tgt)) {
        return bad(format!("source {:?} target {:?}", t.source, t.target));
    }
    if got != f.pairs() || t.attributes.len() != got.len() {
        return bad(format!("pairs {got:?}, written {:?}", f.pairs()));
    }
    let js = json_of(&t);
    let v: Value = serde_json::from_str(&js).unwrap();
    o.evals += 1;
    if !got.is_empty() {
        o.nontrivial(&js);
    }
    // the identifier is the digest of the content
    let id = v["d"].as_str().unwrap_or("").to_string();
    let blank = js.replace(&id, &"#".repeat(44));
    let digest = HashFunction::from(HashFunctionCode::Blake3_256).derive(blank.as_bytes()).to_string();
    if id != digest || t.said.as_ref().map(|s| s.to_string()) != Some(id.clone()) {
        return bad(format!("identifier {id}, recomputed {digest}, {:?}", t.said));
    }
    if v["v"] != format!("OCAT10JSON{:06x}_", js.len()) || v["source"] != json!(src) || v["target"] != json!(tgt) || v["attributes"] != json!(got) || v.as_object().unwrap().len() != 5 {
        return bad(format!("encoded as {js}"));
    }
    // the content decides the identifier; pairs may be listed in any order
    let key = format!("{src}|{tgt}|{got:?}");
    let known = IDS.lock().unwrap().entry(id.clone()).or_insert_with(|| key.clone()).clone();
    if known != key {
        return bad(format!("{id} identifies both {known} and {key}"));
    }
    // again, in other layouts, and from its JSON
    for layout in [f.layout, (f.layout + 1) % 5] {
        let g = TFile { layout, ..f.clone() };
        o.transitions += 1;
        let again = build_t(&g.text()).map_err(|e| Fail { key: "layout".into(), msg: format!("{e}\nfile:\n{}", g.text()) })?;
        if json_of(&again) != js {
            return fail("layout", format!("{js}\nand in another layout {}\nfile:\n{}", json_of(&again), g.text()));
        }
    }
    let back: Transformation = serde_json::from_str(&js).map_err(|e| Fail { key: "load".into(), msg: format!("{e}: {js}") })?;
    if json_of(&back) != js || back.said != t.said || back.source != t.source || back.target != t.target || !back.attributes.iter().eq(t.attributes.iter()) {
        return bad(format!("loaded back as {}", json_of(&back)));
    }
    let mut re = back.clone();
    re.fill_said();
    if re.said != t.said {
        return bad(format!("after loading the identifier is {:?}", re.said));
    }
    let ast = parse_t(&text).unwrap();
    let ast2: TransformationAST = serde_json::from_str(&serde_json::to_string(&ast).unwrap()).map_err(|e| Fail { key: "ast".into(), msg: e.to_string() })?;
    if ast2 != ast {
        return bad(format!("the parsed file comes back from JSON as {ast2:?}"));
    }
    if ast.commands.len() != f.cmds.len() || ast.commands_meta.len() != f.cmds.len() {
        return bad(format!("{} commands parsed", ast.commands.len()));
    }
    // every command is reported with the line it is written on
    let mut at = 0;
    for (i, c) in f.cmds.iter().enumerate() {
        let written = c.text(f.layout);
        at += text[at..].find(&written).unwrap();
        let line = text[..at].matches('\n').count() + 1;
        let meta = &ast.commands_meta[&i];
        if meta.line_number != line || meta.raw_line.trim_end() != written {
            return fail("command-line", format!("command {i} is on line {line}, reported on line {} as {:?}\nfile:\n{text}", meta.line_number, meta.raw_line));
        }
        at += written.len();
    }
    Ok(())
}
/// applying command by command is the same as building the file
fn p24_chain(f: &TFile, o: &mut Obs) -> Res {
    let ast = parse_t(&f.text()).map_err(|e| Fail { key: "parse".into(), msg: e })?;
    let mut cur: Option<Transformation> = None;
    for (i, c) in ast.commands.iter().enumerate() {
        o.transitions += 1;
        cur = Some(transformation_file::build::apply_command(cur, c.clone()).map_err(|e| Fail { key: "apply".into(), msg: e.join(";") })?);
        let want = TFile { cmds: f.cmds[..=i].to_vec(), ..f.clone() }.pairs();
        let got: BTreeMap<String, String> = cur.as_ref().unwrap().attributes.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        o.state(&format!("{got:?}"));
        if got != want {
            return fail("apply", format!("after command {i}: {got:?}, written {want:?}\n{}", f.text()));
        }
    }
    o.traces += 1;
    Ok(())
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct TBad {
    file: TFile,
    line: String,
    at: usize,
}
fn invalid_lines() -> Vec<&'static str> {
    vec![
        "RENAME ATTRIBUTE a",
        "RENAME ATTRIBUTE a=",
        "RENAME ATTRIBUTE =b",
        "RENAME ATTRIBUTE a -> b",
        "RENAME a=b",
        "RENAME",
        "RENAME ATTRIBUTE",
        "RENAME ATTRIBUTE a=b c",
        "RENAME ATTRIBUTE a=b=c",
        "RENAME ATTRIBUTE a=b, c=d",
        "RENAME ATTRIBUTE a=\"b\"",
        "LINK ATTRIBUTE a",
        "LINK ATTRIBUTE a -> ",
        "LINK ATTRIBUTE a=b",
        "LINK ATTRIBUTE -> b",
        "LINK a -> b",
        "LINK ATTRIBUTE a -> b c",
        "LINK",
        "ADD ATTRIBUTE a=Text",
        "REMOVE ATTRIBUTE a",
        "FROM x",
        "a=b",
        "RENAME ATTRIBUTES a=b",
        "LINK ATTRIBUTE ż -> b",
        "-- zz=1",
    ]
}
fn p24_invalid(c: &TBad, o: &mut Obs) -> Res {
    let mut lines: Vec<String> = c.file.text().lines().map(|s| s.to_string()).collect();
    let n = lines.len() - c.file.cmds.len();
    lines.insert(n + c.at, c.line.clone());
    let t = lines.join("\n") + "\n";
    o.transitions += 1;
    o.evals += 1;
    o.state(&t);
    o.traces += 1;
    match build_t(&t) {
        Err(e) if !e.starts_with("panic") => {
            // the error names the line of the command
            let at = n + c.at + 1;
            let said = t_error_line(&t);
            if said.is_none_or(|l| l != at) && !c.line.starts_with("FROM") && !c.line.starts_with("--") {
                return fail("invalid-line", format!("line {at} is invalid, the error names line {said:?}: {e}\n{t}"));
            }
            Ok(())
        }
        Err(e) => fail("invalid", format!("{e}\n{t}")),
        Ok(x) => fail("invalid", format!("an invalid line was accepted: {:?}\n{t}\nbuilt as {}", c.line, json_of(&x))),
    }
}
/// one command in another layout gives the same transformation
fn p24_layout(c: &(String, String, String), o: &mut Obs) -> Res {
    let (plain, text, what) = c;
    o.traces += 1;
    o.transitions += 1;
    o.state(text);
    let want = build_t(plain).map_err(|e| Fail { key: "setup".into(), msg: format!("{e}\n{plain}") })?;
    match build_t(text) {
        Err(e) => fail("layout", format!("[{what}] {e}\nfile:\n{text}")),
        Ok(t) if json_of(&t) != json_of(&want) => fail("layout", format!("[{what}] {}\ninstead of {}\nfile:\n{text}", json_of(&t), json_of(&want))),
        _ => Ok(()),
    }
}
fn p24_layouts(ctx: &Ctx) -> Vec<(String, String, String)> {
    use crate::p_text::{variants, BETWEEN, ENDS};
    let h = header_lines(&headers()[0]);
    let file = |b: &str| format!("{PRE}{h}{b}");
    let mut out = vec![];
    let cmds = tcmds();
    for c in &cmds {
        let one = c.text(0);
        let end = "RENAME ATTRIBUTE q=r\n";
        for (v, what) in variants(&one) {
            out.push((file(&format!("{one}\n{end}")), file(&format!("{v}\n{end}")), what.clone()));
            out.push((file(&format!("{end}{one}\n")), file(&format!("{end}{v}")), what));
        }
    }
    for x in &cmds {
        for y in cmds.iter().take(if ctx.quick() { 3 } else { 99 }) {
            let (p, q) = (x.text(0), y.text(0));
            let plain = file(&format!("{p}\n{q}\n"));
            for b in BETWEEN.iter().filter(|b| !b.contains("precompiler")) {
                out.push((plain.clone(), file(&format!("{p}\n{b}{q}\n")), format!("between {b:?}")));
                out.push((plain.clone(), file(&format!("{b}{p}\n{q}\n{b}")), format!("around {b:?}")));
                out.push((plain.clone(), format!("{b}{}", plain), format!("before {b:?}")));
            }
            for e in ENDS {
                out.push((plain.clone(), file(&format!("{p}\n{q}{e}")), format!("end {e:?}")));
            }
            out.push((plain.clone(), plain.replace('\n', "\r\n"), "crlf".into()));
        }
    }
    out
}
fn p24(ctx: &Ctx) {
    let cmds = tcmds();
    let seqs = {
        let mut s = vec![vec![]];
        s.extend(sequences(&cmds, if ctx.quick() { 3 } else { 4 }));
        s
    };
    let hs = headers();
    let mut files = vec![];
    for s in &seqs {
        for (i, h) in hs.iter().enumerate() {
            for layout in 0..5 {
                if s.len() > 1 && layout != (i + s.len()) % 5 || s.len() > 2 && i > 0 {
                    continue;
                }
                if s.is_empty() && layout == 3 && h.is_empty() {
                    continue;
                }
                files.push(TFile { header: h.clone(), cmds: s.clone(), layout });
            }
        }
    }
    // files of many commands and pairs, with long names
    for n in if ctx.quick() { vec![10usize, 33, 65, 101, 129, 257, 1025] } else { vec![9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 1000, 1025, 5000] } {
        let pairs = |k: usize| -> Vec<(String, String)> { (0..n).rev().map(|i| (format!("a{i}"), format!("{}{i}", ["b", "a", "a_b-"][k]))).collect() };
        for link in [true, false] {
            for k in 0..3 {
                let one = TCmd { link, pairs: pairs(k) };
                let each: Vec<TCmd> = pairs(k).into_iter().map(|p| TCmd { link, pairs: vec![p] }).collect();
                let over: Vec<TCmd> = each.iter().cloned().chain([TCmd { link: !link, pairs: vec![("a0".into(), "z".into()), (format!("a{}", n - 1), "z".into())] }]).collect();
                for cmds in [vec![one], each, over] {
                    files.push(TFile { header: hs[0].clone(), cmds, layout: 0 });
                }
            }
            let long = "n".repeat(n);
            files.push(TFile { header: hs[0].clone(), cmds: vec![TCmd { link, pairs: vec![(long.clone(), format!("{long}m")), (format!("{long}m"), long.clone()), (long[..n - 1].to_string(), long)] }], layout: 0 });
        }
    }
    ctx.run("content", &files, p24_check);
    let chains: Vec<TFile> = seqs.iter().filter(|s| !s.is_empty()).map(|s| TFile { header: hs[0].clone(), cmds: s.clone(), layout: 0 }).collect();
    ctx.run("chain", &chains, p24_chain);
    let mut bad = vec![];
    for line in invalid_lines() {
        for s in seqs.iter().filter(|s| s.len() <= if ctx.quick() { 1 } else { 2 }) {
            for at in 0..=s.len() {
                bad.push(TBad { file: TFile { header: hs[0].clone(), cmds: s.clone(), layout: 0 }, line: line.into(), at });
            }
        }
    }
    ctx.run("invalid", &bad, p24_invalid);
    ctx.run("layout", &p24_layouts(ctx), p24_layout);
}

// ---------------------------------------------------------------- P27
pub static P27: Entry = (
    "P27",
    "model_checking",
    "every sequence of up to four (thorough: five) additions over three identifiers and of boundary lengths; every program of the family built step by step over a version store, extended through FROM and built again",
    &["operations of storage succeed, except where a failing one is injected"],
    p27,
    |st, c| match st {
        "graph" => p27_graph(&parse_case(c), &mut Obs::default()),
        "sled" => p27_sled(&parse_case(c), &mut Obs::default()),
        "switch" => p27_switch(&parse_case(c), &mut Obs::default()),
        "faults" => p27_fault(&parse_case(c), &mut Obs::default()),
        _ => p27_build(&parse_case(c), &mut Obs::default()),
    },
);
#[derive(Clone, Default)]
pub struct Vs {
    pub map: Arc<Mutex<BTreeMap<String, Vec<u8>>>>,
    /// operations left before one fails
    left: Arc<Mutex<Option<usize>>>,
}
impl Vs {
    fn tick(&self) -> Result<(), String> {
        let mut l = self.left.lock().unwrap();
        match *l {
            Some(0) => Err("storage failure".into()),
            Some(n) => {
                *l = Some(n - 1);
                Ok(())
            }
            None => Ok(()),
        }
    }
}
impl DataStorage for Vs {
    fn get(&self, key: &str) -> Result<Option<Vec<u8>>, String> {
        self.tick()?;
        Ok(self.map.lock().unwrap().get(key).cloned())
    }
    fn insert(&self, key: &str, value: &[u8]) -> Result<(), String> {
        self.tick()?;
        self.map.lock().unwrap().insert(key.into(), value.to_vec());
        Ok(())
    }
    fn open(_: &str) -> Self {
        Self::default()
    }
}
type Adds = Vec<(String, Option<String>)>;
fn lp(s: &str) -> Vec<u8> {
    let mut v = vec![s.len() as u8];
    v.extend(s.as_bytes());
    v
}
fn show(m: &BTreeMap<String, Vec<u8>>) -> String {
    m.iter().map(|(k, v)| format!("{}={}", k.chars().take(40).collect::<String>(), String::from_utf8_lossy(v).chars().take(80).collect::<String>())).collect::<Vec<_>>().join(" ")
}
fn graph_model(adds: &Adds) -> (BTreeMap<String, Vec<u8>>, Vec<bool>) {
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut ok = vec![];
    for (n, p) in adds {
        let fits = n.len() <= 255 && p.as_ref().is_none_or(|p| p.len() <= 255);
        ok.push(fits);
        if fits {
            m.insert(format!("{n}.upscending"), p.as_ref().map(|p| lp(p)).unwrap_or_default());
            if let Some(p) = p {
                m.entry(format!("{p}.downscending")).or_default().extend(lp(n));
            }
        }
    }
    (m, ok)
}
fn p27_graph(adds: &Adds, o: &mut Obs) -> Res {
    let db = Vs::default();
    let g = Graph { db: Box::new(db.clone()) };
    for i in 0..adds.len() {
        let (n, p) = &adds[i];
        o.transitions += 1;
        let r = guard(|| g.add(n, p.as_deref()))?;
        let (want, ok) = graph_model(&adds[..=i].to_vec());
        if r.is_ok() != ok[i] {
            return fail("graph", format!("adding {n:?} under {p:?} gave {r:?}"));
        }
        let got = db.map.lock().unwrap().clone();
        o.state(&format!("{got:?}"));
        o.evals += 1;
        if got != want {
            return fail("graph", format!("after {:?}\nstored {}\nexpected {}", &adds[..=i], show(&got), show(&want)));
        }
    }
    o.traces += 1;
    o.nontrivial(&format!("{adds:?}"));
    Ok(())
}
/// the same over the real version store, kept across a reopening
fn p27_sled(adds: &Adds, o: &mut Obs) -> Res {
    let d = Scratch::new("sled")?;
    let (want, _) = graph_model(adds);
    for round in 0..2 {
        // sled closes its files in the background
        let mut db = SledDataStorage::open(&d.0);
        for _ in 0..200 {
            if db.get("zz").is_ok() {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(20));
            db = SledDataStorage::open(&d.0);
        }
        if round == 0 {
            let g = Graph { db: Box::new(db.clone()) };
            for (n, p) in adds {
                o.transitions += 1;
                let _ = guard(|| g.add(n, p.as_deref()))?;
            }
        }
        for (k, v) in &want {
            o.evals += 1;
            let got = guard(|| db.get(k))?;
            if got.as_ref().ok() != Some(&Some(v.clone())) {
                return fail("sled", format!("{k}: stored {got:?}, expected {v:?}, opening {round}, {adds:?}"));
            }
        }
        for k in ["zz.upscending", "zz.downscending", "a", ""] {
            if guard(|| db.get(k))? != Ok(None) {
                return fail("sled", format!("{k:?} is stored"));
            }
        }
    }
    o.state(&format!("{adds:?}"));
    o.traces += 1;
    Ok(())
}
pub struct Scratch(pub String);
impl Scratch {
    pub fn new(tag: &str) -> Result<Self, Fail> {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().to_string() };
        let p = format!("{base}/mc-{}-{tag}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst));
        std::fs::create_dir_all(&p).map_err(|e| Fail { key: "scratch".into(), msg: e.to_string() })?;
        Ok(Scratch(p))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Serialize, Deserialize, Clone)]
struct Steps {
    /// programs built one after another over one store; FROM continues the bundle of the named earlier one
    progs: Vec<(Option<usize>, Prog)>,
}
pub fn commands(from: Option<&str>, p: &Prog) -> Vec<oca_ast_semantics::ast::Command> {
    let mut v = vec![];
    if let Some(f) = from {
        v.extend(crate::store::ast_of(&format!("FROM {f}\n")).commands);
    }
    // each command by itself: what is ill-formed in its place is for the builder to tell
    for c in &p.cmds {
        v.extend(crate::store::ast_of(&format!("FROM {SAID1}\n{}", Prog::new(vec![c.clone()]).text())).commands.into_iter().skip(1));
    }
    v
}
fn direct(base: Option<oca_bundle_semantics::state::oca::OCABundle>, cs: &[oca_ast_semantics::ast::Command]) -> Result<Vec<oca_bundle_semantics::state::oca::OCABundle>, String> {
    let mut cur = base.map(oca_bundle_semantics::state::oca::OCABox::from);
    let mut out = vec![];
    for c in cs {
        if matches!(c.kind, oca_ast_semantics::ast::CommandType::From) {
            continue;
        }
        let mut n = oca_bundle_semantics::build::apply_command(cur, c.clone()).map_err(|e| e.join("; "))?;
        out.push(n.generate_bundle());
        cur = Some(n);
    }
    Ok(out)
}
fn operation(prev: Option<&str>, c: &oca_ast_semantics::ast::Command) -> Vec<u8> {
    let js = serde_json::to_string(c).unwrap();
    let mut v = prev.map(lp).unwrap_or(vec![0]);
    if js.len() < 255 {
        v.push(js.len() as u8);
    } else {
        v.push(255);
        v.extend((js.len() as u32).to_be_bytes());
    }
    v.extend(js.as_bytes());
    v
}
fn p27_build(s: &Steps, o: &mut Obs) -> Res {
    let db = Vs::default();
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut results: Vec<Option<oca_bundle_semantics::state::oca::OCABundle>> = vec![];
    for (from, p) in &s.progs {
        let base = from.and_then(|i| results.get(i).cloned().flatten());
        let base_said = base.as_ref().map(said_of);
        let cs = commands(base_said.as_deref(), p);
        o.transitions += cs.len() as u64;
        let want = direct(base.clone(), &cs);
        // what was built before the failing command stays
        let mut prev = base_said.clone();
        let mut done: Vec<oca_bundle_semantics::state::oca::OCABundle> = vec![];
        for n in 1..=cs.len() {
            match direct(base.clone(), &cs[..n]) {
                Ok(v) => done = v,
                Err(_) => break,
            }
        }
        for (b, c) in done.iter().zip(cs.iter().filter(|c| !matches!(c.kind, oca_ast_semantics::ast::CommandType::From))) {
            let id = said_of(b);
            model.entry(format!("oca.{id}.operation")).or_insert_with(|| operation(prev.as_deref(), c));
            model.insert(format!("oca.{id}"), enc(b));
            prev = Some(id);
        }
        let got = guard(|| build_oca(Box::new(db.clone()), cs.clone()))?;
        match (&got, &want) {
            (Ok(g), Ok(w)) => {
                let w = w.last().cloned().or(base);
                if w.as_ref().map(enc) != Some(enc(g)) {
                    return fail("built", format!("{}\nstep by step {}\nat once {}", p.text(), encs(g), w.map(|w| encs(&w)).unwrap_or_default()));
                }
            }
            (Err(_), Err(_)) => {}
            (g, w) => return fail("verdict", format!("{}\nstep by step {:?}\nat once {:?}", p.text(), g.as_ref().map(said_of), w.as_ref().map(|v| v.len()))),
        }
        let stored = db.map.lock().unwrap().clone();
        o.state(&format!("{:?}", stored.keys().collect::<Vec<_>>()));
        o.evals += 1;
        if stored != model {
            let d: Vec<String> = model
                .keys()
                .chain(stored.keys())
                .filter(|k| model.get(*k) != stored.get(*k))
                .map(|k| format!("{k}: stored {:?}, expected {:?}", stored.get(k).map(|v| String::from_utf8_lossy(v).to_string()), model.get(k).map(|v| String::from_utf8_lossy(v).to_string())))
                .collect();
            return fail("records", format!("{}\n{}", p.text(), d.join("\n")));
        }
        for (k, v) in &stored {
            if !k.ends_with(".operation") {
                let b = load(&String::from_utf8_lossy(v)).map_err(|e| Fail { key: "load".into(), msg: format!("{k}: {e}") })?;
                if format!("oca.{}", said_of(&b)) != *k || enc(&b) != *v {
                    return fail("load", format!("{k} holds {}", String::from_utf8_lossy(v)));
                }
            }
        }
        results.push(got.ok());
    }
    o.traces += 1;
    o.nontrivial(&format!("{:?}", results.iter().map(|r| r.as_ref().map(said_of)).collect::<Vec<_>>()));
    Ok(())
}
/// a storage operation fails: the builder and the graph report it
/// commands that continue from one stored bundle and another, at any place of the list: `None` is a
/// bundle that is not stored, 0 and 1 are stored ones
fn p27_switch(s: &Vec<Option<usize>>, o: &mut Obs) -> Res {
    let db = Vs::default();
    let bases: Vec<_> = [vec![attr("a", b("Text"))], vec![attr("x", b("Numeric")), class("K")]]
        .into_iter()
        .map(|c| guard(|| build_oca(Box::new(db.clone()), commands(None, &Prog::new(c))))?.map_err(Fail::from))
        .collect::<Result<_, Fail>>()?;
    let from = |id: &str| commands(Some(id), &Prog::new(vec![]));
    let steps = [vec![attr("n", b("Text"))], vec![attr("x", b("Boolean"))], vec![label("en", &[("a", "L")])], vec![rem(&["a"])]];
    let mut list = vec![];
    let mut cur: Option<oca_bundle_semantics::state::oca::OCABundle> = None;
    let mut failed = false;
    for x in s {
        o.transitions += 1;
        let next = match x {
            None => from(SAID1),
            Some(i) if *i < 2 => from(&said_of(&bases[*i])),
            Some(i) => commands(None, &Prog::new(steps[i - 2].clone())),
        };
        if !failed {
            match x {
                None => failed = true,
                Some(i) if *i < 2 => cur = Some(bases[*i].clone()),
                Some(_) => match direct(cur.clone(), &next) {
                    Ok(v) => cur = v.last().cloned(),
                    Err(_) => failed = true,
                },
            }
        }
        list.extend(next);
    }
    let got = guard(|| build_oca(Box::new(db.clone()), list))?;
    o.traces += 1;
    o.evals += 1;
    match (&got, &cur) {
        (Err(_), _) if failed => {}
        (Ok(g), Some(w)) if !failed && enc(g) == enc(w) => o.state(&enc(g)),
        _ => return fail("switch", format!("{s:?}: step by step {:?}, expected {:?}", got.as_ref().map(encs), if failed { None } else { cur.as_ref().map(encs) })),
    }
    Ok(())
}
fn p27_fault(c: &(Prog, usize), o: &mut Obs) -> Res {
    let (p, k) = c;
    let cs = commands(None, p);
    let db = Vs::default();
    *db.left.lock().unwrap() = Some(*k);
    o.transitions += 1;
    o.traces += 1;
    let r = guard(|| build_oca(Box::new(db.clone()), cs.clone()))?;
    if *db.left.lock().unwrap() == Some(0) && r.is_ok() {
        // exactly enough operations, or one was lost
        let whole = Vs::default();
        let _ = build_oca(Box::new(whole.clone()), cs.clone());
        if *whole.map.lock().unwrap() != *db.map.lock().unwrap() {
            return fail("fault", format!("storage failed at operation {k}, the build did not\n{}", p.text()));
        }
    }
    // nothing but prefixes of the history is stored, and building again completes it
    *db.left.lock().unwrap() = None;
    let again = guard(|| build_oca(Box::new(db.clone()), cs.clone()))?;
    let whole = Vs::default();
    let want = build_oca(Box::new(whole.clone()), cs);
    o.evals += 1;
    o.state(&(p.text(), k));
    if again.map(|b| enc(&b)) != want.map(|b| enc(&b)) || *whole.map.lock().unwrap() != *db.map.lock().unwrap() {
        return fail("fault", format!("after a failure at operation {k}, building again stores something else\n{}", p.text()));
    }
    Ok(())
}
fn p27(ctx: &Ctx) {
    let ids = ["a", "b", "c"];
    let mut ops: Adds = vec![];
    for n in ids {
        ops.push((n.into(), None));
        for p in ids {
            ops.push((n.into(), Some(p.into())));
        }
    }
    let seqs = sequences(&ops, if ctx.quick() { 4 } else { 5 });
    ctx.run("graph", &seqs, p27_graph);
    let long: Vec<String> = vec!["".into(), "a".into(), "a.upscending".into(), "ż".into(), "l".repeat(254), "l".repeat(255), "l".repeat(256), "ż".repeat(128), "ż".repeat(127), "l".repeat(300), "l".repeat(511), "l".repeat(512)];
    let mut ops: Adds = vec![];
    for n in &long {
        ops.push((n.clone(), None));
        for p in &long {
            ops.push((n.clone(), Some(p.clone())));
        }
    }
    ctx.run("graph", &sequences(&ops, if ctx.quick() { 1 } else { 2 }), p27_graph);
    // many children, long lines of descent, many parents one after another
    let mut many: Vec<Adds> = vec![];
    for n in if ctx.quick() { vec![7usize, 17, 33, 65, 129, 257] } else { vec![7, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 513, 1025] } {
        let nm = |i: usize| format!("n{i}");
        many.push((0..n).map(|i| (nm(i), if i == 0 { None } else { Some(nm(0)) })).collect());
        many.push((0..n).map(|i| (nm(i), if i == 0 { None } else { Some(nm(i - 1)) })).collect());
        many.push((0..n).map(|i| (nm(i), if i < 3 { None } else { Some(nm(i % 3)) })).chain([(nm(n), Some(nm(0))), (nm(n + 1), Some(nm(n))), (nm(n + 2), Some("unknown".into()))]).collect());
        many.push(vec![("a".into(), None), ("b".into(), None), ("c".into(), None)].into_iter().chain((0..n).map(|i| ("x".to_string(), Some(["a", "b", "c"][i % 3].to_string())))).take(3 + n.min(3)).collect());
    }
    ctx.run("graph", &many, p27_graph);
    let some: Adds = vec![("a".into(), None), ("b".into(), Some("a".into())), ("c".into(), Some("a".into())), ("l".repeat(255), Some("l".repeat(255))), ("l".repeat(256), Some("a".into()))];
    ctx.run("sled", &sequences(&some, if ctx.quick() { 2 } else { 3 }).into_iter().filter(|s| s.len() >= 2).collect::<Vec<_>>(), p27_sled);
    let ab = alpha::ab();
    let mut steps = vec![];
    let big = label("en", &[("a", &"x".repeat(400))]);
    let mut cmds = alpha::broad();
    cmds.push(big);
    // operations of boundary length
    for n in 0..40 {
        cmds.push(label("pl", &[("a", &"y".repeat(60 + n))]));
    }
    for c in &cmds {
        steps.push(Steps { progs: vec![(None, Prog::new(vec![ab.clone(), c.clone()]))] });
        // extended, built again, and an unknown command at the end
        steps.push(Steps { progs: vec![(None, Prog::new(vec![ab.clone()])), (Some(0), Prog::new(vec![c.clone()])), (None, Prog::new(vec![ab.clone(), c.clone()])), (Some(1), Prog::new(vec![c.clone()]))] });
    }
    let reps = alpha::reps();
    for x in &reps {
        for y in &reps {
            steps.push(Steps { progs: vec![(None, Prog::new(vec![ab.clone(), x.clone(), y.clone()])), (Some(0), Prog::new(vec![rem(&["a"])]))] });
        }
    }
    // histories that come back to an earlier bundle
    for c in [attr("c", b("Text")), class("c"), label("en", &[("a", "A")])] {
        steps.push(Steps { progs: vec![(None, Prog::new(vec![ab.clone(), c.clone(), rem(&["a"]), attr("a", b("Text"))])), (None, Prog::new(vec![ab.clone(), attr("c", b("Text")), rem(&["c"]), attr("c", b("Text"))]))] });
    }
    steps.push(Steps { progs: vec![(None, alpha::full_prog())] });
    for n in if ctx.quick() { vec![12usize, 34, 66, 130, 258] } else { vec![12, 34, 66, 102, 130, 258, 514] } {
        let c: Vec<Cmd> = (0..n).map(|i| if i % 2 == 0 { attr(&format!("a{i}"), b("Text")) } else { label("en", &[(&format!("a{}", i - 1), "L")]) }).collect();
        steps.push(Steps { progs: vec![(None, Prog::new(c)), (Some(0), Prog::new(vec![rem(&["a0"])]))] });
        // many bundles continue from one
        if n < 140 {
            steps.push(Steps { progs: std::iter::once((None, Prog::new(vec![ab.clone()]))).chain((0..n).map(|i| (Some(0), Prog::new(vec![attr(&format!("x{i}"), b("Text"))])))).collect() });
        }
    }
    ctx.run("build", &steps, p27_build);
    let alphabet: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5)];
    ctx.run("switch", &sequences(&alphabet, if ctx.quick() { 4 } else { 5 }), p27_switch);
    let mut faults = vec![];
    for x in reps.iter() {
        for k in 0..10 {
            faults.push((Prog::new(vec![ab.clone(), x.clone(), rem(&["b"])]), k));
        }
    }
    ctx.run("faults", &faults, p27_fault);
}
