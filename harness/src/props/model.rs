//! Properties decided by comparing what the parser makes of a generated document with what the
//! document model says it is.
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use crate::props::files;
use crate::sut;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

/// names (and variants) of the nodes of a graph
pub fn kinds(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(o) => {
            if let Some(n) = v["name"].as_str() {
                match v["variant"].as_str() {
                    Some(x) => out.insert(format!("{n}:{x}")),
                    None => out.insert(n.to_string()),
                };
            }
            o.iter().filter(|(k, _)| *k != "metadata").for_each(|(_, x)| kinds(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| kinds(x, out)),
        _ => {}
    }
}

/// `wanted`: what a case has to contain to count as non-trivial
pub fn check_doc(v: &Value, locations: bool, wanted: &[&str]) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.exact = locations;
    let exp = w.doc(&d);
    check_src(&w.s, &exp, locations, wanted)
}

pub fn check_src(src: &str, exp: &Value, locations: bool, wanted: &[&str]) -> Verdict {
    check_with(src, exp, locations, wanted, |_| {})
}

/// `prepare`: applied to both graphs before they are compared
pub fn check_with(src: &str, exp: &Value, locations: bool, wanted: &[&str], prepare: fn(&mut Value)) -> Verdict {
    let asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) => return Verdict::fail("rejected", format!("{f}\n--- source\n{src}")),
    };
    let mut act = match sut::json(&asg) {
        Ok(j) => j,
        Err(f) => return Verdict::fail("json", f.to_string()),
    };
    let mut exp = exp.clone();
    prepare(&mut act);
    prepare(&mut exp);
    let drop: &[&str] = if locations { &[] } else { &["location"] };
    let mut act = strip(&canon(&act), drop);
    if let Some(o) = act.as_object_mut() {
        o.remove("location");
    }
    let exp = strip(&canon(&exp), drop);
    match diff(&exp, &act) {
        None => {
            let mut k = BTreeSet::new();
            kinds(&exp, &mut k);
            let hit = wanted.is_empty() || k.iter().any(|n| wanted.iter().any(|w| n.starts_with(w)));
            Verdict::ok(hit).labels(k)
        }
        Some((s, m)) => Verdict::fail(s, format!("{m}\n--- source\n{src}")),
    }
}

macro_rules! docs {
    ($name:literal, $quick:expr, $thorough:expr, $cfg:expr, $secs:expr, $loc:expr, $wanted:expr) => {
        Part {
            name: $name,
            quick: $quick,
            thorough: $thorough,
            strategy: || typed(document(&$cfg, $secs)),
            eval: |v| check_doc(v, $loc, $wanted),
        }
    };
}

fn prop(id: &'static str, rule: &'static str, parts: Vec<Part>) -> Prop {
    Prop { id, rule, assumptions: &["sources use the generator's unambiguous subset of AsciiDoc: markup whose meaning the project's own tests and documentation settle"], parts, known_inputs: no_known }
}

// ---------------------------------------------------------------- sections

/// headings of arbitrary levels, in any order
fn headings() -> BoxedStrategy<Value> {
    let body = vec(block(&Bcfg { para: 4, list: 1, parent: 1, leaf: 1, dlist: 1, table: 1, adm: 1, quote: 1, adm_block: 1, image: 1, brk: 1, depth: 1, ..Bcfg::none() }), 0..3);
    typed((vec((1usize..5, items(&Icfg { max: 2, ..Icfg::plain() }.oneline()), body), 1..9), any::<bool>()))
}

fn eval_headings(v: &Value) -> Verdict {
    let (hs, header): (Vec<(usize, Vec<It>, Vec<B>)>, bool) = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    let mut flat = vec![];
    if header {
        w.raw("= Title\n\n");
    }
    for (level, title, body) in &hs {
        let (title, blocks) = w.heading(*level, title, body);
        flat.push((*level, title, blocks));
    }
    // a section belongs to the closest section ahead of it that is less deep
    fn build(flat: &[(usize, Vec<Value>, Vec<Value>)], i: &mut usize, above: usize) -> Vec<Value> {
        let mut out = vec![];
        while *i < flat.len() && flat[*i].0 > above {
            let (level, title, blocks) = flat[*i].clone();
            *i += 1;
            let mut blocks = blocks;
            blocks.extend(build(flat, i, level));
            out.push(json!({"name": "section", "level": level, "title": title, "blocks": blocks}));
        }
        out
    }
    let mut exp = json!({"name": "document"});
    if header {
        exp["header"] = json!({"title": [{"name": "text", "value": "Title"}]});
    }
    exp["blocks"] = Value::Array(build(&flat, &mut 0, 0));
    check_src(&w.s, &exp, false, &["section"])
}

pub fn c04() -> Prop {
    prop(
        "C04",
        "the document has at least one section",
        vec![
            Part { name: "headings", quick: 24000, thorough: 200000, strategy: headings, eval: eval_headings },
            docs!("titles", 12000, 80000, Bcfg { text: Icfg { max: 3, ..Icfg::rich() }, max: 2, meta: 15, ..Bcfg::paras() }, 4, false, &["section"]),
            docs!("mixed", 12000, 80000, Bcfg::all(), 4, false, &["section"]),
        ],
    )
}

pub fn c05() -> Prop {
    prop(
        "C05",
        "the text contains inline markup",
        vec![
            docs!("spans", 32000, 300000, Bcfg { text: Icfg { max: 6, ..Icfg::spans() }, max: 1, ..Bcfg::paras() }, 0, false, &["span", "ref"]),
            docs!("rich", 32000, 300000, Bcfg { text: Icfg { max: 6, ..Icfg::rich() }, max: 2, ..Bcfg::paras() }, 0, false, &["span", "ref"]),
            docs!("everywhere", 10000, 60000, Bcfg { text: Icfg::rich(), ..Bcfg::all() }, 1, false, &["span", "ref"]),
        ],
    )
}

pub fn c08() -> Prop {
    prop(
        "C08",
        "the document has at least one list",
        vec![
            docs!("lists", 24000, 200000, Bcfg { para: 2, list: 4, dlist: 4, callouts: 2, depth: 0, ..Bcfg::none() }, 0, false, &["list", "dlist"]),
            docs!("attached", 24000, 200000, Bcfg { list: 4, dlist: 4, callouts: 2, depth: 3, ..Bcfg { max: 3, ..Bcfg::all() } }, 0, false, &["list", "dlist"]),
            docs!("text", 8000, 60000, Bcfg { list: 4, dlist: 4, callouts: 1, text: Icfg::rich(), depth: 1, ..Bcfg::paras() }, 0, false, &["list", "dlist"]),
        ],
    )
}

pub fn c09() -> Prop {
    prop(
        "C09",
        "the document has at least one delimited block or admonition",
        vec![
            docs!("blocks", 28000, 250000, Bcfg { para: 3, adm: 3, quote_para: 2, leaf: 2, verse: 2, parent: 6, quote: 3, adm_block: 3, brk: 1, image: 1, meta: 10, depth: 4, max: 3, ..Bcfg::none() }, 0, false,
                &["sidebar", "example", "open", "quote", "admonition", "verse"]),
            docs!("mixed", 16000, 120000, Bcfg { parent: 6, quote: 3, adm_block: 3, adm: 3, depth: 3, ..Bcfg { max: 3, ..Bcfg::all() } }, 1, false,
                &["sidebar", "example", "open", "quote", "admonition", "verse"]),
        ],
    )
}

pub fn c10() -> Prop {
    prop(
        "C10",
        "the document has at least one table",
        vec![
            docs!("plain", 20000, 200000, Bcfg { para: 1, table: 4, meta: 10, ..Bcfg::none() }, 0, false, &["table"]),
            docs!("formatted", 16000, 120000, Bcfg { para: 1, table: 4, meta: 10, text: Icfg::rich(), ..Bcfg::none() }, 0, false, &["table"]),
            docs!("nested", 12000, 80000, Bcfg { para: 2, table: 4, parent: 3, quote: 1, list: 2, dlist: 1, depth: 2, meta: 10, ..Bcfg::none() }, 1, false, &["table"]),
            Part { name: "continued", quick: 12000, thorough: 80000, strategy: continued, eval: continued_eval },
        ],
    )
}

/// Rows of cells, each with what follows on lines of its own (after as many blank lines)
type Cells = Vec<Vec<(String, Vec<(u8, String)>)>>;

fn continued() -> BoxedStrategy<Value> {
    let word = || "[a-z]{1,4}( [a-z]{1,4})?( \\*[a-z]{1,3}\\*)?";
    let line = prop_oneof![5 => word().boxed(), 1 => "(\\* |\\. |- |<1> )[a-z]{1,3}".boxed(), 1 => Just("[role=r]".to_string()).boxed(), 1 => Just("[[i]]".to_string()).boxed()];
    let more = vec((prop_oneof![3 => Just(0u8), 1 => 1u8..3], line), 0..3);
    typed((1..4usize, any::<bool>()).prop_flat_map(move |(cols, lead)| {
        (Just(lead), vec(vec((word(), prop_oneof![1 => Just(vec![]), 1 => more.clone()]), cols..=cols), 1..4))
    }))
}

fn continued_eval(v: &Value) -> Verdict {
    let (lead, rows): (bool, Cells) = serde_json::from_value(v.clone()).expect("case");
    let mut src = "|===\n".to_string();
    if lead {
        src.push('\n');
    }
    let mut want: Vec<String> = vec![];
    let mut lines = 0;
    for row in &rows {
        for (text, more) in row {
            src.push_str(&format!("|{text}\n"));
            let mut cell = text.clone();
            for (blank, line) in more {
                src.push_str(&"\n".repeat(*blank as usize));
                src.push_str(&format!("{line}\n"));
                cell.push_str(&format!("\n{line}"));
                lines += 1;
            }
            want.push(cell.replace('*', ""));
        }
    }
    src.push_str("|===\n");
    let j = match sut::parse(&src).and_then(|a| sut::json(&a)) {
        Ok(j) => j,
        Err(f) => return Verdict::fail("not parsed", format!("{f}\n--- source\n{src}")),
    };
    fn text(v: &Value) -> String {
        match v["value"].as_str() {
            Some(t) => t.to_string(),
            None => v["inlines"].as_array().map(|a| a.iter().map(text).collect()).unwrap_or_default(),
        }
    }
    let blocks = j["blocks"].as_array().cloned().unwrap_or_default();
    let cells: Vec<String> = blocks.first().and_then(|t| t["blocks"].as_array()).map(|a| a.iter().map(text).collect()).unwrap_or_default();
    let got: Vec<String> = cells.iter().map(|c| c.trim_end().replace('*', "")).collect();
    if blocks.len() != 1 || got != want {
        return Verdict::fail("cell text", format!("cells: {got:?}\nwritten: {want:?}\n--- source\n{src}"));
    }
    Verdict::ok(lines > 0).label("continued")
}

// ------------------------------------------------------------------ attributes

/// an attribute may be empty
fn drop_empty_text(v: &mut Value) {
    match v {
        Value::Object(o) => o.values_mut().for_each(drop_empty_text),
        Value::Array(a) => {
            a.retain(|x| !(x["name"] == "text" && x["value"] == ""));
            a.iter_mut().for_each(drop_empty_text);
        }
        _ => {}
    }
}

fn check_attrs(v: &Value) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    let exp = w.doc(&d);
    let mut verdict = check_with(&w.s, &exp, false, &[], drop_empty_text);
    verdict.nontrivial = w.referred.0 > 0;
    for (n, label) in [(w.referred.0, "defined"), (w.referred.1, "redefined"), (w.referred.2, "undefined")] {
        if n > 0 {
            verdict = verdict.label(label);
        }
    }
    verdict
}

pub fn c12() -> Prop {
    fn cfg(c: Bcfg) -> Bcfg {
        let attrs = ["a", "b-c", "d_2", "Ef", "9", "z"].map(|s| s.to_string()).to_vec();
        let text = Icfg { attr: 8, attrs, ..c.text.clone() };
        Bcfg { def: 6, text, ..c }
    }
    fn docs(c: Bcfg, secs: usize) -> BoxedStrategy<Value> {
        typed(document(&cfg(c), secs))
    }
    prop(
        "C12",
        "some reference is to an attribute that is defined, or part of the document is in another file",
        vec![
            Part { name: "text", quick: 20000, thorough: 150000, strategy: || docs(Bcfg { text: Icfg { depth: 2, max: 4, ..Icfg::spans() }, max: 6, ..Bcfg::paras() }, 2), eval: check_attrs },
            Part { name: "blocks", quick: 20000, thorough: 150000, strategy: || docs(Bcfg { text: Icfg { max: 3, ..Icfg::plain() }, depth: 2, max: 5, ..Bcfg::all() }, 1), eval: check_attrs },
            Part { name: "all", quick: 12000, thorough: 100000, strategy: || docs(Bcfg { text: Icfg::rich(), depth: 2, max: 4, ..Bcfg::all() }, 2), eval: check_attrs },
            Part { name: "files", quick: 12000, thorough: 100000, strategy: || files::split(cfg(Bcfg { text: Icfg { max: 3, ..Icfg::plain() }, leaf: 2, list: 1, ..Bcfg::paras() }), 2), eval: files::eval_split },
        ],
    )
}

// --------------------------------------------------------- cross references

/// gives every block that has an id one that may be referred to, and no two blocks the same
fn name_blocks(v: &mut Value, n: &mut usize) {
    match v {
        Value::Object(o) => {
            if let Some(id) = o.get_mut("meta").and_then(|m| m.get_mut("id")) {
                if id.is_string() {
                    *id = format!("r{n}").into();
                    *n += 1;
                }
            }
            o.values_mut().for_each(|x| name_blocks(x, n));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| name_blocks(x, n)),
        _ => {}
    }
}

fn titles(v: &Value, out: &mut BTreeMap<String, Value>) {
    match v {
        Value::Object(o) => {
            if let Some(id) = v["metadata"]["attributes"]["id"].as_str() {
                let t = if v["name"] == "image" { &v["caption"] } else { &v["title"] };
                out.insert(id.to_string(), t.clone());
            }
            o.iter().filter(|(k, _)| *k != "metadata").for_each(|(_, x)| titles(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| titles(x, out)),
        _ => {}
    }
}

/// returns how many references have a text
fn refer(v: &mut Value, titles: &BTreeMap<String, Value>) -> usize {
    match v {
        Value::Object(o) => {
            if o.get("variant").is_some_and(|x| x == "xref") {
                let t = o.get("target").and_then(|t| t.as_str()).and_then(|t| titles.get(t)).cloned().unwrap_or(Value::Null);
                let found = t.is_array();
                o.insert("inlines".into(), if found { t } else { json!([]) });
                return found as usize;
            }
            o.values_mut().map(|x| refer(x, titles)).sum()
        }
        Value::Array(a) => a.iter_mut().map(|x| refer(x, titles)).sum(),
        _ => 0,
    }
}

/// what a reference inside of the text of another one says is not of interest
fn flatten_refs(v: &mut Value) {
    fn clear(v: &mut Value) {
        match v {
            Value::Object(o) => {
                if o.get("variant").is_some_and(|x| x == "xref") {
                    o.remove("inlines");
                }
                o.values_mut().for_each(clear);
            }
            Value::Array(a) => a.iter_mut().for_each(clear),
            _ => {}
        }
    }
    match v {
        Value::Object(o) => {
            let xref = o.get("variant").is_some_and(|x| x == "xref");
            o.values_mut().for_each(if xref { clear } else { flatten_refs });
        }
        Value::Array(a) => a.iter_mut().for_each(flatten_refs),
        _ => {}
    }
}

fn check_refs(v: &Value) -> Verdict {
    let mut v = v.clone();
    name_blocks(&mut v, &mut 0);
    let d: Doc = serde_json::from_value(v).expect("case");
    let mut w = W::new();
    let mut exp = w.doc(&d);
    let mut t = BTreeMap::new();
    titles(&exp, &mut t);
    let found = refer(&mut exp, &t);
    let mut verdict = check_with(&w.s, &exp, false, &[], flatten_refs);
    if found == 0 {
        verdict.nontrivial = false;
    }
    verdict.label(if found == 0 { "nothing found" } else { "found" })
}

pub fn c15() -> Prop {
    fn docs(c: Bcfg, secs: usize) -> BoxedStrategy<Value> {
        let ids: Vec<String> = (0..12).map(|n| format!("r{n}")).collect();
        let text = Icfg { xref: 6, ids, ..c.text.clone() };
        typed(document(&Bcfg { meta: 60, text, ..c }, secs))
    }
    prop(
        "C15",
        "some reference is to an element that has a title",
        vec![
            Part { name: "sections", quick: 10000, thorough: 150000, strategy: || docs(Bcfg { text: Icfg { depth: 2, max: 4, ..Icfg::spans() }, max: 2, ..Bcfg::paras() }, 4), eval: check_refs },
            Part { name: "blocks", quick: 10000, thorough: 150000, strategy: || docs(Bcfg { text: Icfg { max: 3, ..Icfg::plain() }, depth: 2, max: 3, ..Bcfg::all() }, 2), eval: check_refs },
            Part { name: "all", quick: 6000, thorough: 100000, strategy: || docs(Bcfg { text: Icfg::rich(), depth: 2, max: 2, ..Bcfg::all() }, 2), eval: check_refs },
        ],
    )
}

pub fn c18() -> Prop {
    // what is substituted doesn't have a place of its own in the source
    fn t() -> Icfg {
        Icfg { pass: 0, ..Icfg::rich() }
    }
    prop(
        "C18",
        "the document has at least two blocks or an inline element",
        vec![
            docs!("inlines", 20000, 200000, Bcfg { text: t(), max: 2, ..Bcfg::paras() }, 0, true, &["span", "ref", "charref"]),
            docs!("blocks", 24000, 200000, Bcfg { depth: 3, max: 3, ..Bcfg::all() }, 2, true, &[]),
            docs!("all", 10000, 80000, Bcfg { text: t(), ..Bcfg::all() }, 2, true, &[]),
        ],
    )
}

pub fn c24() -> Prop {
    prop(
        "C24",
        "some block has an id, a role, a named attribute or a title",
        vec![
            docs!("meta", 28000, 250000, Bcfg { meta: 60, depth: 2, max: 3, ..Bcfg::all() }, 2, false, &[]),
            docs!("formatted", 10000, 60000, Bcfg { meta: 60, depth: 1, max: 3, text: Icfg::rich(), ..Bcfg::all() }, 1, false, &[]),
        ],
    )
}

pub fn c25() -> Prop {
    fn t() -> Icfg {
        Icfg { span: 2, sym: 6, poss: 4, num: 1, quote: 5, depth: 2, max: 6, ..Icfg::plain() }
    }
    prop(
        "C25",
        "the text contains a character replacement or a typographic quote",
        vec![
            docs!("text", 32000, 300000, Bcfg { text: t(), max: 2, ..Bcfg::paras() }, 1, false, &["charref", "text"]),
            docs!("blocks", 10000, 60000, Bcfg { text: t(), ..Bcfg::all() }, 1, false, &["charref", "text"]),
        ],
    )
}
