//! C17 (footnotes) and C22 (text and word count): reference versions working on the JSON tree.
use crate::blocks::{Bcfg, document};
use crate::doc::{Doc, Icfg, W, canon, strip};
use crate::engine::*;
use crate::soup::soup;
use crate::sut;
use serde_json::{Value, json};

// ---------------------------------------------------------------- footnotes

/// `prefix`: whatever the document is called
fn footnote_ids(prefix: &str, n: usize) -> (String, String) {
    (format!("{prefix}_footnotedef_{n}"), format!("{prefix}_footnoteref_{n}"))
}

fn numbered(target: String, id: Option<String>, n: usize) -> Value {
    let mut r = json!({"name": "ref", "variant": "xref", "target": target, "inlines": [{"name": "text", "value": n.to_string()}]});
    if let Some(id) = id {
        r["metadata"] = json!({"attributes": {"id": id}, "options": [], "roles": []});
    }
    r
}

/// replaces the footnotes of an element; definitions go to `defs`
fn lift(v: &mut Value, prefix: &str, defs: &mut Vec<Value>) {
    // in document order; what is inside of references is a copy (or a label), not a place
    match v {
        Value::Array(a) => {
            for x in a {
                if x["name"] == "span" && x["variant"] == "footnote" {
                    let n = defs.len() + 1;
                    let (def, re) = footnote_ids(prefix, n);
                    let mut inlines = vec![numbered(re.clone(), None, n)];
                    inlines.extend(x["inlines"].as_array().cloned().unwrap_or_default());
                    defs.push(json!({"name": "paragraph", "inlines": inlines, "metadata": {"attributes": {"id": def}, "options": [], "roles": ["footnote"]}}));
                    *x = json!({"name": "span", "variant": "superscript", "form": "constrained", "inlines": [numbered(def, Some(re), n)],
                        "metadata": {"attributes": {}, "options": [], "roles": ["footnote"]}});
                } else if x["name"] != "ref" {
                    lift(x, prefix, defs);
                }
            }
        }
        Value::Object(o) => {
            for k in ["title", "caption", "terms", "principal", "inlines", "items", "blocks"] {
                if let Some(x) = o.get_mut(k) {
                    lift(x, prefix, defs);
                }
            }
        }
        _ => {}
    }
}

fn plain(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(plain),
        Value::Object(o) => {
            if o.get("name").is_some_and(|n| n == "charref") {
                o.insert("name".into(), json!("text"));
            }
            o.values_mut().for_each(plain);
        }
        _ => {}
    }
}

/// `tree`: what the source stands for, if that's known
fn check_footnotes(src: &str, tree: Option<Value>) -> Verdict {
    let mut asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) if tree.is_some() => return Verdict::fail("rejected", format!("{f}\n--- source\n{src}")),
        Err(_) => return Verdict::ok(false).label("not accepted"),
    };
    let fault = |f: sut::Fault| Verdict::fail("fault", format!("{f}\n--- source\n{src}"));
    let written = tree.is_some();
    let norm = |mut v: Value| {
        // (the model has no character references of their own inside of footnotes)
        if written {
            plain(&mut v);
        }
        strip(&canon(&v), &["location"])
    };
    let before = match sut::json(&asg) {
        Ok(j) => tree.unwrap_or(j),
        Err(f) => return fault(f),
    };
    if let Err(f) = sut::footnotes(&mut asg) {
        return fault(f);
    }
    let after = match sut::json(&asg) {
        Ok(j) => norm(j),
        Err(f) => return fault(f),
    };
    let mut exp = before;
    let mut defs = vec![];
    let prefix = after["blocks"].as_array().and_then(|b| b.last()).and_then(|l| l["blocks"][0]["metadata"]["attributes"]["id"].as_str());
    let prefix = prefix.and_then(|i| i.strip_suffix("_footnotedef_1")).unwrap_or("").to_string();
    if let Some(b) = exp.get_mut("blocks") {
        lift(b, &prefix, &mut defs);
    }
    let exp = norm(exp);
    let defs: Vec<Value> = defs.into_iter().map(norm).collect();
    let n = defs.len();
    let mut got = after.clone();
    if n > 0 {
        // whatever holds the definitions, they are the last block
        let Some(last) = got["blocks"].as_array_mut().and_then(|b| b.pop()) else {
            return Verdict::fail("no definitions", format!("--- source\n{src}"));
        };
        if got["blocks"].as_array().is_some_and(|b| b.is_empty()) {
            got.as_object_mut().map(|o| o.remove("blocks"));
        }
        let got_defs = last["blocks"].as_array().cloned().unwrap_or_default();
        if got_defs.len() != n {
            return Verdict::fail("number of definitions", format!("expected {n} but got {}\n--- source\n{src}\n{last}", got_defs.len()));
        }
        for (e, g) in defs.iter().zip(&got_defs) {
            if e != g {
                return Verdict::fail("definition", format!("expected {e}\nbut got {g}\n--- source\n{src}"));
            }
        }
    }
    if exp != got {
        return Verdict::fail(if n == 0 { "changed without footnotes" } else { "document" }, format!("expected {exp}\nbut got {got}\n--- source\n{src}"));
    }
    Verdict::ok(n > 0).label(match n {
        0 => "none",
        1 => "1",
        2..=4 => "2-4",
        5..=9 => "5-9",
        _ => "10 and more",
    })
}

// ---------------------------------------------------------------- text

/// the text of an element, with a newline after every title, text, term and cell
fn text(v: &Value, out: &mut String) {
    match v["name"].as_str().unwrap_or("") {
        "section" | "sidebar" | "example" | "open" | "quote" | "admonition" | "table" | "image" | "listItem" | "dlistItem" | "list" | "dlist" | "paragraph" | "listing"
        | "literal" | "pass" | "verse" | "tableCell" | "break" | "document" => {
            for k in ["title", "caption", "terms", "principal", "inlines"] {
                if v["name"] == "document" {
                    continue;
                }
                if let Some(a) = v[k].as_array() {
                    a.iter().for_each(|i| inline_text(i, out));
                    out.push('\n');
                }
            }
            for k in ["items", "blocks"] {
                if let Some(a) = v[k].as_array() {
                    a.iter().for_each(|b| text(b, out));
                }
            }
        }
        n => panic!("block {n}"),
    }
}

fn inline_text(v: &Value, out: &mut String) {
    if let Some(s) = v["value"].as_str() {
        out.push_str(s);
    }
    if let Some(a) = v["inlines"].as_array() {
        a.iter().for_each(|i| inline_text(i, out));
    }
}

/// `tree`: what the source stands for, if that's known
fn check_words(src: &str, tree: Option<Value>) -> Verdict {
    let asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) if tree.is_some() => return Verdict::fail("rejected", format!("{f}\n--- source\n{src}")),
        Err(_) => return Verdict::ok(false).label("not accepted"),
    };
    let fault = |f: sut::Fault| Verdict::fail("fault", format!("{f}\n--- source\n{src}"));
    let json = match sut::json(&asg) {
        Ok(j) => tree.unwrap_or(j),
        Err(f) => return fault(f),
    };
    let (all, count) = match (sut::text(&asg), sut::words(&asg)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(f), _) | (_, Err(f)) => return fault(f),
    };
    let mut exp = String::new();
    text(&json, &mut exp);
    let (e, g): (Vec<&str>, Vec<&str>) = (exp.split_whitespace().collect(), all.split_whitespace().collect());
    if let Some(i) = (0..e.len().max(g.len())).find(|i| e.get(*i) != g.get(*i)) {
        return Verdict::fail("text", format!("word {i}: expected {:?} but got {:?}\n--- source\n{src}", e.get(i), g.get(i)));
    }
    if count != e.len() {
        return Verdict::fail("count", format!("expected {} words but got {count}\n--- source\n{src}", e.len()));
    }
    Verdict::ok(e.len() > 1).label(if e.len() > 20 { "more than 20 words" } else { "up to 20 words" })
}

fn source(v: &Value) -> String {
    match v.as_str() {
        Some(s) => s.into(),
        None => written(v).0,
    }
}

fn written(v: &Value) -> (String, Value) {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.exact = false;
    let tree = w.doc(&d);
    (w.s, tree)
}

pub fn c17() -> Prop {
    fn t() -> Icfg {
        Icfg { foot: 8, span: 4, ..Icfg::rich() }
    }
    let eval = |v: &Value| check_footnotes(&source(v), None);
    let eval_written = |v: &Value| {
        let (src, tree) = written(v);
        check_footnotes(&src, Some(tree))
    };
    Prop {
        id: "C17",
        rule: "the document has at least one footnote",
        assumptions: &["locations are not compared", "footnotes in the text of references are labels, not places"],
        parts: vec![
            Part { name: "documents", quick: 10000, thorough: 150000, strategy: || typed(document(&Bcfg { text: t(), ..Bcfg::all() }, 2)), eval },
            Part { name: "written", quick: 6000, thorough: 80000, strategy: || typed(document(&Bcfg { text: t(), ..Bcfg::all() }, 2)), eval: eval_written },
            Part { name: "many", quick: 4000, thorough: 60000, strategy: || typed(document(&Bcfg { text: Icfg { max: 8, ..t() }, list: 4, dlist: 4, table: 3, depth: 1, ..Bcfg::paras() }, 2)), eval },
            Part { name: "soup", quick: 10000, thorough: 150000, strategy: || typed(soup(24)), eval },
        ],
        known_inputs: no_known,
    }
}

pub fn c22() -> Prop {
    let eval = |v: &Value| check_words(&source(v), None);
    let eval_written = |v: &Value| {
        let (src, tree) = written(v);
        check_words(&src, Some(tree))
    };
    Prop {
        id: "C22",
        rule: "the document has at least two words",
        assumptions: &["words are separated by white space or by the end of a title, text, term or cell"],
        parts: vec![
            Part { name: "documents", quick: 16000, thorough: 120000, strategy: || typed(document(&Bcfg { text: Icfg::rich(), ..Bcfg::all() }, 2)), eval },
            Part { name: "written", quick: 16000, thorough: 120000, strategy: || typed(document(&Bcfg { text: Icfg::rich(), meta: 30, ..Bcfg::all() }, 2)), eval: eval_written },
            Part { name: "blocks", quick: 16000, thorough: 120000, strategy: || typed(document(&Bcfg { depth: 3, max: 3, meta: 30, ..Bcfg::all() }, 2)), eval },
            Part { name: "soup", quick: 40000, thorough: 300000, strategy: || typed(soup(30)), eval },
        ],
        known_inputs: no_known,
    }
}
