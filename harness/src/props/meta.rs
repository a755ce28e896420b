//! Properties decided by changing a source in a way that must not matter, or must matter in a known
//! way, and comparing what the parser makes of both.
use super::model::kinds;
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use crate::soup::soup;
use crate::sut;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeSet;

/// the tree, or what is said about the source instead
fn outcome(src: &str) -> Result<Value, Result<String, Verdict>> {
    match sut::parse(src).and_then(|a| sut::json(&a)) {
        Ok(v) => Ok(v),
        Err(sut::Fault::Err(e)) => Err(Ok(e)),
        // C01 has the say about those
        Err(f @ sut::Fault::Panic(..)) => Err(Err(Verdict::ok(false).label(format!("{f}").chars().take(5).collect::<String>()))),
    }
}

fn names(v: &Value) -> BTreeSet<String> {
    let mut k = BTreeSet::new();
    kinds(v, &mut k);
    k
}

/// changes the line of every location
fn move_lines(v: &mut Value, f: &dyn Fn(u64) -> u64) {
    match v {
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "location" {
                    for p in x.as_array_mut().into_iter().flatten() {
                        if let Some(l) = p["line"].as_u64() {
                            p["line"] = f(l).into();
                        }
                    }
                } else {
                    move_lines(x, f);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| move_lines(x, f)),
        _ => {}
    }
}

fn top_location(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("location");
    }
    v
}

fn differ(exp: &Value, act: &Value, src: &str, changed: &str) -> Option<Verdict> {
    diff(exp, act).map(|(s, m)| Verdict::fail(s, format!("{m}\n--- source\n{src}\n--- changed\n{changed}")))
}

// ------------------------------------------------------------ line endings

fn eval_crlf(src: &str) -> Verdict {
    let src = src.replace('\r', "");
    let win = src.replace('\n', "\r\n");
    match (outcome(&src), outcome(&win)) {
        (Err(Err(v)), _) => v,
        (a, Err(Err(_))) => Verdict::fail("panic", format!("only with Windows line endings; otherwise {a:?}\n--- source\n{src}")),
        (Ok(a), Ok(b)) => match differ(&a, &b, &src, &win) {
            Some(v) => v,
            None => Verdict::ok(src.contains('\n')).labels(names(&a)),
        },
        (Err(Ok(a)), Err(Ok(b))) if a == b => Verdict::ok(src.contains('\n')).label("refused"),
        (a, b) => Verdict::fail("outcome", format!("{a:?}\nbut with Windows line endings\n{b:?}\n--- source\n{src}")),
    }
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "the source has more than one line",
        assumptions: &[],
        parts: vec![
            Part {
                name: "documents",
                quick: 12000,
                thorough: 100000,
                strategy: || typed(document(&Bcfg { text: Icfg::rich(), ..Bcfg::all() }, 2)),
                eval: |v| {
                    let mut w = W::new();
                    w.doc(&serde_json::from_value(v.clone()).expect("case"));
                    eval_crlf(&w.s)
                },
            },
            Part { name: "soup", quick: 40000, thorough: 400000, strategy: || typed(soup(30)), eval: |v| eval_crlf(v.as_str().expect("case")) },
            Part { name: "short", quick: 40000, thorough: 400000, strategy: || typed(soup(8)), eval: |v| eval_crlf(v.as_str().expect("case")) },
        ],
        known_inputs: no_known,
    }
}

// ---------------------------------------------------------------- comments

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ins {
    at: f64,
    /// a comment block instead of lines
    block: bool,
    lines: Vec<String>,
}

/// anything, but not what has a meaning inside of comments
fn comment_line() -> BoxedStrategy<String> {
    prop_oneof![2 => verbatim_line(), 2 => soup(4).prop_map(|s| clean_verbatim(&s.replace(['\n', '\r', '\0'], ""))), 1 => "[a-z ]{0,12}"].boxed()
}

fn inserts() -> BoxedStrategy<Vec<Ins>> {
    vec((0.0..1.0f64, proptest::bool::weighted(0.4), vec(comment_line(), 0..4)).prop_map(|(at, block, lines)| Ins { at, block, lines }), 1..5).boxed()
}

fn eval_comments(v: &Value) -> Verdict {
    let (d, ins): (Doc, Vec<Ins>) = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.doc(&d);
    let src = w.s;
    let lines: Vec<&str> = src.split('\n').collect();
    let sealed = |n: usize| w.sealed.iter().any(|(a, b)| (*a..=*b).contains(&n));
    let blank = |n: usize| n == 0 || n > lines.len() || lines[n - 1].is_empty();
    // lines (from 1) ahead of which a comment may go
    let first = if d.title.is_some() { 2 } else { 1 };
    let places: Vec<usize> = (first..=lines.len() + 1).filter(|n| !sealed(*n)).collect();
    let edges: Vec<usize> = places.iter().copied().filter(|n| blank(*n) || blank(*n - 1)).collect();
    let mut put: Vec<(usize, String)> = vec![];
    for i in &ins {
        let from = if i.block { &edges } else { &places };
        if from.is_empty() {
            continue;
        }
        let n = from[((i.at * from.len() as f64) as usize).min(from.len() - 1)];
        let t = if i.block {
            let mut l = vec!["////".to_string()];
            l.extend(i.lines.iter().map(|l| if l.starts_with("////") { format!(" {l}") } else { l.clone() }));
            l.push("////".into());
            l.join("\n")
        } else {
            let l: Vec<String> = i.lines.iter().map(|l| if l.starts_with('/') { format!("// {l}") } else { format!("//{l}") }).collect();
            if l.is_empty() { "//".into() } else { l.join("\n") }
        };
        put.push((n, t));
    }
    put.sort_by_key(|p| p.0);
    let mut out: Vec<String> = vec![];
    let mut moved = vec![0u64; lines.len() + 2];
    let mut k = 0;
    let mut added = 0;
    for n in 1..=lines.len() + 1 {
        while k < put.len() && put[k].0 == n {
            added += put[k].1.matches('\n').count() as u64 + 1;
            out.push(put[k].1.clone());
            k += 1;
        }
        moved[n] = added;
        if n <= lines.len() {
            out.push(lines[n - 1].to_string());
        }
    }
    let changed = out.join("\n");
    let (a, b) = match (outcome(&src), outcome(&changed)) {
        (Err(Err(v)), _) => return v,
        (Err(Ok(_)), _) => return Verdict::ok(false).label("refused"),
        (Ok(a), Ok(b)) => (a, b),
        (Ok(_), Err(b)) => return Verdict::fail("refused", format!("{}\n--- source\n{src}\n--- changed\n{changed}", b.unwrap_or("panic".into()))),
    };
    let (mut a, b) = (top_location(a), top_location(b));
    move_lines(&mut a, &|l| l + moved.get(l as usize).copied().unwrap_or(added));
    match differ(&a, &b, &src, &changed) {
        Some(v) => v,
        None => Verdict::ok(!put.is_empty()).labels(names(&a)),
    }
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "at least one comment was added",
        assumptions: &[
            "comments hold no tag or include directives",
            "none is put ahead of the document title, which has to be the first line, or into verbatim blocks and verses",
            "comment blocks go next to blank lines",
        ],
        parts: vec![
            Part { name: "blocks", quick: 24000, thorough: 200000, strategy: || typed((document(&Bcfg { depth: 2, max: 3, ..Bcfg::all() }, 2), inserts())), eval: eval_comments },
            Part { name: "text", quick: 16000, thorough: 150000, strategy: || typed((document(&Bcfg { text: Icfg { max: 6, ..Icfg::rich() }, depth: 1, max: 2, ..Bcfg::all() }, 1), inserts())), eval: eval_comments },
        ],
        known_inputs: no_known,
    }
}

// ------------------------------------------------ blank lines, composition

fn eval_blank(v: &Value) -> Verdict {
    let (d, more): (Doc, Vec<(f64, u64)>) = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.doc(&d);
    let src = w.s;
    let lines: Vec<&str> = src.split('\n').collect();
    let sealed = |n: usize| w.sealed.iter().any(|(a, b)| (*a..=*b).contains(&n));
    // blank lines, and the end
    let places: Vec<usize> = (1..=lines.len()).filter(|n| !sealed(*n) && lines[n - 1].is_empty()).chain([lines.len() + 1]).collect();
    let mut at = vec![0u64; lines.len() + 2];
    for (p, n) in &more {
        at[places[((p * places.len() as f64) as usize).min(places.len() - 1)]] += n;
    }
    let mut out = String::new();
    let mut moved = vec![0u64; lines.len() + 2];
    let mut added = 0;
    for n in 1..=lines.len() + 1 {
        added += at[n];
        out.push_str(&"\n".repeat(at[n] as usize));
        moved[n] = added;
        if n <= lines.len() {
            out.push_str(lines[n - 1]);
            if n < lines.len() {
                out.push('\n');
            }
        }
    }
    let (a, b) = match (outcome(&src), outcome(&out)) {
        (Err(Err(v)), _) => return v,
        (Err(Ok(_)), _) => return Verdict::ok(false).label("refused"),
        (Ok(a), Ok(b)) => (a, b),
        (Ok(_), Err(b)) => return Verdict::fail("refused", format!("{}\n--- source\n{src}\n--- changed\n{out}", b.unwrap_or("panic".into()))),
    };
    let (mut a, b) = (top_location(a), top_location(b));
    move_lines(&mut a, &|l| l + moved.get(l as usize).copied().unwrap_or(added));
    match differ(&a, &b, &src, &out) {
        Some(v) => v,
        None => Verdict::ok(true).labels(names(&a)),
    }
}

/// every block and section of the document, parsed on its own
fn eval_alone(v: &Value) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.doc(&d);
    let whole = match outcome(&w.s) {
        Ok(v) => v,
        Err(Err(v)) => return v,
        Err(Ok(_)) => return Verdict::ok(false).label("refused"),
    };
    let mut joined = vec![];
    for (a, b, line) in &w.tops {
        match outcome(&w.s[*a..*b]) {
            Ok(mut v) => {
                let by = *line as u64 - 1;
                move_lines(&mut v["blocks"], &|l| l + by);
                joined.extend(v["blocks"].as_array().cloned().unwrap_or_default());
            }
            Err(e) => return Verdict::fail("refused", format!("{}\n--- alone\n{}\n--- in\n{}", e.unwrap_or("panic".into()), &w.s[*a..*b], w.s)),
        }
    }
    match diff(&json!(joined), &whole["blocks"]) {
        Some((s, m)) => Verdict::fail(s, format!("{m}\n--- source\n{}", w.s)),
        None => Verdict::ok(joined.len() > 1).labels(names(&whole)),
    }
}

/// text that means the same wherever it is
fn context_free() -> Icfg {
    Icfg { attr: 0, xref: 0, ..Icfg::rich() }
}

pub fn c23() -> Prop {
    fn blanks() -> BoxedStrategy<Vec<(f64, u64)>> {
        vec((0.0..1.0f64, 1u64..4), 1..4).boxed()
    }
    Prop {
        id: "C23",
        rule: "blank lines were added, or the document has more than one block or section of its own",
        assumptions: &["documents have no attribute and cross references where blocks are parsed on their own"],
        parts: vec![
            Part { name: "blank", quick: 20000, thorough: 150000, strategy: || typed((document(&Bcfg { depth: 3, max: 3, ..Bcfg::all() }, 2), blanks())), eval: eval_blank },
            Part { name: "alone", quick: 16000, thorough: 120000, strategy: || typed(document(&Bcfg { depth: 2, max: 4, ..Bcfg::all() }, 2)), eval: eval_alone },
            Part { name: "text", quick: 10000, thorough: 80000, strategy: || typed(document(&Bcfg { text: context_free(), depth: 1, max: 4, ..Bcfg::all() }, 2)), eval: eval_alone },
        ],
        known_inputs: no_known,
    }
}

// ------------------------------------------------------------- determinism

type Outcome = (Result<Value, String>, Result<String, String>);

fn convert(src: &str) -> Outcome {
    let asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) => return (Err(f.to_string()), Err(String::new())),
    };
    (sut::json(&asg).map_err(|f| f.to_string()), sut::html(&asg).map_err(|f| f.to_string()))
}

fn eval_again(v: &Value) -> Verdict {
    let srcs: Vec<String> = serde_json::from_value(v.clone()).expect("case");
    let first: Vec<Outcome> = srcs.iter().map(|s| convert(s)).collect();
    let check = |now: &[Outcome], how: &str| {
        for (i, (a, b)) in first.iter().zip(now).enumerate() {
            if a != b {
                return Some(Verdict::fail(how, format!("{}\n--- source\n{}", diff(&json!([a.0, a.1]), &json!([b.0, b.1])).map(|d| d.1).unwrap_or_default(), srcs[i])));
            }
        }
        None
    };
    // again, the other way around
    let mut again: Vec<Outcome> = srcs.iter().rev().map(|s| convert(s)).collect();
    again.reverse();
    if let Some(v) = check(&again, "again") {
        return v;
    }
    // at the same time
    let n = srcs.len();
    for start in 0..2 {
        let gate = std::sync::Barrier::new(n);
        let now: Vec<Outcome> = std::thread::scope(|sc| {
            let hs: Vec<_> = srcs
                .iter()
                .map(|s| {
                    let gate = &gate;
                    sc.spawn(move || {
                        gate.wait();
                        convert(s)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        if let Some(v) = check(&now, if start == 0 { "threads" } else { "threads again" }) {
            return v;
        }
    }
    Verdict::ok(first.iter().filter(|f| f.0.is_ok()).count() > 1).labels(first.iter().map(|f| if f.0.is_ok() { "accepted".to_string() } else { "refused".to_string() }))
}

pub fn c27() -> Prop {
    fn docs() -> BoxedStrategy<Value> {
        let doc = document(&Bcfg { text: Icfg::rich(), max: 3, ..Bcfg::all() }, 2).prop_map(|d| {
            let mut w = W::new();
            w.doc(&d);
            w.s
        });
        typed(vec(prop_oneof![3 => doc, 1 => soup(20)], 2..6))
    }
    Prop {
        id: "C27",
        rule: "at least two of the documents are accepted",
        assumptions: &["thread timing is left to the system"],
        parts: vec![Part { name: "sets", quick: 1500, thorough: 20000, strategy: docs, eval: eval_again }],
        known_inputs: no_known,
    }
}
