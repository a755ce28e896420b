//! C19: HTML output against a renderer that works on the parsed tree as JSON.
use crate::blocks::{Bcfg, document};
use crate::doc::{Doc, Icfg, W};
use crate::engine::*;
use crate::html::*;
use crate::soup::soup;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::Value;
use std::collections::BTreeSet;

type Attrs<'a> = Vec<(&'a str, String)>;

fn mk(tag: &str, attrs: Attrs, kids: Vec<Node>) -> Node {
    Node::El { tag: tag.into(), attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), kids }
}

fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

/// class and id
fn common(b: &Value) -> Attrs<'static> {
    let mut a = vec![];
    let roles: Vec<&str> = arr(&b["metadata"], "roles").iter().filter_map(|r| r.as_str()).collect();
    if !roles.is_empty() {
        a.push(("class", roles.join(" ")));
    }
    if let Some(id) = attr(b, "id") {
        a.push(("id", id.into()));
    }
    a
}

fn attr<'a>(b: &'a Value, k: &str) -> Option<&'a str> {
    b["metadata"]["attributes"][k].as_str().filter(|s| !s.is_empty())
}

fn inl(i: &Value) -> Vec<Node> {
    let kids: Vec<Node> = inls(arr(i, "inlines"));
    let mut at = common(i);
    at.retain(|a| a.0 == "class");
    match s(i, "name") {
        "linebreak" => vec![mk("br", vec![], vec![])],
        "span" => {
            let tag = match s(i, "variant") {
                "strong" => "strong",
                "emphasis" => "em",
                "code" => "code",
                "mark" => "span",
                "superscript" => "sup",
                "subscript" => "sub",
                "footnote" => {
                    at.push(("data-type", "footnote".into()));
                    "span"
                }
                x => panic!("span {x}"),
            };
            vec![mk(tag, at, kids)]
        }
        "ref" => {
            let t = s(i, "target");
            match s(i, "variant") {
                "image" => {
                    at.push(("src", t.into()));
                    if let Some(a) = attr(i, "positional_1") {
                        at.push(("alt", a.into()));
                    }
                    vec![mk("img", at, vec![])]
                }
                v => {
                    let t = if v == "xref" { format!("#{t}") } else { t.to_string() };
                    at.push(("href", t.clone()));
                    vec![mk("a", at, if kids.is_empty() { vec![Node::Text(t)] } else { kids })]
                }
            }
        }
        _ => vec![txt(s(i, "value"))],
    }
}

fn inls(v: &[Value]) -> Vec<Node> {
    v.iter().flat_map(inl).collect()
}

fn attribution(b: &Value) -> Vec<Node> {
    match attr(b, "attribution") {
        Some(a) => {
            let t = match attr(b, "citation") {
                Some(c) => format!("{a}, {c}"),
                None => a.to_string(),
            };
            vec![mk("p", vec![("data-type", "attribution".into())], vec![Node::Text(t)])]
        }
        None => vec![],
    }
}

fn blocks(b: &Value) -> Vec<Node> {
    arr(b, "blocks").iter().flat_map(block).collect()
}

fn title(b: &Value, tag: &str) -> Vec<Node> {
    let t = arr(b, "title");
    if t.is_empty() { vec![] } else { vec![mk(tag, vec![], inls(t))] }
}

fn cells(v: &[Value], tag: &str) -> Vec<Node> {
    v.iter().map(|c| mk(tag, vec![], inls(arr(c, "inlines")))).collect()
}

/// a verbatim block shows its text as it is; anything else in it (callouts) is formatted
fn verbatim(b: &Value) -> Vec<Node> {
    arr(b, "inlines")
        .iter()
        .flat_map(|i| match s(i, "name") {
            "text" => vec![Node::Text(s(i, "value").replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"))],
            _ => inl(i),
        })
        .collect()
}

pub fn block(b: &Value) -> Vec<Node> {
    let mut at = common(b);
    match s(b, "name") {
        "paragraph" => vec![mk("p", at, inls(arr(b, "inlines")))],
        "listing" => {
            if let Some(l) = attr(b, "language") {
                at.push(("data-code-language", l.into()));
            }
            vec![mk("pre", at, verbatim(b))]
        }
        "literal" => vec![mk("pre", at, verbatim(b))],
        "verse" => {
            at.push(("data-type", "verse".into()));
            let mut v = vec![mk("pre", at, inls(arr(b, "inlines")))];
            v.extend(attribution(b));
            v
        }
        "pass" => inls(arr(b, "inlines")),
        "break" => match s(b, "variant") {
            "page" => vec![mk("div", vec![("style", "page-break-after: always;".into())], vec![])],
            _ => vec![mk("hr", vec![], vec![])],
        },
        "section" => {
            at.push(("data-type", format!("sect{}", b["level"])));
            let mut k = title(b, "h1");
            k.extend(attribution(b));
            k.extend(blocks(b));
            vec![mk("section", at, k)]
        }
        "list" | "dlist" => {
            let mut k: Vec<Node> = arr(b, "items").iter().flat_map(block).collect();
            k.extend(attribution(b));
            let tag = if s(b, "name") == "dlist" { "dl" } else if s(b, "variant") == "ordered" { "ol" } else { "ul" };
            vec![mk(tag, at, k)]
        }
        "listItem" | "dlistItem" => {
            let mut out = vec![];
            let terms = arr(b, "terms");
            if !terms.is_empty() {
                out.push(mk("dt", vec![], inls(terms)));
            }
            let p = arr(b, "principal");
            let mut k = if p.is_empty() { vec![] } else { vec![mk("p", vec![], inls(p))] };
            k.extend(blocks(b));
            k.extend(attribution(b));
            out.push(mk(if s(b, "name") == "listItem" { "li" } else { "dd" }, at, k));
            out
        }
        "image" => {
            let mut ia = vec![("src", s(b, "target").to_string())];
            if let Some(a) = attr(b, "positional_1") {
                ia.push(("alt", a.into()));
            }
            let mut k = vec![mk("img", ia, vec![])];
            if !arr(b, "caption").is_empty() {
                k.push(mk("figcaption", vec![], inls(arr(b, "caption"))));
            }
            k.extend(attribution(b));
            vec![mk("figure", at, k)]
        }
        "admonition" => {
            at.push(("data-type", s(b, "variant").into()));
            let mut k = title(b, "h1");
            for c in arr(b, "blocks") {
                // the block that holds an admonition together has no element of its own
                match block(c).pop() {
                    Some(Node::El { kids, .. }) if ["example", "sidebar", "open", "quote"].contains(&s(c, "name")) => k.extend(kids),
                    _ => k.extend(block(c)),
                }
            }
            k.extend(attribution(b));
            vec![mk("div", at, k)]
        }
        "table" => {
            let cols = attr(b, "cols").and_then(|c| c.parse::<usize>().ok()).unwrap_or(1).max(1);
            let all = arr(b, "blocks");
            let head = arr(&b["metadata"], "options").iter().any(|o| o == "header");
            let cut = if head { cols.min(all.len()) } else { 0 };
            let mut rows: Vec<Node> = all[cut..].chunks(cols).map(|r| mk("tr", vec![], cells(r, "td"))).collect();
            if rows.is_empty() {
                rows.push(mk("tr", vec![], vec![]));
            }
            let mut k = title(b, "caption");
            if head {
                k.push(mk("thead", vec![], cells(&all[..cut], "th")));
                k.push(mk("tbody", vec![], rows));
            } else {
                k.extend(rows);
            }
            vec![mk("table", at, k)]
        }
        x => {
            let (tag, h) = match x {
                "example" => ("div", "h5"),
                "open" => ("div", "h1"),
                "quote" => ("blockquote", "h1"),
                "sidebar" => {
                    at.push(("data-type", "sidebar".into()));
                    ("aside", "h5")
                }
                _ => panic!("block {x}"),
            };
            let mut k = title(b, h);
            k.extend(blocks(b));
            k.extend(attribution(b));
            vec![mk(tag, at, k)]
        }
    }
}

/// Text goes into HTML unescaped, so anything that looks like a tag (or ends an attribute) makes
/// the output depend on the text in ways that are not the renderer's.
fn opaque(v: &Value, verbatim: bool, key: &str) -> bool {
    match v {
        Value::String(t) => !verbatim && t.contains(if key == "value" { &['<'][..] } else { &['<', '"', '>'] }) && key != "delimiter" && key != "marker",
        Value::Array(a) => a.iter().any(|x| opaque(x, verbatim, key)),
        Value::Object(o) => {
            let verbatim = v["name"] == "listing" || v["name"] == "literal";
            o.iter().any(|(k, x)| k != "location" && if k == "inlines" { opaque_inlines(x, verbatim) } else { opaque(x, false, k) })
        }
        _ => false,
    }
}

fn opaque_inlines(v: &Value, verbatim: bool) -> bool {
    v.as_array().is_some_and(|a| a.iter().any(|i| !(verbatim && i["name"] == "text") && opaque(i, false, "")))
}

pub fn check(src: &str) -> Verdict {
    check_against(src, None)
}

/// `tree`: what the source stands for, if that's known
fn check_against(src: &str, tree: Option<Value>) -> Verdict {
    let asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) if tree.is_some() => return Verdict::fail("rejected", format!("{f}\n--- source\n{src}")),
        Err(_) => return Verdict::ok(false).label("not accepted"),
    };
    let json = match sut::json(&asg) {
        Ok(j) => tree.unwrap_or(j),
        Err(f) => return Verdict::fail("json", f.to_string()),
    };
    let out = match sut::html(&asg) {
        Ok(o) => o,
        Err(f) => return Verdict::fail("render", format!("{f}\n--- source\n{src}")),
    };
    if opaque(&json, false, "") {
        return Verdict::ok(false).label("unescaped text");
    }
    let body = arr(&json, "blocks").iter().flat_map(block).collect();
    let head = inls(arr(&json["header"], "title"));
    let act = match read(&out) {
        Ok(n) => tidy(n, false),
        Err(e) => return Verdict::fail("malformed", format!("{e}\n--- source\n{src}\n--- output\n{out}")),
    };
    // the page: a head with the title, and a body
    let find = |tag: &str, n: &[Node]| -> Option<Vec<Node>> {
        n.iter().find_map(|n| match n {
            Node::El { tag: t, kids, .. } if t == tag => Some(kids.clone()),
            _ => None,
        })
    };
    let page = find("html", &act);
    let h = page.as_ref().and_then(|p| find("head", p));
    let b = page.as_ref().and_then(|p| find("body", p));
    let (Some(h), Some(b)) = (h, b) else {
        return Verdict::fail("no page", format!("--- source\n{src}\n--- output\n{out}"));
    };
    let t = find("title", &h).unwrap_or_default();
    let exp = |tag: &str, k: Vec<Node>| match tidy(vec![el(tag, &[], k)], false).pop() {
        Some(Node::El { kids, .. }) => kids,
        _ => vec![],
    };
    let d = diff(&exp("title", head), &t, "title").or_else(|| diff(&exp("body", body), &b, "body"));
    match d {
        None => {
            let mut k = BTreeSet::new();
            super::model::kinds(&json, &mut k);
            Verdict::ok(!arr(&json, "blocks").is_empty()).labels(k)
        }
        Some((sig, m)) => Verdict::fail(sig, format!("{m}\n--- source\n{src}\n--- output\n{out}")),
    }
}

fn eval_doc(v: &Value) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.exact = false;
    w.doc(&d);
    check(&w.s)
}

fn eval_written(v: &Value) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.exact = false;
    let tree = w.doc(&d);
    check_against(&w.s, Some(tree))
}

fn eval_src(v: &Value) -> Verdict {
    check(v.as_str().expect("case"))
}

/// takes the '<' out of generated documents, except for listings and literal blocks
fn soft(mut v: Value) -> Value {
    match &mut v {
        Value::String(s) => *s = s.replace('<', "%"),
        Value::Array(a) => a.iter_mut().for_each(|x| *x = soft(x.take())),
        Value::Object(o) => {
            let keep = o.get("lines").is_some() && o.get("kind").is_some_and(|k| k == 0 || k == 1);
            o.iter_mut().filter(|(k, _)| !keep || *k != "lines").for_each(|(_, x)| *x = soft(x.take()));
        }
        _ => {}
    }
    v
}

fn docs(c: Bcfg) -> BoxedStrategy<Value> {
    typed(document(&c, 2)).prop_map(soft).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "the document is accepted, has at least one block, and no text that HTML would take for markup",
        assumptions: &[
            "white space is compared as a browser treats it, exactly in preformatted text only",
            "text outside of listings and literal blocks is put out unescaped by design (passthroughs); documents where it contains '<' are not compared",
        ],
        parts: vec![
            Part { name: "documents", quick: 6000, thorough: 60000, strategy: || docs(Bcfg { text: Icfg::rich(), ..Bcfg::all() }), eval: eval_doc },
            Part { name: "written", quick: 6000, thorough: 60000, strategy: || docs(Bcfg { text: Icfg::rich(), meta: 30, ..Bcfg::all() }), eval: eval_written },
            Part { name: "blocks", quick: 6000, thorough: 60000, strategy: || docs(Bcfg { depth: 3, max: 3, meta: 40, ..Bcfg::all() }), eval: eval_doc },
            Part { name: "soup", quick: 8000, thorough: 120000, strategy: || typed(soup(24)), eval: eval_src },
        ],
        known_inputs: no_known,
    }
}
