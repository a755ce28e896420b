//! C06: marks that form no markup stay in the text. Strays are put into generated text such that
//! they cannot pair up with anything, and the document model takes them for plain words.
use super::model::check_with;
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spec {
    at: usize,
    mark: usize,
    kind: usize,
    word: String,
}

const OTHER: &[&str] = &[
    "[x", "[ x ]", "a[1", "{x", "x}", "{ x }", "{}", "<x", "x>", "< <", "> >", "& x", "a&b", "x;", "(x", "x)", "()", "$x$", "%x", "-", "- x", "x-",
    "= x", "== x", "=", "==", "a=b", "'x'", "\"x\"", "rock'n'roll", "\"", "'", "..", ". x", ".x", "<<x", "x>>", "<1", "(c)", "(C", "(T)", "(r)",
    "image:", "footnote:", "footnote:x", "pass:", "NOTE:", "NOTE: x", "TIP", "// x", "//x", "a//b", "x::y", ":", ":x:", ": x", "[[x", "x]]",
    "[.x", "[#x", "<x>", "</x>", "!", "@x", "\\x", "x\\", "*.rs", "a+b", "c++x", "http:", "http:/", "https", "ftp", "image::x", "1. x", "* x", "** x", "1 * 2 * 3", "a * b", "_ x _", "5' 6\"", "__", "x -", "&;", "&x", "& ;", "#1", "~x", "2^8", "`", "+", "x + y",
];

/// words that show whether something is left over
fn strayed(c: &Icfg, others: usize) -> BoxedStrategy<Vec<It>> {
    let spec = (0usize..8, 0usize..7, 0usize..8, "[a-z]{1,3}").prop_map(|(at, mark, kind, word)| Spec { at, mark, kind, word });
    (items(c), vec(spec, 1..4), vec((0usize..8, proptest::sample::select(OTHER)), 0..=others))
        .prop_map(|(v, s, o)| put(v, s, o))
        .boxed()
}

fn used(v: &[It], out: &mut Vec<char>) {
    for i in v {
        match &i.i {
            Inl::Span { v, kids, roles, .. } => {
                out.push(SPANS[*v].1);
                if !roles.is_empty() {
                    out.extend("[].".chars());
                }
                used(kids, out);
            }
            Inl::Quote(_, k) => {
                out.push('`');
                out.extend(['"', '\'']);
                used(k, out);
            }
            Inl::Link(u, k) => {
                out.extend(u.chars());
                out.extend("[]".chars());
                used(k, out);
            }
            Inl::Foot(k) => {
                out.extend("[]".chars());
                used(k, out);
            }
            Inl::Url(u) => out.extend(u.chars()),
            Inl::Pass(s) => out.extend(s.chars().chain("[]:<>".chars())),
            Inl::T(s) | Inl::Poss(s) => out.extend(s.chars().filter(|c| !c.is_alphanumeric())),
            Inl::Img(..) => out.extend("[]".chars()),
            Inl::Xref(_) => out.extend("<>-_".chars()),
            Inl::Sym(n) => out.extend(SYMS[*n].0.chars()),
            Inl::Attr(_) => out.extend("{}".chars()),
        }
        if i.g == Gap::Break {
            out.push('+');
        }
        if let Some(p) = i.punct {
            out.push(p);
        }
    }
}

fn put(v: Vec<It>, specs: Vec<Spec>, others: Vec<(usize, &'static str)>) -> Vec<It> {
    let mut taken = vec![];
    used(&v, &mut taken);
    let mut out = v;
    // strays by where they go, so that for each mark those that could end something come first
    let mut specs = specs;
    specs.sort_by_key(|s| s.at % (out.len() + 1));
    let mut opened: Vec<char> = vec![];
    let mut once: Vec<char> = vec![];
    let mut plan: Vec<(usize, String)> = vec![];
    for s in specs {
        let m = SPANS[s.mark].1;
        if taken.contains(&m) || once.contains(&m) {
            continue;
        }
        let w = &s.word;
        let single = m == '^' || m == '~';
        let text = match s.kind {
            0 if !single => format!("x {m} {w}"),
            1 if !single => format!("{w}{m}{w}"),
            2 if !opened.contains(&m) && !single => format!("{w}{m} x"),
            3 | 4 => {
                opened.push(m);
                format!("x {m}{w}")
            }
            5 if !single && !opened.contains(&m) && !plan.iter().any(|p| p.1.contains(m)) => {
                once.push(m);
                format!("x {m}{m}{w}")
            }
            6 if !single && !opened.contains(&m) && !plan.iter().any(|p| p.1.contains(m)) => {
                once.push(m);
                format!("{w}{m}{m}{w}")
            }
            7 if !single && !opened.contains(&m) => format!("{w}{m}. x"),
            _ => continue,
        };
        if single {
            once.push(m);
        }
        plan.push((s.at % (out.len() + 1), text));
    }
    let marks: Vec<char> = plan.iter().flat_map(|p| p.1.chars().filter(|c| !c.is_alphanumeric() && *c != ' ')).collect();
    for (at, o) in others {
        if o.chars().any(|c| !c.is_alphanumeric() && c != ' ' && (taken.contains(&c) || marks.contains(&c))) {
            continue;
        }
        if plan.iter().any(|p| OTHER.contains(&p.1.trim_end_matches(" z").trim_start_matches("y "))) {
            continue;
        }
        plan.push((at % (out.len() + 1), format!("y {o} z")));
    }
    plan.sort_by_key(|p| p.0);
    for (at, text) in plan.into_iter().rev() {
        let mut it = t(&text);
        it.g = if at == 0 { Gap::Space } else { out.get(at).map(|i| i.g).filter(|g| *g != Gap::Glue).unwrap_or(Gap::Space) };
        if let Some(next) = out.get_mut(at) {
            next.g = Gap::Space;
        }
        if at > 0 && matches!(out[at - 1].i, Inl::Url(_)) && out[at - 1].punct.is_none() {
            it.g = Gap::Space;
        }
        out.insert(at, it);
    }
    out.insert(0, t("So"));
    if out.len() > 1 {
        out[1].g = Gap::Space;
    }
    // dots are an ellipsis at the start of a line only
    for it in out.iter_mut().skip(1) {
        if matches!(it.i, Inl::Sym(DOTS)) && !matches!(it.g, Gap::Newline | Gap::Break | Gap::Comment) {
            it.i = Inl::Sym(3);
        }
    }
    out
}

fn docs(text: Icfg, more: bool) -> BoxedStrategy<Doc> {
    let s = strayed(&text, 1);
    let one = strayed(&text.clone().oneline(), 1);
    let cell = strayed(&text.clone().oneline(), 1).prop_map(no_pipe);
    let plain = items(&Icfg { max: 3, ..Icfg::spans() });
    let mk = |b: Blk| B { meta: Meta::default(), gap: 0, b };
    let para = s.clone().prop_map(move |t| mk(Blk::Para(t)));
    let after = plain.prop_map(move |t| mk(Blk::Para(t)));
    let list = (any::<bool>(), vec(s.clone(), 1..3)).prop_map(move |(ordered, i)| mk(Blk::List(Lst { ordered, items: i.into_iter().map(|text| LItem { text, blocks: vec![], nested: None, comment: false }).collect() })));
    let term = strayed(&text.clone().oneline(), 0);
    let dlist = vec((term, s.clone()), 1..2).prop_map(move |i| mk(Blk::DList(i.into_iter().map(|(term, text)| DItem { term, text, blocks: vec![], nested: None, comment: false, below: false }).collect())));
    let adm = (0..5usize, s.clone()).prop_map(move |(k, t)| mk(Blk::Adm(k, t)));
    let table = vec(vec(cell, 2..=2), 1..3).prop_map(move |rows| mk(Blk::Table(Tbl { cols: 2, decl: 1, header: false, oneline: true, lead: false, rows })));
    let parent = (0..4usize, vec(para.clone(), 1..3)).prop_map(move |(kind, blocks)| mk(Blk::Parent { kind, blocks }));
    let block = if more {
        prop_oneof![3 => para, 1 => after, 1 => list, 1 => dlist, 1 => adm, 1 => table, 1 => parent].boxed()
    } else {
        prop_oneof![3 => para, 1 => after].boxed()
    };
    let sec = (one, vec(block.clone(), 0..2)).prop_map(|(title, blocks)| Sec { meta: Meta::default(), title, step: 1, tight: false, blocks, subs: vec![] });
    let secs = if more { vec(sec, 0..2).boxed() } else { Just(vec![]).boxed() };
    (vec(block, 1..4), secs, 0u8..2).prop_map(|(blocks, secs, trail)| Doc { title: None, attrs: vec![], blocks, secs, trail }).boxed()
}

/// Inside of anything that opens like a span, closed or not, a character reference is text.
fn refs_as_text(v: &mut Value) {
    match v {
        Value::Object(o) => {
            if o.get("name").is_some_and(|n| n == "charref") {
                o.insert("name".into(), "text".into());
            }
            o.values_mut().for_each(refs_as_text);
        }
        Value::Array(a) => a.iter_mut().for_each(refs_as_text),
        _ => {}
    }
}

fn eval(v: &Value) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    let exp = w.doc(&d);
    check_with(&w.s, &exp, false, &[], refs_as_text)
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "every case has at least one stray mark",
        assumptions: &["stray marks are placed such that nothing could close (or open) them"],
        parts: vec![
            Part { name: "paragraphs", quick: 40000, thorough: 400000, strategy: || typed(docs(Icfg { max: 3, ..Icfg::spans() }, false)), eval },
            Part { name: "rich", quick: 20000, thorough: 200000, strategy: || typed(docs(Icfg { max: 4, ..Icfg::rich() }, false)), eval },
            Part { name: "blocks", quick: 20000, thorough: 200000, strategy: || typed(docs(Icfg { max: 2, ..Icfg::spans() }, true)), eval },
        ],
        known_inputs: no_known,
    }
}
