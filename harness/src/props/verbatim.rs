//! C07: whatever is written into a verbatim block is its text.
use super::model::check_doc;
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use crate::soup::FRAGS;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::Value;

fn line() -> BoxedStrategy<String> {
    let frag = proptest::sample::select(FRAGS).prop_map(|f| f.replace(['\n', '\0'], ""));
    let piece = prop_oneof![10 => frag, 2 => "[ -~]{1,6}", 1 => any::<char>().prop_map(|c| if c == '\n' || c == '\0' { String::new() } else { c.to_string() })];
    prop_oneof![3 => vec(piece, 0..5).prop_map(|v| clean_verbatim(&v.concat())), 1 => verbatim_line()].boxed()
}

fn leaf() -> BoxedStrategy<B> {
    (0..3usize, proptest::option::weighted(0.2, "[a-z]{1,4}"), vec(line(), 0..7), meta(20, None))
        .prop_map(|(kind, lang, lines, meta)| B {
            meta,
            gap: 0,
            b: Blk::Leaf { kind, lang: if kind == 0 { lang } else { None }, lines: not_delim(LEAFS[kind].1, lines) },
        })
        .boxed()
}

fn docs(inside: bool) -> BoxedStrategy<Value> {
    let mk = |b: Blk| B { meta: Meta::default(), gap: 0, b };
    let para = items(&Icfg { max: 3, ..Icfg::spans() }).prop_map(move |t| mk(Blk::Para(t)));
    let some = vec(prop_oneof![2 => leaf(), 1 => para.clone()], 1..4);
    let parent = (0..4usize, some.clone()).prop_map(move |(kind, blocks)| mk(Blk::Parent { kind, blocks }));
    let word = items(&Icfg { max: 2, ..Icfg::plain() });
    let list = (any::<bool>(), vec((word.clone(), some.clone()), 1..3)).prop_map(move |(ordered, i)| {
        mk(Blk::List(Lst { ordered, items: i.into_iter().map(|(text, blocks)| LItem { text, blocks, nested: None, comment: false }).collect() }))
    });
    let dlist = vec((items(&Icfg { max: 2, ..Icfg::plain() }.oneline()), word, some), 1..3)
        .prop_map(move |i| mk(Blk::DList(i.into_iter().map(|(term, text, blocks)| DItem { term, text, blocks, nested: None, comment: false, below: false }).collect())));
    let block = if inside { prop_oneof![2 => leaf(), 1 => para, 2 => parent, 2 => list, 1 => dlist].boxed() } else { prop_oneof![3 => leaf(), 1 => para].boxed() };
    let sec = (items(&Icfg { max: 2, ..Icfg::plain() }.oneline()), vec(block.clone(), 0..3))
        .prop_map(|(title, blocks)| Sec { meta: Meta::default(), title, step: 1, tight: false, blocks, subs: vec![] });
    // (the names that the lines refer to may be defined)
    let header = proptest::option::of((items(&Icfg { max: 2, ..Icfg::plain() }.oneline()), proptest::sample::subsequence(vec!["foo", "bar", "a", "nope"], 0..=4), "[a-z]{1,5}"));
    typed((header, vec(block, 1..4), vec(sec, 0..2), 0u8..2).prop_map(|(header, blocks, secs, trail)| {
        let (title, attrs) = match header {
            Some((t, names, value)) => (Some(t), names.iter().map(|n| (n.to_string(), value.clone())).collect()),
            None => (None, vec![]),
        };
        Doc { title, attrs, blocks, secs, trail }
    }))
}

fn eval(v: &Value) -> Verdict {
    check_doc(v, false, &["listing", "literal", "pass"])
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "the document has at least one listing, literal or passthrough block",
        assumptions: &["lines are no include or tag directives, and do not end in what could be a callout"],
        parts: vec![
            Part { name: "lines", quick: 40000, thorough: 400000, strategy: || docs(false), eval },
            Part { name: "inside", quick: 24000, thorough: 200000, strategy: || docs(true), eval },
        ],
        known_inputs: no_known,
    }
}
