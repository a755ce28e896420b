//! C02: the tokens of a text tile it, at their true positions.
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use crate::{soup, sut};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::Value;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "the scanner accepts the text and finds at least three tokens in it",
        assumptions: &["a carriage return and newline are the same as a newline (see C29)"],
        parts: vec![
            Part { name: "soup", quick: 80000, thorough: 600000, strategy: || typed(soup::soup(20)), eval: eval_src },
            Part { name: "documents", quick: 12000, thorough: 60000, strategy: docs, eval: eval_doc },
            Part { name: "characters", quick: 20000, thorough: 100000, strategy: || typed(any::<String>()), eval: eval_src },
        ],
        known_inputs: no_known,
    }
}

fn docs() -> BoxedStrategy<Value> {
    typed(document(&Bcfg { text: Icfg::rich(), ..Bcfg::all() }, 1))
}

fn eval_doc(v: &Value) -> Verdict {
    let d: Doc = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.doc(&d);
    check(&w.s)
}

fn eval_src(v: &Value) -> Verdict {
    check(v.as_str().expect("case"))
}

fn check(src: &str) -> Verdict {
    let tokens = match sut::scan(src) {
        Ok(t) => t,
        Err(sut::Fault::Err(_)) => return Verdict::ok(false).label("rejected"),
        Err(f) => return Verdict::fail("panic", f.to_string()),
    };
    // the two kinds of line endings are not told apart
    let src = &src.replace("\r\n", "\n");
    let mut at = 0;
    let (mut line, mut col) = (1, 1);
    for (n, t) in tokens.iter().enumerate() {
        let kind = format!("{:?}", t.token_type);
        if n + 1 == tokens.len() {
            if kind != "Eof" || !t.lexeme.is_empty() {
                return Verdict::fail("no end token", format!("last token is {t:?}\n--- source\n{src}"));
            }
            break;
        }
        if kind == "Eof" || t.lexeme.is_empty() {
            return Verdict::fail(format!("empty token {kind}"), format!("token {n}: {t:?}\n--- source\n{src}"));
        }
        let tag = kind == "StartTag" || kind == "EndTag";
        if kind == "EndTag" {
            // whatever makes it a comment is not the scanner's business
            let rest = src[at..].split('\n').next().unwrap_or("");
            if let Some(skip) = rest.find(&t.lexeme) {
                at += skip;
                col += skip;
            }
        }
        if !src[at..].starts_with(&t.lexeme) {
            let was: String = src[at..].chars().take(60).collect();
            return Verdict::fail(format!("{kind} does not spell the source"), format!("token {n} is {t:?} where the source goes on with {was:?}\n--- source\n{src}"));
        }
        if t.line != line {
            return Verdict::fail(format!("{kind} line"), format!("token {n}, {t:?}, is in line {line}\n--- source\n{src}"));
        }
        if (t.startcol, t.endcol) != (col, col + t.lexeme.len() - 1) {
            return Verdict::fail(format!("{kind} column"), format!("token {n}, {t:?}, is at column {col}\n--- source\n{src}"));
        }
        at += t.lexeme.len();
        if kind == "DescriptionListMarker" && t.lexeme.ends_with('\n') {
            // the term and the line below it are taken for one line
            col += t.lexeme.len();
            continue;
        }
        if tag {
            match src[at..].find('\n') {
                Some(n) => {
                    at += n + 1;
                    line += 1;
                    col = 1;
                }
                None => at = src.len(),
            }
            continue;
        }
        for c in t.lexeme.chars() {
            if c == '\n' {
                line += 1;
                col = 1;
            } else {
                col += c.len_utf8();
            }
        }
    }
    if at != src.len() {
        return Verdict::fail("source left over", format!("no token for {:?}\n--- source\n{src}", &src[at..]));
    }
    Verdict::ok(tokens.len() > 3).labels(tokens.iter().map(|t| format!("{:?}", t.token_type)).collect::<std::collections::BTreeSet<_>>())
}
