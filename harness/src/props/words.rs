//! C03: parsing neither loses, repeats nor moves words.
use crate::engine::*;
use crate::sut;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::Value;

/// what may stand between words: `§` is where a word is
const FRAGS: &[&str] = &[
    "\n", "\n", "\n\n", "\n\n", " ", " ", "*", "**", "_", "__", "`", "``", "#", "##", "+", "++", "^", "~", "'", "\"", "\"`", "`\"",
    "'`", "`'", "\n* ", "\n. ", "\n* §", "\n. §", "\n\n* §", "\n\n. §", "\n\n§:: ", "\n\n§::\n", "\n\n§:: §\n§:: ", "\n\n§:: §\n§\n§:: §\n", "\n<1> §", "\n+\n", " +\n", "\n:at: v\n", "\n- §", "\n** §", "\n=== §\n", "\n'''\n", "\n<<<\n", "\nimage::i.png[]\n", "\n\n== §\n", "\n== §\n\n", "\n\n=== §\n\n", "\n\n==== §\n\n",
    "\n\n===== §\n\n", "\n\nNOTE: §", "\n\nTIP: §", "\n\nIMPORTANT: ", "\n\n****\n", "\n\n====\n", "\n\n____\n", "\n\n--\n", "\n****\n", "\n====\n", "\n____\n", "\n--\n",
    "\n****\n\n", "\n====\n\n", "\n____\n\n", "\n--\n\n", "\n----\n", "\n----\n\n", "\n....\n", "\n++++\n", "\n\n'''\n\n", "\n\n<<<\n\n", "\n|===\n", "\n|===\n\n", "\n|", "|", "|§ |§\n", "(", ")", "{", "}", "{§}", "§",
    "footnote:[", "footnote:[§]", "]", "http://x.com[", "http://x.com[§]", "http://x.com", "<<id>>", "&amp;", "&", "(C)", "--", "->", "...", "'s ", "§.", ",", " : ", ";", "!", "[.r]#", "[.r]#§#",
    "*§*", "_§_", "`§`", "**§**", "§**§**", "__§__", "#§#", "^§^", "~§~", "+§+", "\"`§`\"", "[[anchor]]\n", "\n[[anchor]]\n", "\n[role=r]\n", "\n[quote]\n", "\n[verse]\n", "\n[NOTE]\n", "\n// c\n", "\n\n////\nc\n////\n\n",
    "pass:[", "pass:[§]", "image:i.png[]", "\n\nimage::i.png[]\n\n", "é", "漢", "🦀", "\t", "\\", "=", "==", "%", "@", "$",
];

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "the parser accepts the text and it has at least three words",
        assumptions: &["words are made up of letters and digits, each occurring once in a text"],
        parts: vec![
            Part { name: "short", quick: 80000, thorough: 800000, strategy: || typed(vec(frag(), 1..9)), eval },
            Part { name: "long", quick: 30000, thorough: 200000, strategy: || typed(vec(frag(), 5..30)), eval },
        ],
        known_inputs: no_known,
    }
}

fn frag() -> BoxedStrategy<String> {
    prop_oneof![3 => Just("§".to_string()), 1 => Just(" ".to_string()), 8 => proptest::sample::select(FRAGS).prop_map(|s| s.to_string())].boxed()
}

/// all text of a tree in document order
pub fn texts(v: &Value, out: &mut String) {
    match v {
        Value::Object(o) => {
            if matches!(v["name"].as_str(), Some("text") | Some("charref")) {
                out.push_str(v["value"].as_str().unwrap_or(""));
                return;
            }
            if v["variant"] == "link" {
                // the url is as much a part of the text as its description
                out.push_str(v["target"].as_str().unwrap_or(""));
            }
            if v["type"] == "block" || v["name"] == "tableCell" {
                out.push('\n');
            }
            for k in ["header", "title", "caption", "terms", "principal", "inlines", "items", "blocks"] {
                if let Some(x) = o.get(k) {
                    if k != "inlines" {
                        out.push('\n');
                    }
                    texts(x, out);
                    if k != "inlines" {
                        out.push('\n');
                    }
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|x| texts(x, out)),
        _ => {}
    }
}

fn eval(v: &Value) -> Verdict {
    let frags: Vec<String> = serde_json::from_value(v.clone()).expect("case");
    let mut n = 0;
    let mut src = String::new();
    for c in frags.concat().chars() {
        if c == '§' {
            src.push_str(&format!("w{n}q"));
            n += 1;
        } else {
            src.push(c);
        }
    }
    // a line like that is (or could be) block metadata, not text
    let src: Vec<String> = src
        .split('\n')
        .map(|l| if l.starts_with('[') && l.ends_with(']') && l.contains('w') { format!("{l} z") } else { l.to_string() })
        .collect();
    check(&src.join("\n"), n)
}

/// marked words in order
fn marked(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'w' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > i + 1 && j < b.len() && b[j] == b'q' {
                out.push(s[i..=j].to_string());
                i = j;
            }
        }
        i += 1;
    }
    out
}

fn check(src: &str, n: usize) -> Verdict {
    let asg = match sut::parse(src) {
        Ok(a) => a,
        Err(sut::Fault::Err(_)) => return Verdict::ok(false).label("rejected"),
        Err(f) => return Verdict::fail("panic", format!("{f}\n--- source\n{src}")),
    };
    let j = match sut::json(&asg) {
        Ok(j) => j,
        Err(f) => return Verdict::fail("json", f.to_string()),
    };
    let mut all = String::new();
    texts(&j, &mut all);
    let want = marked(src);
    let got = marked(&all);
    if want == got {
        for pair in want.windows(2) {
            let between = |text: &str| -> String {
                let start = text.find(&pair[0]).unwrap() + pair[0].len();
                text[start..text.find(&pair[1]).unwrap()].to_string()
            };
            if between(&all).is_empty() && between(src).contains(char::is_whitespace) {
                return Verdict::fail("words run together", format!("{} and {} aren't apart any more\n--- source\n{src}", pair[0], pair[1]));
            }
        }
        return Verdict::ok(n >= 3).label("accepted");
    }
    let sig = if got.len() < want.len() {
        "word lost"
    } else if got.len() > want.len() {
        "word repeated"
    } else {
        "words moved"
    };
    Verdict::fail(sig, format!("words of the source: {want:?}\nwords of the result: {got:?}\n--- source\n{src}"))
}
