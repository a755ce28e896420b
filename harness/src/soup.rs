//! Arbitrary-text generators: markup soup, mutated documents, raw unicode.
use crate::blocks::*;
use crate::doc::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub const FRAGS: &[&str] = &[
    "\n", "\n\n", "\n\n\n", " ", "  ", "a", "word", "hello there", "x", "Z", "é", "ß漢", "🦀", "“q”", "\u{a0}", "…",
    "*", "**", "_", "__", "`", "``", "#", "##", "+", "++", "^", "~", "'", "\"", "\"`", "`\"", "'`", "`'", "'s ",
    "= ", "== ", "=== ", "==== ", "===== ", "====== ", "=", "==", "=>", "->", "<-", "<=", "--", "---", "...", "..",
    ".", ".Title\n", ". ", "* ", "** ", "- ", "term:: ", "::", ":: ", "::\n", ":", ":foo: bar\n", ":foo:\n", ":foo", ":!foo:\n",
    ":leveloffset: 1\n", ":leveloffset: +1\n", ":leveloffset: -1\n", ":leveloffset: x\n", ":icons: true\n",
    "{foo}", "{", "}", "{bar}", "{foo", "&", "&amp;", "&plus;", "&sect;", "&euro;", "&yen;", "&hellip;", "&#167;", "&a", ";",
    "----\n", "----", "****\n", "____\n", "====\n", "....\n", "++++\n", "////\n", "--\n", "'''\n", "<<<\n", "|===\n", "|===",
    "|", "|a ", "|a\n", "|é ", "|a |b\n", "[", "]", "[[", "]]", "[[id]]\n", "[[id]]", "[#id]\n", "[.role]\n", "[.role]", "[.role]#x#",
    "[quote]\n", "[quote, A, B]\n", "[quote,a,b,c,d]\n", "[verse, A, B]\n", "[source,rust]\n", "[NOTE]\n", "[TIP]\n", "[cols=\"1,2\"]\n", "[cols=\"3*\"]\n",
    "[options=\"header\"]\n", "[%header]\n", "[role=\"r\"]\n", "[a=\"b", "[x=\"]\n", "[abstract]\n", "[]\n", "[,]\n",
    "NOTE: ", "TIP: ", "IMPORTANT: ", "CAUTION: ", "WARNING: ", "NOTE:", "N", "T", "I", "C", "W",
    "footnote:[", "footnote:[a note]", "pass:[", "pass:[<b>]", "image::i.png[]\n", "image::i.png[", "image:i.png[]", "image:", "image::",
    "http://x.com", "http://x.com[", "http://x.com[t]", "https://é.com", "http", "link:x[y]", "<<id>>", "<<id", "<<", ">>", "<<id,text>>",
    "<1>", "<1>\n", "<1> ", "<12", "<", ">", "(C)", "(R)", "(TM)", "(", ")", "(C", "+\n", " +\n",
    "//", "// comment\n", "//// x\n", "// tag::x[]\n", "// end::x[]\n", "tag::x[]", "end::x[]", "tag::", "end::", "<!-- end::x[] -->\n",
    "include::nope.adoc[]\n", "include::", "\r\n", "\t", "\0", "\\", "$$", "%", "!", ",",
];

pub fn soup(max: usize) -> impl Strategy<Value = String> {
    vec(prop_oneof![12 => proptest::sample::select(FRAGS).prop_map(|s| s.to_string()), 1 => any::<char>().prop_map(|c| c.to_string())], 0..max)
        .prop_map(|v| v.concat())
}

/// A change to a text, at places given as parts of it
#[derive(Clone, Debug)]
enum Damage {
    Cut(f64, usize),
    Insert(f64, String),
    DropLine(f64),
    RepeatLine(f64),
    SwapLines(f64, f64),
    JoinLine(f64),
    SplitLine(f64),
    Truncate(f64),
    MoveText(f64, usize, f64),
}

fn floor(s: &str, p: f64) -> usize {
    let mut i = (p * (s.len() + 1) as f64) as usize;
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn ahead(s: &str, i: usize, n: usize) -> usize {
    s[i..].char_indices().nth(n).map_or(s.len(), |(k, _)| i + k)
}

fn damage(s: &mut String, d: &Damage) {
    let pick = |n: usize, p: f64| ((p * n as f64) as usize).min(n.saturating_sub(1));
    match d {
        Damage::Cut(p, n) => {
            let i = floor(s, *p);
            let j = ahead(s, i, *n);
            s.replace_range(i..j, "");
        }
        Damage::Insert(p, t) => s.insert_str(floor(s, *p), t),
        Damage::Truncate(p) => s.truncate(floor(s, *p)),
        Damage::SplitLine(p) => s.insert(floor(s, *p), '\n'),
        Damage::MoveText(p, n, q) => {
            let i = floor(s, *p);
            let j = ahead(s, i, *n);
            let t = s[i..j].to_string();
            s.replace_range(i..j, "");
            s.insert_str(floor(s, *q), &t);
        }
        _ => {
            let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
            match d {
                Damage::DropLine(p) => {
                    l.remove(pick(l.len(), *p));
                }
                Damage::RepeatLine(p) => {
                    let k = pick(l.len(), *p);
                    l.insert(k, l[k].clone());
                }
                Damage::SwapLines(p, q) => {
                    let (a, b) = (pick(l.len(), *p), pick(l.len(), *q));
                    l.swap(a, b);
                }
                Damage::JoinLine(p) if l.len() > 1 => {
                    let k = pick(l.len() - 1, *p);
                    let t = l.remove(k + 1);
                    l[k].push_str(&t);
                }
                _ => {}
            }
            *s = l.join("\n");
        }
    }
}

/// Documents with something wrong in a few places
pub fn damaged() -> BoxedStrategy<String> {
    let c = Bcfg { text: Icfg::rich(), max: 3, ..Bcfg::all() };
    let p = || 0.0..1.0f64;
    let change = prop_oneof![
        3 => (p(), 1usize..6).prop_map(|(p, n)| Damage::Cut(p, n)),
        4 => (p(), proptest::sample::select(FRAGS)).prop_map(|(p, t)| Damage::Insert(p, t.to_string())),
        1 => (p(), any::<char>()).prop_map(|(p, t)| Damage::Insert(p, t.to_string())),
        2 => p().prop_map(Damage::DropLine),
        1 => p().prop_map(Damage::RepeatLine),
        2 => (p(), p()).prop_map(|(p, q)| Damage::SwapLines(p, q)),
        2 => p().prop_map(Damage::JoinLine),
        2 => p().prop_map(Damage::SplitLine),
        1 => p().prop_map(Damage::Truncate),
        2 => (p(), 1usize..20, p()).prop_map(|(p, n, q)| Damage::MoveText(p, n, q)),
    ];
    (document(&c, 2), vec(change, 1..5))
        .prop_map(|(d, changes)| {
            let mut w = W::new();
            w.doc(&d);
            let mut s = w.s;
            changes.iter().for_each(|c| damage(&mut s, c));
            s
        })
        .boxed()
}

/// The same few marks over and over, nested blocks and lists included
pub fn deep() -> BoxedStrategy<String> {
    let few = vec(proptest::sample::select(FRAGS), 1..4);
    (few, 5usize..60, proptest::sample::select(FRAGS), proptest::sample::select(FRAGS))
        .prop_map(|(f, n, a, b)| format!("{a}{}{b}", f.concat().repeat(n)))
        .boxed()
}

/// Any characters at all
pub fn raw() -> BoxedStrategy<String> {
    prop_oneof![vec(any::<char>(), 0..60).prop_map(|v| v.into_iter().collect::<String>()), "[ -~\n]{0,80}", "[*_`#+^~=\\[\\]<>|:.{}&'\"/\\- \na]{0,40}"].boxed()
}
