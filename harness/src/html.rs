//! A small, forgiving HTML reader, and comparison of what it reads.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    El { tag: String, attrs: BTreeMap<String, String>, kids: Vec<Node> },
    Text(String),
}

const VOID: &[&str] = &["br", "hr", "img", "meta", "link"];
const INLINE: &[&str] = &["strong", "em", "code", "span", "sup", "sub", "a", "img", "br", "b", "i"];

pub fn el(tag: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node {
    Node::El { tag: tag.into(), attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), kids }
}

pub fn txt(s: &str) -> Node {
    Node::Text(s.into())
}

enum Tok {
    Open(String, BTreeMap<String, String>, bool),
    Close(String),
    Text(String),
}

fn tag(s: &str) -> Option<(Tok, usize)> {
    // s starts with '<'
    let b: Vec<char> = s.chars().collect();
    if s.starts_with("<!") {
        let e = s.find('>')?;
        return Some((Tok::Text(String::new()), e + 1));
    }
    let mut i = 1;
    let close = b.get(1) == Some(&'/');
    if close {
        i += 1;
    }
    let from = i;
    while b.get(i).is_some_and(|c| c.is_ascii_alphanumeric() || *c == '-') {
        i += 1;
    }
    if i == from || !b[from].is_ascii_alphabetic() {
        return None;
    }
    let name: String = b[from..i].iter().collect::<String>().to_lowercase();
    let mut attrs = BTreeMap::new();
    let mut own = false;
    loop {
        while b.get(i).is_some_and(|c| c.is_whitespace()) {
            i += 1;
        }
        match b.get(i)? {
            '>' => {
                i += 1;
                break;
            }
            '/' => {
                own = true;
                i += 1;
            }
            _ => {
                let k0 = i;
                while b.get(i).is_some_and(|c| !c.is_whitespace() && !['=', '>', '/', '"', '<'].contains(c)) {
                    i += 1;
                }
                if k0 == i {
                    return None;
                }
                let k: String = b[k0..i].iter().collect();
                let mut v = String::new();
                if b.get(i) == Some(&'=') {
                    i += 1;
                    let q = *b.get(i)?;
                    if q != '"' && q != '\'' {
                        return None;
                    }
                    i += 1;
                    let v0 = i;
                    while *b.get(i)? != q {
                        i += 1;
                    }
                    v = b[v0..i].iter().collect();
                    i += 1;
                }
                attrs.insert(k.to_lowercase(), v);
            }
        }
    }
    let len = b[..i].iter().map(|c| c.len_utf8()).sum();
    Some((if close { Tok::Close(name) } else { Tok::Open(name.clone(), attrs, own || VOID.contains(&name.as_str())) }, len))
}

/// Reads HTML; `Err` if elements are not properly nested and closed.
pub fn read(s: &str) -> Result<Vec<Node>, String> {
    let mut stack: Vec<(String, BTreeMap<String, String>, Vec<Node>)> = vec![("".into(), BTreeMap::new(), vec![])];
    let mut rest = s;
    let mut toks = vec![];
    let mut text = String::new();
    while !rest.is_empty() {
        if rest.starts_with('<') {
            if let Some((t, n)) = tag(rest) {
                if !text.is_empty() {
                    toks.push(Tok::Text(std::mem::take(&mut text)));
                }
                toks.push(t);
                rest = &rest[n..];
                continue;
            }
        }
        let c = rest.chars().next().unwrap();
        text.push(c);
        rest = &rest[c.len_utf8()..];
    }
    if !text.is_empty() {
        toks.push(Tok::Text(text));
    }
    for t in toks {
        match t {
            Tok::Text(t) => stack.last_mut().unwrap().2.push(Node::Text(t)),
            Tok::Open(n, a, true) => stack.last_mut().unwrap().2.push(Node::El { tag: n, attrs: a, kids: vec![] }),
            Tok::Open(n, a, false) => stack.push((n, a, vec![])),
            Tok::Close(n) => {
                let (tag, attrs, kids) = stack.pop().unwrap();
                if tag != n || stack.is_empty() {
                    return Err(format!("</{n}> closes <{tag}>"));
                }
                stack.last_mut().unwrap().2.push(Node::El { tag, attrs, kids });
            }
        }
    }
    if stack.len() > 1 {
        return Err(format!("<{}> is never closed", stack.last().unwrap().0));
    }
    Ok(stack.pop().unwrap().2)
}

fn inline(n: &Node) -> bool {
    match n {
        Node::Text(_) => true,
        Node::El { tag, .. } => INLINE.contains(&tag.as_str()),
    }
}

/// Whitespace as a browser would treat it
pub fn tidy(nodes: Vec<Node>, pre: bool) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in nodes {
        match n {
            Node::Text(t) => {
                if let Some(Node::Text(p)) = out.last_mut() {
                    p.push_str(&t);
                } else {
                    out.push(Node::Text(t));
                }
            }
            Node::El { tag, mut attrs, kids } => {
                let p = pre || tag == "pre";
                if let Some(c) = attrs.get_mut("class") {
                    *c = c.split_whitespace().collect::<Vec<_>>().join(" ");
                }
                let mut kids = tidy(kids, p);
                if tag == "pre" {
                    if let Some(Node::Text(t)) = kids.first_mut() {
                        *t = t.trim_start_matches('\n').into();
                    }
                    if let Some(Node::Text(t)) = kids.last_mut() {
                        *t = t.trim_end_matches(['\n', ' ']).into();
                    }
                    kids.retain(|k| *k != Node::Text(String::new()));
                } else if !p && !INLINE.contains(&tag.as_str()) {
                    kids = edges(kids);
                }
                out.push(Node::El { tag, attrs, kids });
            }
        }
    }
    if !pre {
        for n in out.iter_mut() {
            if let Node::Text(t) = n {
                let mut s = String::new();
                for c in t.chars() {
                    let c = if c.is_ascii_whitespace() { ' ' } else { c };
                    if c != ' ' || !s.ends_with(' ') {
                        s.push(c);
                    }
                }
                *t = s;
            }
        }
    }
    out.retain(|n| *n != Node::Text(String::new()));
    out
}

/// drops whitespace next to block elements
fn edges(kids: Vec<Node>) -> Vec<Node> {
    let n = kids.len();
    let blocky: Vec<bool> = kids.iter().map(|k| !inline(k)).collect();
    kids.into_iter()
        .enumerate()
        .map(|(i, k)| match k {
            Node::Text(t) => {
                let mut s = t.as_str();
                if i == 0 || blocky[i - 1] {
                    s = s.trim_start_matches(' ');
                }
                if i + 1 == n || blocky[i + 1] {
                    s = s.trim_end_matches(' ');
                }
                Node::Text(s.into())
            }
            k => k,
        })
        .filter(|k| *k != Node::Text(String::new()))
        .collect()
}

/// the first difference
pub fn diff(e: &[Node], a: &[Node], path: &str) -> Option<(String, String)> {
    for i in 0..e.len().max(a.len()) {
        match (e.get(i), a.get(i)) {
            (Some(Node::Text(x)), Some(Node::Text(y))) => {
                if x != y {
                    return Some((format!("text in {}", last(path)), format!("in {path}: expected text {x:?} but got {y:?}")));
                }
            }
            (Some(Node::El { tag: t, attrs: x, kids: k }), Some(Node::El { tag: u, attrs: y, kids: l })) => {
                if t != u {
                    return Some((format!("{u} where {t} expected"), format!("in {path}: expected <{t}> but got <{u}>")));
                }
                if x != y {
                    return Some((format!("attributes of {t}"), format!("in {path}: expected <{t}> with {x:?} but got {y:?}")));
                }
                if let Some(d) = diff(k, l, &format!("{path}/{t}")) {
                    return Some(d);
                }
            }
            (Some(x), y) => return Some((format!("{} missing in {}", kind(x), last(path)), format!("in {path}: expected {} but got {}", show(Some(x)), show(y)))),
            (None, y) => return Some((format!("{} too many in {}", kind(y.unwrap()), last(path)), format!("in {path}: did not expect {}", show(y)))),
        }
    }
    None
}

fn last(p: &str) -> &str {
    p.rsplit('/').next().unwrap()
}

fn kind(n: &Node) -> String {
    match n {
        Node::Text(_) => "text".into(),
        Node::El { tag, .. } => tag.clone(),
    }
}

fn show(n: Option<&Node>) -> String {
    match n {
        None => "nothing".into(),
        Some(Node::Text(t)) => format!("text {t:?}"),
        Some(n) => format!("{n:?}").chars().take(300).collect(),
    }
}
