//! Properties of documents made up of several files, decided in a scratch directory.
use super::model::kinds;
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use crate::sut;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeSet;
use std::path::PathBuf;

/// A directory for the files of one case, removed when it goes out of scope
pub struct Dir(PathBuf);

impl Dir {
    pub fn new() -> Dir {
        let d = scratch_root().join(format!("files-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).unwrap_or_else(|e| die(&format!("scratch: {e}")));
        Dir(d)
    }

    pub fn path(&self) -> &std::path::Path {
        &self.0
    }

    pub fn write(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).unwrap_or_else(|e| die(&format!("scratch: {e}")));
        }
        std::fs::write(&p, text).unwrap_or_else(|e| die(&format!("scratch: {e}")));
    }

    fn parse(&self, src: &str, resolve: bool) -> Result<Value, sut::Fault> {
        sut::parse_at(src, &self.0.join("main.adoc"), resolve).and_then(|a| sut::json(&a))
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn show(files: &[(String, String)]) -> String {
    files.iter().map(|(n, t)| format!("--- {n}\n{t}\n")).collect()
}

fn names(v: &Value) -> BTreeSet<String> {
    let mut k = BTreeSet::new();
    kinds(v, &mut k);
    k
}

const DIRS: [&str; 4] = ["", "a", "a/b", "c.d"];

/// a path from one directory to a file in another
fn relative(from: &str, to: &str, name: &str) -> String {
    let parts = |d: &str| -> Vec<String> { d.split('/').filter(|p| !p.is_empty()).map(String::from).collect() };
    let (f, t) = (parts(from), parts(to));
    let same = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut out = "../".repeat(f.len() - same);
    for p in &t[same..] {
        out.push_str(&format!("{p}/"));
    }
    out + name
}

fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() { name.to_string() } else { format!("{dir}/{name}") }
}

// ---------------------------------------------------------------- includes

/// What goes into a file of its own, as a part of what is left by the cuts before it
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    skip: f64,
    take: f64,
    dir: usize,
    ext: usize,
    trail: u8,
    cuts: Vec<Cut>,
}

fn cuts(depth: u32) -> BoxedStrategy<Vec<Cut>> {
    let inner = if depth > 1 { prop_oneof![1 => Just(vec![]), 2 => cuts(depth - 1)].boxed() } else { Just(vec![]).boxed() };
    vec(
        (0.0..0.6f64, 0.0..1.0f64, 0..DIRS.len(), 0..3usize, 0u8..3, inner).prop_map(|(skip, take, dir, ext, trail, cuts)| Cut { skip, take, dir, ext, trail, cuts }),
        1..3,
    )
    .boxed()
}

/// part of a document, with what is ahead of it
struct Entry {
    lead: String,
    text: String,
    level: Option<usize>,
}

#[derive(Default)]
struct Split {
    files: Vec<(String, String)>,
    /// where the lines of the whole document went: the includes that lead there, and the line
    lines: Vec<(Vec<String>, usize)>,
    depth: usize,
}

impl Split {
    /// the text of a file made up of these parts
    fn file(&mut self, entries: &[Entry], cuts: &[Cut], dir: &str, stack: &[String]) -> String {
        let mut out = String::new();
        let mut i = 0;
        for c in cuts {
            let left = entries.len() - i;
            if left == 0 {
                break;
            }
            let from = i + (c.skip * left as f64) as usize;
            let mut to = from + 1 + (c.take * (entries.len() - from) as f64) as usize;
            to = to.min(entries.len());
            // sections that an included file opens don't go on after it
            let top = |to: usize| entries[from..to].iter().filter_map(|e| e.level).min();
            while to < entries.len() && top(to).is_some_and(|m| entries[to].level.is_none_or(|l| l > m)) {
                to += 1;
            }
            entries[i..from].iter().for_each(|e| self.own(e, &mut out, stack));
            let name = format!("f{}.{}", self.files.len(), ["adoc", "asciidoc", "txt"][c.ext]);
            let target = relative(dir, DIRS[c.dir], &name);
            let mut deeper = stack.to_vec();
            deeper.push(target.clone());
            self.depth = self.depth.max(deeper.len());
            let lead = entries[from].lead.clone();
            out.push_str(&lead);
            self.skip(&lead);
            out.push_str(&format!("include::{target}[]"));
            let slot = self.files.len();
            self.files.push((join(DIRS[c.dir], &name), String::new()));
            let inner: Vec<Entry> = entries[from..to]
                .iter()
                .enumerate()
                .map(|(k, e)| Entry { lead: if k == 0 { String::new() } else { e.lead.clone() }, text: e.text.clone(), level: e.level })
                .collect();
            let text = self.file(&inner, &c.cuts, DIRS[c.dir], &deeper);
            self.files[slot].1 = text + &"\n".repeat(c.trail as usize);
            i = to;
        }
        entries[i..].iter().for_each(|e| self.own(e, &mut out, stack));
        out
    }

    /// lines ahead of what comes next aren't anything
    fn skip(&mut self, lead: &str) {
        for _ in 0..lead.matches('\n').count().saturating_sub(1) {
            self.lines.push((vec![], 0));
        }
    }

    fn own(&mut self, e: &Entry, out: &mut String, stack: &[String]) {
        out.push_str(&e.lead);
        self.skip(&e.lead);
        let first = out.matches('\n').count() + 1;
        out.push_str(&e.text);
        for k in 0..=e.text.matches('\n').count() {
            self.lines.push((stack.to_vec(), first + k));
        }
    }
}

/// locations of everything that is in a single file
fn leaves(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Object(o) => {
            if v["name"].is_string() && !matches!(v["name"].as_str(), Some("document" | "section")) {
                out.push(v["location"].clone());
            }
            o.values().for_each(|x| leaves(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        _ => {}
    }
}

/// A document divided into files has the same contents
pub fn eval_split(v: &Value) -> Verdict {
    let (d, extra, cuts): (Doc, Vec<(f64, u8)>, Vec<Cut>) = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.doc(&d);
    let src = w.s;
    if w.flat.is_empty() {
        return Verdict::ok(false).label("nothing to divide");
    }
    let mut entries: Vec<Entry> = vec![];
    let mut at = 0;
    for (a, b, level) in &w.flat {
        entries.push(Entry { lead: src[at..*a].to_string(), text: src[*a..*b].to_string(), level: *level });
        at = *b;
    }
    let tail = src[at..].to_string();
    // the part ahead of the first block is the header, if anything, and stays where it is
    let header = entries.first_mut().map(|e| std::mem::take(&mut e.lead)).unwrap_or_default();
    for (k, (p, what)) in extra.iter().enumerate() {
        let at = 1 + (p * entries.len() as f64) as usize;
        let text = if what % 2 == 0 { format!(":v{}: value {k}", what / 2) } else { format!("now {{v{}}}.", what / 2) };
        entries.insert(at.min(entries.len()), Entry { lead: "\n\n".into(), text, level: None });
    }
    let whole = header.clone() + &entries.iter().map(|e| format!("{}{}", e.lead, e.text)).collect::<String>() + &tail;
    let mut sp = Split::default();
    if let Some(e) = entries.first_mut() {
        e.lead = header;
    }
    // (the header's lines are in the main file anyway)
    let head = entries.first().map(|e| e.lead.matches('\n').count() + 1).unwrap_or(1);
    let main = sp.file(&entries, &cuts, "", &[]) + &tail;
    let mut lines: Vec<(Vec<String>, usize)> = (1..head).map(|n| (vec![], n)).collect();
    let skipped = entries.first().map(|e| e.lead.matches('\n').count().saturating_sub(1)).unwrap_or(0);
    lines.extend(sp.lines.iter().skip(skipped).cloned());
    let dir = Dir::new();
    sp.files.iter().for_each(|(n, t)| dir.write(n, t));
    let (a, b) = match (dir.parse(&whole, false), dir.parse(&main, false)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(_), _) => return Verdict::ok(false).label("not accepted"),
        (Ok(_), Err(f)) => return Verdict::fail("outcome", format!("{f}\n--- whole\n{whole}\n--- main\n{main}\n{}", show(&sp.files))),
    };
    let parts = || format!("--- whole\n{whole}\n--- main\n{main}\n{}", show(&sp.files));
    if let Some((s, m)) = diff(&strip(&a, &["location"]), &strip(&b, &["location"])) {
        return Verdict::fail(s, format!("{m}\n{}", parts()));
    }
    let (mut la, mut lb) = (vec![], vec![]);
    leaves(&a, &mut la);
    leaves(&b, &mut lb);
    for (x, y) in la.iter().zip(&lb) {
        for (p, q) in x.as_array().into_iter().flatten().zip(y.as_array().into_iter().flatten()) {
            let n = p["line"].as_u64().unwrap_or(0) as usize;
            let Some((stack, line)) = lines.get(n.wrapping_sub(1)) else { die("line of no file") };
            let mut want = json!({"line": line, "col": p["col"]});
            if !stack.is_empty() {
                want["file"] = json!(stack);
            }
            if *q != want {
                return Verdict::fail("position", format!("{p} of the whole document is at {want} in its file, but reported at {q}\n{}", parts()));
            }
        }
    }
    Verdict::ok(!sp.files.is_empty()).labels(names(&a)).label(format!("depth {}", sp.depth))
}

/// Blocks included inside of other blocks
fn eval_inside(v: &Value) -> Verdict {
    let (kind, dir, d): (usize, usize, Doc) = serde_json::from_value(v.clone()).expect("case");
    let mut w = W::new();
    w.doc(&d);
    let text = w.s.trim_matches('\n').to_string();
    let around = |x: &str| match kind {
        0 => format!("====\n{x}\n====\n"),
        1 => format!("****\nbefore\n\n{x}\n\nafter\n****\n"),
        2 => format!("--\nbefore\n\n====\n\n{x}\n====\n\nafter\n--\n\nend\n"),
        3 => format!("* item\n+\n{x}\n\nend\n"),
        4 => format!(". one\n. two\n+\n{x}\n. three\n"),
        5 => format!("[quote, someone]\n____\n{x}\n____\n"),
        6 => format!("== Section\n\n[NOTE]\n--\n{x}\n--\n\nend\n\n== Next\n"),
        _ => format!("a:: b\nc:: d\n+\n{x}\n\nend\n"),
    };
    let files = vec![(join(DIRS[dir], "part.adoc"), format!("{text}\n"))];
    let s = Dir::new();
    files.iter().for_each(|(n, t)| s.write(n, t));
    let (whole, main) = (around(&text), around(&format!("include::{}[]", files[0].0)));
    let shown = || format!("--- whole\n{whole}\n--- main\n{main}\n{}", show(&files));
    match (s.parse(&whole, false), s.parse(&main, false)) {
        (Err(_), _) => Verdict::ok(false).label("not accepted"),
        (Ok(_), Err(f)) => Verdict::fail("outcome", format!("{f}\n{}", shown())),
        (Ok(a), Ok(b)) => match diff(&strip(&a, &["location"]), &strip(&b, &["location"])) {
            Some((s, m)) => Verdict::fail(s, format!("{m}\n{}", shown())),
            None => Verdict::ok(!text.is_empty()).labels(names(&a)).label(format!("inside {kind}")),
        },
    }
}

/// Blocks to include in one of the surroundings above
fn inside() -> BoxedStrategy<Value> {
    let c = || Bcfg { parent: 0, adm_block: 0, quote: 0, verse: 0, depth: 1, max: 3, ..Bcfg::all() };
    let single = || Bcfg { list: 0, dlist: 0, callouts: 0, comment: 0, comment_block: 0, max: 1, ..c() };
    let doc = |b: B| Doc { title: None, attrs: vec![], blocks: vec![b], secs: vec![], trail: 0 };
    let many = (prop_oneof![0..3usize, 5..7usize], 0..DIRS.len(), document(&c(), 0)).prop_map(|(k, dir, mut d)| {
        d.title = None;
        d.attrs.clear();
        (k, dir, d)
    });
    let one = (prop_oneof![3..5usize, Just(7usize)], 0..DIRS.len(), block(&single())).prop_map(move |(k, dir, b)| (k, dir, doc(b)));
    typed(prop_oneof![many, one])
}

pub fn split(c: Bcfg, secs: usize) -> BoxedStrategy<Value> {
    typed((document(&c, secs), vec((0.0..1.0f64, 0u8..6), 0..4), cuts(3)))
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "some part of the document is in a file of its own",
        assumptions: &[],
        parts: vec![
            Part { name: "blocks", quick: 8000, thorough: 120000, strategy: || split(Bcfg { max: 5, ..Bcfg::all() }, 0), eval: eval_split },
            Part { name: "sections", quick: 8000, thorough: 120000, strategy: || split(Bcfg { text: Icfg::rich(), max: 2, ..Bcfg::all() }, 3), eval: eval_split },
            Part { name: "inside", quick: 8000, thorough: 120000, strategy: inside, eval: eval_inside },
        ],
        known_inputs: no_known,
    }
}

// -------------------------------------------------------------- selections

const TAGS: [&str; 5] = ["a", "b", "snip-1", "other_tag", "x.y"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    Line(String),
    Blank,
    Region { tag: usize, style: u8, indent: u8, items: Vec<Item> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Range {
    Line(usize),
    Lines(usize, usize),
    From(usize),
    /// written out as reaching up to line -1
    ToEnd(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pick {
    All,
    Lines(bool, Vec<Range>),
    Tag(usize),
    Tags(Vec<usize>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Selection {
    items: Vec<Item>,
    pick: Pick,
    ext: usize,
    listing: bool,
    /// newlines at the end of the file
    trail: u8,
    dir: usize,
    /// lines ahead of the items
    ahead: usize,
    quoted: bool,
}

fn item(line: BoxedStrategy<String>, depth: u32) -> BoxedStrategy<Item> {
    let leaf = prop_oneof![6 => line.clone().prop_map(Item::Line), 1 => Just(Item::Blank)];
    if depth == 0 {
        return leaf.boxed();
    }
    let region = (0..TAGS.len(), 0u8..3, 0u8..3, vec(item(line, depth - 1), 0..5)).prop_map(|(tag, style, indent, items)| Item::Region { tag, style, indent, items });
    prop_oneof![3 => leaf, 2 => region].boxed()
}

fn pick() -> BoxedStrategy<Pick> {
    let n = || prop_oneof![12 => 1..16usize, 1 => 16..240usize];
    let range = prop_oneof![
        2 => n().prop_map(Range::Line),
        3 => (n(), prop_oneof![8 => 0..6usize, 1 => 6..120usize]).prop_map(|(a, l)| Range::Lines(a, a + l)),
        1 => n().prop_map(Range::From),
        1 => n().prop_map(Range::ToEnd),
    ];
    prop_oneof![
        1 => Just(Pick::All),
        4 => (any::<bool>(), vec(range, 1..4)).prop_map(|(comma, r)| Pick::Lines(comma, r)),
        3 => (0..TAGS.len()).prop_map(Pick::Tag),
        3 => vec(0..TAGS.len(), 1..4).prop_map(Pick::Tags),
    ]
    .boxed()
}

fn selections(listing: bool) -> BoxedStrategy<Value> {
    let line = if listing { verbatim_line() } else { "[a-z]{1,5}( [a-z]{1,5}){0,3}[.,]?".boxed() };
    typed(
        (vec(item(line, 3), 0..7), pick(), 0..6usize, 0u8..3, 0..DIRS.len(), prop_oneof![12 => Just(0), 1 => 80..220usize], any::<bool>())
            .prop_map(move |(items, pick, ext, trail, dir, ahead, quoted)| Selection { items, pick, ext, listing, trail, dir, ahead, quoted }),
    )
}

/// a line of a file, with the regions it's in; directives have no text
type Tagged = (Option<String>, Vec<usize>);

fn lay_out(items: &[Item], adoc: bool, open: &mut Vec<usize>, file: &mut Vec<String>, out: &mut Vec<Tagged>) {
    for i in items {
        match i {
            Item::Line(l) => {
                // lines are told apart by their number; the one below a description list marker has that of the marker
                let l = format!("{l}{}", if l.ends_with("::") { "." } else { "" });
                file.push(l.clone());
                out.push((Some(l), open.clone()));
            }
            Item::Blank => {
                file.push(String::new());
                out.push((Some(String::new()), open.clone()));
            }
            Item::Region { tag, .. } if open.contains(tag) => {}
            Item::Region { tag, style, indent, items } => {
                let (a, b) = if adoc { ("// ", "") } else { [("// ", ""), ("# ", ""), ("<!-- ", " -->")][*style as usize] };
                let pad = if adoc { String::new() } else { " ".repeat(*indent as usize) };
                file.push(format!("{pad}{a}tag::{}[]{b}", TAGS[*tag]));
                out.push((None, vec![]));
                open.push(*tag);
                lay_out(items, adoc, open, file, out);
                open.pop();
                file.push(format!("{pad}{a}end::{}[]{b}", TAGS[*tag]));
                out.push((None, vec![]));
            }
        }
    }
}

fn eval_selection(v: &Value) -> Verdict {
    let s: Selection = serde_json::from_value(v.clone()).expect("case");
    let ext = ["adoc", "txt", "asciidoc", "rs", "xml", "py"][s.ext];
    let (mut file, mut lines) = (vec![], vec![]);
    for n in 0..s.ahead {
        file.push(format!("ahead {n}"));
        lines.push((Some(format!("ahead {n}")), vec![]));
    }
    lay_out(&s.items, s.ext < 3, &mut vec![], &mut file, &mut lines);
    let q = |v: String| if s.quoted || v.contains(',') { format!("\"{v}\"") } else { v };
    let attr = match &s.pick {
        Pick::All => String::new(),
        Pick::Lines(comma, r) => {
            let r: Vec<String> = r
                .iter()
                .map(|r| match r {
                    Range::Line(a) => a.to_string(),
                    Range::Lines(a, b) => format!("{a}..{b}"),
                    Range::From(a) => format!("{a}.."),
                    Range::ToEnd(a) => format!("{a}..-1"),
                })
                .collect();
            format!("lines={}", q(r.join(if *comma { "," } else { ";" })))
        }
        Pick::Tag(t) => format!("tag={}", q(TAGS[*t].into())),
        Pick::Tags(t) => format!("tags={}", q(t.iter().map(|t| TAGS[*t]).collect::<Vec<_>>().join(if s.trail == 0 { "," } else { ";" }))),
    };
    let chosen = |n: usize, tags: &[usize]| match &s.pick {
        Pick::All => true,
        Pick::Lines(_, r) => r.iter().any(|r| match r {
            Range::Line(a) => n == *a,
            Range::Lines(a, b) => (*a..=*b).contains(&n),
            Range::From(a) | Range::ToEnd(a) => n >= *a,
        }),
        Pick::Tag(t) => tags.contains(t),
        Pick::Tags(t) => t.iter().any(|t| tags.contains(t)),
    };
    let want: Vec<&str> = lines.iter().enumerate().filter(|(n, (_, tags))| chosen(n + 1, tags)).filter_map(|(_, (t, _))| t.as_deref()).collect();
    let name = join(DIRS[s.dir], &format!("part.{ext}"));
    let text = file.join("\n") + &"\n".repeat(s.trail as usize);
    let main = if s.listing { format!("----\nbefore\ninclude::{name}[{attr}]\nafter\n----\n") } else { format!("before\n\ninclude::{name}[{attr}]\n\nafter\n") };
    let dir = Dir::new();
    dir.write(&name, &text);
    let shown = || format!("--- main\n{main}\n--- {name}\n{text}");
    let j = match dir.parse(&main, false) {
        Ok(j) => j,
        Err(f) => return Verdict::fail("outcome", format!("{f}\n{}", shown())),
    };
    let said = |b: &Value| -> String { b["inlines"].as_array().into_iter().flatten().map(|i| i["value"].as_str().unwrap_or("<not text>")).collect() };
    let blocks = j["blocks"].as_array().cloned().unwrap_or_default();
    let (got, exp): (Vec<String>, Vec<String>) = if s.listing {
        let t = blocks.first().map(said).unwrap_or_default();
        let inner = t.strip_prefix("\nbefore").and_then(|t| t.strip_suffix("after\n")).map(|t| t.trim_matches('\n').to_string());
        (vec![format!("{} block: {inner:?}", blocks.len())], vec![format!("1 block: {:?}", Some(want.join("\n").trim_matches('\n')))])
    } else {
        // (an empty paragraph doesn't say anything)
        let all: Vec<String> = blocks.iter().filter(|b| b["name"] != "paragraph" || !said(b).trim_matches('\n').is_empty()).map(|b| format!("{}: {:?}", b["name"].as_str().unwrap_or(""), said(b).trim_matches('\n'))).collect();
        let mut exp = vec!["before".to_string()];
        if s.ext < 3 {
            exp.extend(want.join("\n").split("\n\n").map(|p| p.trim_matches('\n').to_string()).filter(|p| !p.is_empty()));
        } else {
            // text that isn't AsciiDoc doesn't have any paragraphs
            exp.extend(Some(want.join("\n").trim_matches('\n').to_string()).filter(|p| !p.is_empty()));
        }
        exp.push("after".to_string());
        (all, exp.iter().map(|p| format!("paragraph: {p:?}")).collect())
    };
    if got != exp {
        return Verdict::fail("selection", format!("selected: {exp:#?}\nincluded: {got:#?}\n{}", shown()));
    }
    let total = lines.iter().filter(|l| l.0.is_some()).count();
    Verdict::ok(!want.is_empty() && want.len() < total)
        .label(match s.pick {
            Pick::All => "all",
            Pick::Lines(..) => "lines",
            Pick::Tag(_) => "tag",
            Pick::Tags(_) => "tags",
        })
        .label(if s.ext < 3 { "AsciiDoc" } else { "other file" })
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "some lines of the file are selected, and some are not",
        assumptions: &["no line of the file ends in a description list marker (the line below has the same number then)"],
        parts: vec![
            Part { name: "listing", quick: 32000, thorough: 250000, strategy: || selections(true), eval: eval_selection },
            Part { name: "paragraphs", quick: 32000, thorough: 250000, strategy: || selections(false), eval: eval_selection },
        ],
        known_inputs: no_known,
    }
}

// ------------------------------------------------------------------ images

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Named {
    Text,
    /// how it is named, where it is said to be, and its name
    Image(u8, usize, usize, u8),
    /// in which directory; without parts, there is no such file
    Include(usize, Option<Vec<Named>>),
}

const IMAGES: [&str; 3] = ["x.png", "y z.svg", "é"];

fn named(depth: u32) -> BoxedStrategy<Named> {
    let image = (0u8..20, 0..DIRS.len(), 0..IMAGES.len(), 0u8..6).prop_map(|(how, dir, name, path)| Named::Image(how, dir, name, path));
    if depth == 0 {
        return prop_oneof![1 => Just(Named::Text), 3 => image].boxed();
    }
    let include = (0..DIRS.len(), prop_oneof![12 => vec(named(depth - 1), 0..4).prop_map(Some), 1 => Just(None)]).prop_map(|(d, n)| Named::Include(d, n));
    prop_oneof![1 => Just(Named::Text), 4 => image, 3 => include].boxed()
}

struct Tree<'a> {
    root: &'a str,
    there: &'a [(usize, usize)],
    files: Vec<(String, String)>,
    targets: Vec<String>,
    missing_image: bool,
    missing_file: bool,
    included_image: bool,
}

impl Tree<'_> {
    fn write(&mut self, items: &[Named], dir: &str) -> String {
        let mut out = String::new();
        for i in items {
            match i {
                Named::Text => out.push_str("text\n\n"),
                Named::Image(how, d, n, path) => {
                    let target = match path {
                        0 => format!("{}/{}", self.root, join(DIRS[*d], IMAGES[*n])),
                        1 => format!("./{}", relative(dir, DIRS[*d], IMAGES[*n])),
                        2 => format!("http{}://no.example/{}", if *d == 0 { "" } else { "s" }, IMAGES[*n]),
                        _ => relative(dir, DIRS[*d], IMAGES[*n]),
                    };
                    let inline = format!("image:{target}[]");
                    out.push_str(&match how {
                        0..3 => format!("image::{target}[]"),
                        3 => format!(".Caption\nimage::{target}[alt text]"),
                        4 => format!("see {inline} here"),
                        5 => format!("* item {inline}\n* other"),
                        6 => format!("|===\n|cell {inline} |more\n|==="),
                        7 => format!("====\nimage::{target}[]\n===="),
                        8 => format!("* item\n+\nimage::{target}[]"),
                        9 => format!("*strong {inline} text*"),
                        10 => format!("== Heading {inline}"),
                        11 => format!("term {inline}:: text"),
                        12 => format!("term:: text {inline}\n+\n--\nmore\n--"),
                        13 => format!("text footnote:[note {inline} text]"),
                        14 => format!(".Title {inline}\n****\ntext\n****"),
                        15 => format!("NOTE: {inline} text"),
                        16 => format!("https://no.example[text {inline}]"),
                        17 => format!("____\n\"`said {inline} and`\"\n____"),
                        18 => format!("[TIP]\n====\n. item\n.. below {inline}\n===="),
                        _ => format!("----\n{inline}\nimage::{target}[]\n----\n\n// image::{target}[]"),
                    });
                    out.push_str("\n\n");
                    if *how < 19 {
                        self.targets.push(target);
                        self.missing_image |= *path != 2 && !self.there.contains(&(*d, *n));
                        self.included_image |= !dir.is_empty();
                    }
                }
                Named::Include(d, parts) => {
                    let name = if parts.is_some() { format!("f{}.adoc", self.files.len()) } else { "none.adoc".to_string() };
                    out.push_str(&format!("include::{}[]\n\n", relative(dir, DIRS[*d], &name)));
                    let slot = self.files.len();
                    match parts {
                        Some(parts) => {
                            self.files.push((join(DIRS[*d], &name), String::new()));
                            let text = self.write(parts, DIRS[*d]);
                            self.files[slot].1 = text;
                        }
                        None => self.missing_file = true,
                    }
                }
            }
        }
        out
    }
}

fn image_targets(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            if v["name"] == "image" || v["variant"] == "image" {
                out.push(v["target"].as_str().unwrap_or("").to_string());
            }
            o.values().for_each(|x| image_targets(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| image_targets(x, out)),
        _ => {}
    }
}

fn eval_images(v: &Value) -> Verdict {
    let (there, resolve, items): (Vec<(usize, usize)>, bool, Vec<Named>) = serde_json::from_value(v.clone()).expect("case");
    let dir = Dir::new();
    let root = dir.0.to_string_lossy().into_owned();
    let mut t = Tree { root: &root, there: &there, files: vec![], targets: vec![], missing_image: false, missing_file: false, included_image: false };
    let main = t.write(&items, "");
    // (a directory that isn't there can't be gone through)
    DIRS.iter().for_each(|d| dir.write(&join(d, "nothing"), ""));
    there.iter().for_each(|(d, n)| dir.write(&join(DIRS[*d], IMAGES[*n]), "an image"));
    t.files.iter().for_each(|(n, t)| dir.write(n, t));
    let fails = t.missing_file || (resolve && t.missing_image);
    let shown = || format!("images: {:?}\n--- main\n{main}\n{}", there.iter().map(|(d, n)| join(DIRS[*d], IMAGES[*n])).collect::<Vec<_>>(), show(&t.files));
    let nontrivial = !t.targets.is_empty();
    match dir.parse(&main, resolve) {
        Err(sut::Fault::Err(_)) if fails => Verdict::ok(nontrivial).label("missing"),
        Err(f) => Verdict::fail("refused", format!("{f}\n{}", shown())),
        Ok(_) if fails => Verdict::fail("accepted", format!("there is no such image or file\n{}", shown())),
        Ok(j) => {
            let mut got = vec![];
            image_targets(&j, &mut got);
            // (titles are reported after what they are the title of)
            got.sort();
            t.targets.sort();
            if got != t.targets {
                return Verdict::fail("target", format!("written: {:?}\nreported: {got:?}\n{}", t.targets, shown()));
            }
            Verdict::ok(nontrivial).label(if !resolve {
                "unchecked"
            } else if t.included_image {
                "all there, some named in another directory"
            } else {
                "all there"
            })
        }
    }
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "the files name at least one image",
        assumptions: &["images at web addresses are not looked for"],
        parts: vec![
            Part {
                name: "some",
                quick: 24000,
                thorough: 200000,
                strategy: || typed((vec((0..DIRS.len(), 0..IMAGES.len()), 0..12), proptest::bool::weighted(0.7), vec(named(3), 1..4))),
                eval: eval_images,
            },
            Part {
                name: "most",
                quick: 24000,
                thorough: 200000,
                strategy: || {
                    let all: Vec<(usize, usize)> = (0..DIRS.len()).flat_map(|d| (0..IMAGES.len()).map(move |n| (d, n))).collect();
                    let most = proptest::sample::subsequence(all.clone(), all.len() - 2..=all.len());
                    typed((most, proptest::bool::weighted(0.9), vec(named(3), 1..4)))
                },
                eval: eval_images,
            },
        ],
        known_inputs: no_known,
    }
}

// ----------------------------------------------------------- level offsets

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// equals signs, and whether there is text below
    Heading(usize, bool),
    Offset(Shift),
    Include(usize, Option<Shift>, Vec<Step>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Shift {
    By(i8),
    To(i8),
}

impl Shift {
    fn apply(&self, level: i32) -> i32 {
        match self {
            Shift::By(n) => level + *n as i32,
            Shift::To(n) => *n as i32,
        }
    }

    fn text(&self) -> String {
        match self {
            Shift::By(n) => format!("{n:+}"),
            // a number with a sign is relative
            Shift::To(n) => n.unsigned_abs().to_string(),
        }
    }
}

fn shift() -> BoxedStrategy<Shift> {
    prop_oneof![5 => (-2i8..3).prop_map(Shift::By), 2 => (0i8..3).prop_map(Shift::To), 1 => Just(Shift::To(0))].boxed()
}

fn steps(depth: u32) -> BoxedStrategy<Vec<Step>> {
    let heading = (prop_oneof![1 => Just(1usize), 6 => 2..4usize, 2 => 4..6usize], any::<bool>()).prop_map(|(n, text)| Step::Heading(n, text));
    let offset = shift().prop_map(Step::Offset);
    if depth == 0 {
        return vec(prop_oneof![3 => heading, 1 => offset], 1..4).boxed();
    }
    let include = (0..DIRS.len(), proptest::option::weighted(0.7, shift()), steps(depth - 1)).prop_map(|(d, s, steps)| Step::Include(d, s, steps));
    vec(prop_oneof![4 => heading, 1 => offset, 2 => include], 1..5).boxed()
}

struct Levels {
    offset: i32,
    n: usize,
    files: Vec<(String, String)>,
    /// the level and title of sections, and paragraphs
    want: Vec<String>,
    /// a heading left the levels there are
    outside: bool,
    shifted: bool,
    /// make every heading fit, so that all of the document counts
    fit: bool,
}

impl Levels {
    fn write(&mut self, steps: &[Step], dir: &str, main: bool) -> String {
        let mut out = String::new();
        for s in steps {
            match s {
                Step::Heading(marks, text) => {
                    let mut marks = *marks as i32;
                    if self.fit {
                        marks = (marks.max(2 - self.offset)).min(5 - self.offset).clamp(1, 5);
                    }
                    // a single mark makes it the title of the document, unless it is moved down
                    if marks == 1 && self.offset == 0 {
                        marks = 2;
                    }
                    let level = marks - 1 + self.offset;
                    self.n += 1;
                    out.push_str(&format!("{} s{}\n\n", "=".repeat(marks as usize), self.n));
                    self.outside |= !(1..=4).contains(&level);
                    self.shifted |= self.offset != 0;
                    self.want.push(format!("{level} s{}", self.n));
                    if *text {
                        out.push_str(&format!("t{}\n\n", self.n));
                        self.want.push(format!("t{}", self.n));
                    }
                }
                Step::Offset(s) => {
                    out.push_str(&format!(":leveloffset: {}\n\n", s.text()));
                    self.offset = s.apply(self.offset);
                }
                Step::Include(d, shift, steps) => {
                    let name = format!("f{}.adoc", self.files.len());
                    let attr = shift.as_ref().map(|s| format!("leveloffset={}", s.text())).unwrap_or_default();
                    out.push_str(&format!("include::{}[{attr}]\n\n", relative(dir, DIRS[*d], &name)));
                    let before = self.offset;
                    if let Some(s) = shift {
                        self.offset = s.apply(self.offset);
                    }
                    let slot = self.files.len();
                    self.files.push((join(DIRS[*d], &name), String::new()));
                    let text = self.write(steps, DIRS[*d], false);
                    self.files[slot].1 = text;
                    if shift.is_some() {
                        self.offset = before;
                    }
                }
            }
        }
        if main && out.starts_with("= ") {
            out.insert_str(0, "first\n\n");
            self.want.insert(0, "first".into());
        }
        out
    }
}

fn outline(v: &Value, out: &mut Vec<String>) {
    let said = |k: &str| -> String { v[k].as_array().into_iter().flatten().map(|i| i["value"].as_str().unwrap_or("?")).collect() };
    match v["name"].as_str() {
        Some("section") => out.push(format!("{} {}", v["level"], said("title"))),
        Some("paragraph") => out.push(said("inlines")),
        _ => {}
    }
    v["blocks"].as_array().into_iter().flatten().for_each(|b| outline(b, out));
}

fn eval_levels(v: &Value) -> Verdict {
    let (fit, steps): (bool, Vec<Step>) = serde_json::from_value(v.clone()).expect("case");
    let mut l = Levels { offset: 0, n: 0, files: vec![], want: vec![], outside: false, shifted: false, fit };
    let main = l.write(&steps, "", true);
    let dir = Dir::new();
    l.files.iter().for_each(|(n, t)| dir.write(n, t));
    let shown = || format!("--- main\n{main}\n{}", show(&l.files));
    match dir.parse(&main, false) {
        Err(sut::Fault::Err(_)) if l.outside => Verdict::ok(l.shifted).label("outside"),
        Err(f) => Verdict::fail("refused", format!("{f}\n{}", shown())),
        Ok(_) if l.outside => Verdict::fail("accepted", format!("a heading leaves the levels there are: {:?}\n{}", l.want, shown())),
        Ok(j) => {
            let mut got = vec![];
            outline(&j, &mut got);
            if got != l.want {
                return Verdict::fail("levels", format!("expected: {:?}\ngot: {got:?}\n{}", l.want, shown()));
            }
            Verdict::ok(l.shifted).label("shifted").label(format!("{} files", l.files.len().min(3)))
        }
    }
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "some heading is moved to another level",
        assumptions: &[],
        parts: vec![
            Part { name: "fitting", quick: 24000, thorough: 200000, strategy: || typed((Just(true), steps(2))), eval: eval_levels },
            Part { name: "any", quick: 24000, thorough: 200000, strategy: || typed((Just(false), steps(1))), eval: eval_levels },
        ],
        known_inputs: no_known,
    }
}
