//! C20: DOCX output, unpacked, against a renderer that works on the parsed tree as JSON.
use crate::blocks::{Bcfg, document};
use crate::doc::{Doc, Icfg, W};
use crate::engine::*;
use crate::soup::soup;
use crate::sut;
use crate::xml::{self, Xml};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::path::{Path, PathBuf};

/// a line break
const BR: char = '\u{2028}';
/// an image, followed by its width
const PIC: char = '\u{fffc}';

#[derive(Clone, Debug, PartialEq, Default)]
struct Fmt {
    bold: bool,
    italic: bool,
    mono: bool,
    light: String,
    vert: String,
}

type Chars = Vec<(char, Fmt)>;

#[derive(Clone, Debug, PartialEq)]
struct Para {
    style: String,
    /// number of the list, in order of appearance
    list: Option<usize>,
    page_break: bool,
    text: Chars,
}

#[derive(Clone, Debug, PartialEq)]
enum El {
    P(Para),
    Table(Vec<Vec<Para>>),
}

fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

fn attr<'a>(b: &'a Value, k: &str) -> Option<&'a str> {
    b["metadata"]["attributes"][k].as_str()
}

/// the characters the backend promises to resolve
const CHARS: &[(&str, &str)] = &[
    ("nbsp", " "), ("#160", " "), ("mdash", "—"), ("#8212", "—"), ("ndash", "—"), ("dollar", "$"), ("amp", "&"), ("#38", "&"),
    ("gt", ">"), ("#62", ">"), ("lt", "<"), ("#60", "<"), ("equals", "="), ("plus", "+"), ("#169", "©"), ("copy", "©"),
    ("#174", "®"), ("reg", "®"), ("#8482", "™"), ("trade", "™"), ("#8230", "…"), ("#8594", "→"), ("#8658", "⇒"), ("#8592", "←"),
    ("#8656", "⇐"), ("sect", "§"), ("#167", "§"), ("euro", "€"), ("#8364", "€"), ("yen", "¥"), ("#165", "¥"), ("quot", "\""),
    ("#34", "\""), ("#39", "'"), ("apos", "'"), ("lsquo", "‘"), ("#8216", "‘"), ("rsquo", "’"), ("#8217", "’"), ("ldquo", "“"),
    ("#8220", "“"), ("rdquo", "”"), ("#8221", "”"),
];

fn resolve(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    'next: while let Some(c) = rest.chars().next() {
        if c == '&' {
            for (n, r) in CHARS {
                if let Some(x) = rest[1..].strip_prefix(n).and_then(|x| x.strip_prefix(';')) {
                    out.push_str(r);
                    rest = x;
                    continue 'next;
                }
            }
        }
        out.push(c);
        rest = &rest[c.len_utf8()..];
    }
    out
}

fn inl(i: &Value, f: &Fmt, out: &mut Chars) {
    let mut f = f.clone();
    match s(i, "name") {
        "linebreak" => out.push((BR, Fmt::default())),
        "span" => {
            match s(i, "variant") {
                "strong" => f.bold = true,
                "emphasis" => f.italic = true,
                "code" => f.mono = true,
                "mark" => f.light = "yellow".into(),
                "footnote" => f.light = "blue".into(),
                v => f.vert = v.into(),
            }
            inls(arr(i, "inlines"), &f, out);
        }
        "ref" => {
            inls(arr(i, "inlines"), &f, out);
            if arr(i, "inlines").is_empty() && s(i, "variant") != "image" {
                out.extend(s(i, "target").chars().map(|c| (c, f.clone())));
            }
        }
        _ => out.extend(resolve(s(i, "value")).chars().map(|c| (c, f.clone()))),
    }
}

fn inls(v: &[Value], f: &Fmt, out: &mut Chars) {
    v.iter().for_each(|i| inl(i, f, out));
}

/// a character that can be in a DOCX file, and means the same everywhere
fn keep(c: char) -> bool {
    (!c.is_control() || c == '\n' || c == '\t') && c != '\u{fffe}' && c != '\u{ffff}'
}

/// white space as in running text: any amount is one, none at line ends
fn flow(t: Chars) -> Chars {
    let mut out: Chars = vec![];
    for (c, f) in t {
        if !keep(c) {
            continue;
        }
        if c == BR {
            while out.last().is_some_and(|l| l.0 == ' ') {
                out.pop();
            }
            out.push((BR, Fmt::default()));
        } else if c.is_whitespace() {
            if out.last().is_some_and(|l| l.0 != ' ' && l.0 != BR) {
                out.push((' ', Fmt::default()));
            }
        } else {
            out.push((c, f));
        }
    }
    while out.last().is_some_and(|l| l.0 == ' ') {
        out.pop();
    }
    out
}

struct R {
    out: Vec<El>,
    lists: usize,
    page_break: bool,
    /// what makes it impossible to write the document
    fails: bool,
    sizes: BTreeMap<String, u32>,
}

impl R {
    fn para(&mut self, style: &str, list: Option<usize>, text: Chars) -> Para {
        Para { style: style.into(), list, page_break: std::mem::take(&mut self.page_break), text }
    }
    fn add(&mut self, style: &str, list: Option<usize>, text: Chars) {
        let p = self.para(style, list, text.into_iter().filter(|c| keep(c.0)).collect());
        self.out.push(El::P(p));
    }
    fn text(&mut self, style: &str, list: Option<usize>, inlines: &[Value]) {
        let mut t = vec![];
        inls(inlines, &Fmt::default(), &mut t);
        self.add(style, list, flow(t));
    }
    /// text that keeps its lines
    fn lines(&mut self, style: &str, inlines: &[Value]) {
        let mut t: Chars = vec![];
        for (n, i) in inlines.iter().enumerate() {
            if s(i, "name") == "text" {
                let v: String = s(i, "value").chars().filter(|c| keep(*c)).collect();
                let mut v = v.as_str();
                if n == 0 {
                    v = v.strip_prefix('\n').unwrap_or(v);
                }
                if n + 1 == inlines.len() {
                    v = v.strip_suffix('\n').unwrap_or(v);
                }
                t.extend(v.chars().map(|c| (if c == '\n' { BR } else { c }, Fmt::default())));
            } else {
                let mut x = vec![];
                inl(i, &Fmt::default(), &mut x);
                t.extend(x.into_iter().map(|(c, f)| (if c == '\n' { ' ' } else { c }, f)));
            }
        }
        self.add(style, None, t);
    }

    fn all_inlines<'a>(b: &'a Value, out: &mut Vec<&'a Value>) {
        for k in ["title", "terms", "principal", "inlines"] {
            out.extend(arr(b, k));
        }
        for k in ["items", "blocks"] {
            arr(b, k).iter().for_each(|x| Self::all_inlines(x, out));
        }
    }

    fn block(&mut self, b: &Value, style: &str) {
        match s(b, "name") {
            "section" => {
                let mut inner = style;
                if !arr(b, "title").is_empty() {
                    self.text(&format!("Heading {}", b["level"]), None, arr(b, "title"));
                    inner = "Normal";
                }
                arr(b, "blocks").iter().for_each(|x| self.block(x, inner));
            }
            "list" => {
                self.lists += 1;
                let n = self.lists;
                let st = if s(b, "variant") == "unordered" { "ListParagraph" } else { "NumberedListParagraph" };
                for it in arr(b, "items") {
                    self.text(st, Some(n), arr(it, "principal"));
                    for x in arr(it, "blocks") {
                        // anything attached becomes a single paragraph
                        let mut v = vec![];
                        Self::all_inlines(x, &mut v);
                        let v: Vec<Value> = v.into_iter().cloned().collect();
                        self.text("ListParagraphContinue", None, &v);
                    }
                }
            }
            "dlist" => {
                for it in arr(b, "items") {
                    self.text("Definition Term", None, arr(it, "terms"));
                    self.text("Definition", None, arr(it, "principal"));
                    arr(it, "blocks").iter().for_each(|x| self.block(x, "Definition"));
                }
            }
            "break" => match s(b, "variant") {
                "page" => self.page_break = true,
                _ => self.add("Thematic Break", None, vec![('#', Fmt::default())]),
            },
            "paragraph" | "pass" => self.text(style, None, arr(b, "inlines")),
            "verse" => self.lines("Verse", arr(b, "inlines")),
            "listing" | "literal" => self.lines("Monospace", arr(b, "inlines")),
            "open" => arr(b, "blocks").iter().for_each(|x| self.block(x, style)),
            "quote" => {
                arr(b, "blocks").iter().for_each(|x| self.block(x, "Quote"));
                if let Some(a) = attr(b, "attribution") {
                    let t = format!("— {a}").chars().map(|c| (c, Fmt::default())).collect();
                    self.add("Quote", None, flow(t));
                }
            }
            "table" => {
                let cols = match attr(b, "cols").map(|c| c.parse::<usize>()) {
                    None => 0,
                    Some(Ok(n)) => n,
                    Some(Err(_)) => {
                        self.fails = true;
                        return;
                    }
                };
                let cells: Vec<Para> = arr(b, "blocks")
                    .iter()
                    .map(|c| {
                        let mut t = vec![];
                        inls(arr(c, "inlines"), &Fmt::default(), &mut t);
                        self.para("Table", None, flow(t).into_iter().filter(|c| keep(c.0)).collect())
                    })
                    .collect();
                self.out.push(El::Table(cells.chunks(if cols == 0 { cells.len().max(1) } else { cols }).map(|r| r.to_vec()).collect()));
            }
            "image" => match self.sizes.get(s(b, "target")).copied() {
                Some(n) => {
                    let mut t = vec![(PIC, Fmt::default())];
                    t.extend(n.to_string().chars().map(|c| (c, Fmt::default())));
                    self.add("", None, t);
                }
                None => self.fails = true,
            },
            x => {
                let name = x[..1].to_uppercase() + &x[1..];
                let head = format!("{name} Title");
                if let Some(v) = b["variant"].as_str() {
                    self.add(&head, None, v.to_lowercase().chars().map(|c| (c, Fmt::default())).collect());
                }
                if !arr(b, "title").is_empty() {
                    self.text(&head, None, arr(b, "title"));
                }
                let inner = format!("{name} Text");
                arr(b, "blocks").iter().for_each(|x| self.block(x, &inner));
            }
        }
    }
}

// ---------------------------------------------------------------- reading

pub struct Package {
    pub files: BTreeMap<String, Vec<u8>>,
}

impl Package {
    pub fn open(p: &Path) -> Result<Self, String> {
        let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
        let mut z = zip::ZipArchive::new(f).map_err(|e| e.to_string())?;
        let mut files = BTreeMap::new();
        for i in 0..z.len() {
            let mut e = z.by_index(i).map_err(|e| e.to_string())?;
            let mut b = vec![];
            e.read_to_end(&mut b).map_err(|e| e.to_string())?;
            files.insert(e.name().trim_start_matches('/').to_string(), b);
        }
        Ok(Package { files })
    }
    fn xml(&self, name: &str) -> Result<Xml, String> {
        let b = self.files.get(name).ok_or(format!("no {name}"))?;
        let t = std::str::from_utf8(b).map_err(|_| format!("{name} is not UTF-8"))?;
        xml::read(t).map_err(|e| format!("{name}: {e}"))
    }
}

struct Reader {
    /// the names of the styles
    styles: BTreeMap<String, String>,
    /// number definition: kind
    nums: BTreeMap<String, String>,
    lists: Vec<String>,
    rels: BTreeMap<String, String>,
}

impl Reader {
    fn para(&mut self, p: &Xml, pk: &Package) -> Result<Para, String> {
        let pr = p.find("w:pPr");
        let style = pr.and_then(|x| x.find("w:pStyle")).map(|x| x.attr("w:val").to_string()).unwrap_or_default();
        let style = match self.styles.get(&style) {
            Some(name) => name.clone(),
            None if style.is_empty() => style,
            None => return Err(format!("style {style} is not defined")),
        };
        let mut list = None;
        if let Some(n) = pr.and_then(|x| x.find("w:numPr")).and_then(|x| x.find("w:numId")) {
            let id = n.attr("w:val").to_string();
            let Some(kind) = self.nums.get(&id) else { return Err(format!("numbering {id} is not defined")) };
            let want = if style == "ListParagraph" { "bullet" } else { "decimal" };
            if kind != want {
                return Err(format!("{style} is numbered {kind}"));
            }
            list = Some(match self.lists.iter().position(|x| *x == id) {
                Some(n) => n + 1,
                None => {
                    self.lists.push(id);
                    self.lists.len()
                }
            });
        }
        let page_break = pr.is_some_and(|x| x.find("w:pageBreakBefore").is_some());
        let mut text: Chars = vec![];
        for r in p.all("w:r") {
            let mut f = Fmt::default();
            if let Some(rp) = r.find("w:rPr") {
                f.bold = rp.find("w:b").is_some();
                f.italic = rp.find("w:i").is_some();
                f.mono = rp.find("w:rFonts").is_some_and(|x| x.attr("w:ascii") == "Courier New");
                f.light = rp.find("w:highlight").map(|x| x.attr("w:val").to_string()).unwrap_or_default();
                f.vert = rp.find("w:vertAlign").map(|x| x.attr("w:val").to_string()).unwrap_or_default();
            }
            for k in r.elements() {
                match k.name() {
                    "w:t" => text.extend(k.text().chars().filter(|c| keep(*c)).map(|c| (c, f.clone()))),
                    "w:br" => text.push((BR, Fmt::default())),
                    "w:tab" => text.push(('\t', f.clone())),
                    "w:drawing" => {
                        let mut seen = vec![];
                        k.walk(&mut |x| {
                            if x.name() == "wp:extent" {
                                seen.push((x.attr("cx").parse::<u32>().unwrap_or(0) / 9525).to_string());
                            }
                            if x.name() == "a:blip" && !self.rels.get(x.attr("r:embed")).is_some_and(|t| pk.files.contains_key(&format!("word/{t}"))) {
                                seen.push("missing".into());
                            }
                        });
                        text.push((PIC, Fmt::default()));
                        text.extend(seen.concat().chars().map(|c| (c, Fmt::default())));
                    }
                    _ => {}
                }
            }
        }
        let style = if style.starts_with("NumberedListParagraph_") { "NumberedListParagraph".into() } else { style };
        // variants are shown capitalised
        if style == "Admonition Title" {
            let t: String = text.iter().map(|c| c.0).collect();
            if ["Note", "Tip", "Important", "Caution", "Warning"].contains(&t.as_str()) {
                text.iter_mut().for_each(|c| c.0 = c.0.to_ascii_lowercase());
            }
        }
        let text = match style.as_str() {
            "Verse" | "Monospace" => text,
            _ => flow(text),
        };
        Ok(Para { style, list, page_break, text })
    }
}

fn read(path: &Path) -> Result<Vec<El>, String> {
    let pk = Package::open(path)?;
    for f in pk.files.keys().filter(|f| f.ends_with(".xml") || f.ends_with(".rels")) {
        pk.xml(f)?;
    }
    pk.xml("[Content_Types].xml")?;
    let doc = pk.xml("word/document.xml")?;
    let mut rd = Reader { styles: BTreeMap::new(), nums: BTreeMap::new(), lists: vec![], rels: BTreeMap::new() };
    let styles = pk.xml("word/styles.xml")?;
    for st in styles.all("w:style") {
        rd.styles.insert(st.attr("w:styleId").into(), st.find("w:name").map(|n| n.attr("w:val").to_string()).unwrap_or_default());
    }
    for b in styles.all("w:basedOn").into_iter().chain(styles.all("w:next")) {
        if !rd.styles.contains_key(b.attr("w:val")) {
            return Err(format!("style {} is not defined", b.attr("w:val")));
        }
    }
    let num = pk.xml("word/numbering.xml")?;
    let mut abs = BTreeMap::new();
    for a in num.all("w:abstractNum") {
        let kind = a.find("w:lvl").and_then(|l| l.find("w:numFmt")).map(|f| f.attr("w:val").to_string()).unwrap_or_default();
        abs.insert(a.attr("w:abstractNumId").to_string(), kind);
    }
    for n in num.all("w:num") {
        if let Some(k) = n.find("w:abstractNumId").and_then(|a| abs.get(a.attr("w:val"))) {
            rd.nums.insert(n.attr("w:numId").into(), k.clone());
        }
    }
    for r in pk.xml("word/_rels/document.xml.rels")?.all("Relationship") {
        rd.rels.insert(r.attr("Id").into(), r.attr("Target").into());
    }
    let body = doc.find("w:body").ok_or("no body")?;
    let mut out = vec![];
    for e in body.elements() {
        match e.name() {
            "w:p" => out.push(El::P(rd.para(e, &pk)?)),
            "w:tbl" => {
                let mut rows = vec![];
                for r in e.all("w:tr") {
                    let mut row = vec![];
                    for c in r.all("w:tc") {
                        let ps: Vec<&Xml> = c.all("w:p").collect();
                        if ps.len() != 1 {
                            return Err("a cell without a single paragraph".into());
                        }
                        row.push(rd.para(ps[0], &pk)?);
                    }
                    rows.push(row);
                }
                out.push(El::Table(rows));
            }
            _ => {}
        }
    }
    Ok(out)
}

fn show(t: &Chars) -> String {
    let mut out = String::new();
    let mut last = Fmt::default();
    for (c, f) in t {
        if *f != last && *c != ' ' && *c != BR {
            out.push('{');
            for (on, m) in [(f.bold, 'b'), (f.italic, 'i'), (f.mono, 'm')] {
                if on {
                    out.push(m);
                }
            }
            out.push_str(&f.light);
            out.push_str(&f.vert);
            out.push('}');
            last = f.clone();
        }
        out.push(if *c == BR { '⏎' } else { *c });
    }
    out
}

fn diff_para(e: &Para, a: &Para) -> Option<(String, String)> {
    let loc = || format!("{} [{}] / {} [{}]", e.style, show(&e.text), a.style, show(&a.text));
    let plain = |t: &Chars| t.iter().map(|c| c.0).collect::<String>();
    let kind = e.style.split(' ').next_back().unwrap_or("");
    if plain(&e.text) != plain(&a.text) {
        return Some((format!("text {kind}"), loc()));
    }
    if e.style != a.style {
        return Some((format!("style {}", e.style), loc()));
    }
    if e.text != a.text {
        return Some((format!("format {kind}"), loc()));
    }
    if e.list != a.list {
        return Some((format!("numbering {kind}"), format!("{:?} / {:?} {}", e.list, a.list, loc())));
    }
    if e.page_break != a.page_break {
        return Some((format!("page break {kind}"), format!("{} / {} {}", e.page_break, a.page_break, loc())));
    }
    None
}

fn diff(exp: &[El], act: &[El]) -> Option<(String, String)> {
    for (e, a) in exp.iter().zip(act) {
        let d = match (e, a) {
            (El::P(e), El::P(a)) => diff_para(e, a),
            (El::Table(e), El::Table(a)) => {
                let shape = |t: &Vec<Vec<Para>>| t.iter().map(|r| r.len()).collect::<Vec<_>>();
                if shape(e) != shape(a) {
                    Some(("rows".into(), format!("{:?} / {:?}", shape(e), shape(a))))
                } else {
                    e.iter().flatten().zip(a.iter().flatten()).find_map(|(e, a)| diff_para(e, a))
                }
            }
            _ => Some(("table or paragraph".into(), format!("{e:?} / {a:?}"))),
        };
        if d.is_some() {
            return d;
        }
    }
    if exp.len() != act.len() {
        let n = exp.len().min(act.len());
        return Some(("length".into(), format!("missing {:?}\nextra {:?}", &exp[n..], &act[n..])));
    }
    None
}

/// small images of different widths
fn images(dir: &Path) -> BTreeMap<String, u32> {
    let mut m = BTreeMap::new();
    for w in 1..=3u32 {
        let p = dir.join(format!("{w}.bmp"));
        if !p.exists() {
            let row = (w * 3).div_ceil(4) * 4;
            let mut b: Vec<u8> = b"BM".to_vec();
            b.extend((54 + row).to_le_bytes());
            b.extend([0; 4]);
            b.extend(54u32.to_le_bytes());
            b.extend(40u32.to_le_bytes());
            b.extend(w.to_le_bytes());
            b.extend(1u32.to_le_bytes());
            b.extend(1u16.to_le_bytes());
            b.extend(24u16.to_le_bytes());
            b.extend([0; 4]);
            b.extend(row.to_le_bytes());
            b.extend([0; 16]);
            b.extend(vec![0x7f; row as usize]);
            std::fs::write(&p, b).unwrap_or_else(|e| die(&format!("image: {e}")));
        }
        m.insert(p.to_string_lossy().into_owned(), w);
    }
    m
}

fn dir() -> PathBuf {
    let d = scratch_root().join(format!("docx-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap_or_else(|e| die(&format!("scratch: {e}")));
    d
}

/// `tree`: what the source stands for, if that's known
fn check(src: &str, tree: Option<Value>, dir: &Path, sizes: BTreeMap<String, u32>) -> Verdict {
    let asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) if tree.is_some() => return Verdict::fail("rejected", format!("{f}\n--- source\n{src}")),
        Err(_) => return Verdict::ok(false).label("not accepted"),
    };
    let json = match sut::json(&asg) {
        Ok(j) => tree.unwrap_or(j),
        Err(f) => return Verdict::fail("json", f.to_string()),
    };
    let mut r = R { out: vec![], lists: 0, page_break: false, fails: false, sizes };
    let t = arr(&json["header"], "title");
    if !t.is_empty() {
        r.text("Title", None, t);
    }
    arr(&json, "blocks").iter().for_each(|b| r.block(b, "Normal"));
    let path = dir.join("out.docx");
    let _ = std::fs::remove_file(&path);
    let res = sut::docx(&asg, &path);
    match res {
        Err(sut::Fault::Err(_)) if r.fails => return Verdict::ok(false).label("missing image or unknown columns"),
        Err(f) => return Verdict::fail("render", format!("{f}\n--- source\n{src}")),
        Ok(()) if r.fails => return Verdict::fail("no error", format!("a missing image or unknown number of columns is not reported\n--- source\n{src}")),
        Ok(()) => {}
    }
    let act = match read(&path) {
        Ok(a) => a,
        Err(e) => return Verdict::fail("package", format!("{e}\n--- source\n{src}")),
    };
    match diff(&r.out, &act) {
        None => {
            let mut k = BTreeSet::new();
            super::model::kinds(&json, &mut k);
            Verdict::ok(!arr(&json, "blocks").is_empty()).labels(k)
        }
        Some((sig, m)) => Verdict::fail(sig, format!("expected / actual: {m}\n--- source\n{src}")),
    }
}

/// gives images the path of one that exists
fn place(v: &mut Value, paths: &[String]) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| place(x, paths)),
        Value::Object(o) => {
            if let Some(Value::Array(i)) = o.get_mut("Image") {
                let n = i[0].as_str().map(|s| s.len()).unwrap_or(0) % paths.len();
                i[0] = Value::String(paths[n].clone());
                return;
            }
            o.iter_mut().for_each(|(_, x)| place(x, paths));
        }
        _ => {}
    }
}

fn eval_doc(v: &Value) -> Verdict {
    eval_tree(v, false)
}

fn eval_written(v: &Value) -> Verdict {
    eval_tree(v, true)
}

fn eval_tree(v: &Value, written: bool) -> Verdict {
    let d = dir();
    let sizes = images(&d);
    let mut v = v.clone();
    place(&mut v, &sizes.keys().cloned().collect::<Vec<_>>());
    let doc: Doc = serde_json::from_value(v).expect("case");
    let mut w = W::new();
    w.exact = false;
    let tree = w.doc(&doc);
    check(&w.s, written.then_some(tree), &d, sizes)
}

fn eval_src(v: &Value) -> Verdict {
    // a carriage return on its own is neither a line end nor text
    let src = v.as_str().expect("case").replace("\r\n", "\u{1}").replace('\r', "").replace('\u{1}', "\r\n");
    check(&src, None, &dir(), BTreeMap::new())
}

fn docs(c: Bcfg) -> BoxedStrategy<Value> {
    typed(document(&c, 2)).boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "the document is accepted, has at least one block, and can be written",
        assumptions: &[
            "white space is compared as in running text, exactly in listings, literal blocks and verses only",
            "titles of quotes, open blocks and tables, captions and attributions of verses are not put out (the backend is documented as incomplete)",
            "a document with an image that cannot be read, or a table with columns that are not a number, has to be refused",
        ],
        parts: vec![
            Part { name: "documents", quick: 8000, thorough: 40000, strategy: || docs(Bcfg { text: Icfg { num: 2, ..Icfg::rich() }, ..Bcfg::all() }), eval: eval_doc },
            Part { name: "written", quick: 6000, thorough: 40000, strategy: || docs(Bcfg { text: Icfg { num: 2, ..Icfg::rich() }, meta: 20, image: 2, ..Bcfg::all() }), eval: eval_written },
            Part { name: "blocks", quick: 8000, thorough: 40000, strategy: || docs(Bcfg { depth: 3, max: 3, meta: 40, image: 2, brk: 3, ..Bcfg::all() }), eval: eval_doc },
            Part { name: "soup", quick: 12000, thorough: 60000, strategy: || typed(soup(24)), eval: eval_src },
        ],
        known_inputs: no_known,
    }
}
