//! The document model: a small abstract syntax for AsciiDoc documents, a writer that produces the
//! source text of such a document, and -- as the writer goes -- the abstract semantic graph that
//! the source has to parse to, including where everything is in the source.
//!
//! Nothing here looks at the implementation: the expected graph follows from the abstract syntax.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ inlines

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Inl {
    /// words, not markup
    T(String),
    /// variant: index into SPANS
    Span { v: usize, unc: bool, roles: Vec<String>, kids: Vec<It> },
    Url(String),
    Link(String, Vec<It>),
    Xref(String),
    Foot(Vec<It>),
    Sym(usize),
    /// a possessive, e.g., "dog's"
    Poss(String),
    Attr(String),
    Img(String, String),
    Pass(String),
    /// typographic quotes
    Quote(bool, Vec<It>),
}

/// An inline and how it is set off from the one before
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct It {
    pub g: Gap,
    pub paren: bool,
    pub punct: Option<char>,
    pub i: Inl,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Gap {
    Space,
    Newline,
    Glue,
    /// a hard line break
    Break,
    /// a line end, with a comment line below
    Comment,
}

/// (variant, mark)
pub const SPANS: &[(&str, char)] = &[
    ("strong", '*'),
    ("emphasis", '_'),
    ("code", '`'),
    ("mark", '#'),
    ("superscript", '^'),
    ("subscript", '~'),
    ("code", '+'),
];

pub const SYMS: &[(&str, &str)] = &[
    ("(C)", "&#169;"),
    ("(R)", "&#174;"),
    ("(TM)", "&#8482;"),
    ("->", "&#8594;"),
    ("=>", "&#8658;"),
    ("<-", "&#8592;"),
    ("<=", "&#8656;"),
    ("--", "&#8212;"),
    ("&amp;", "&amp;"),
    ("&lt;", "&lt;"),
    ("&nbsp;", "&nbsp;"),
    ("&copy;", "&copy;"),
    ("&gt;", "&gt;"),
    ("&dollar;", "&dollar;"),
    ("&equals;", "&equals;"),
    ("&plus;", "&plus;"),
    ("&reg;", "&reg;"),
    ("&trade;", "&trade;"),
    ("&sect;", "&sect;"),
    ("&euro;", "&euro;"),
    ("&yen;", "&yen;"),
    ("&quot;", "&quot;"),
    ("&apos;", "&apos;"),
    ("&lsquo;", "&lsquo;"),
    ("&rsquo;", "&rsquo;"),
    ("&ldquo;", "&ldquo;"),
    ("&rdquo;", "&rdquo;"),
    ("&mdash;", "&mdash;"),
    ("&ndash;", "&ndash;"),
    ("&hellip;", "&hellip;"),
    ("&alpha;", "&alpha;"),
    ("&frac12;", "&frac12;"),
    // (at the start of a line or of an element)
    ("...", "&#8230;"),
];
pub const DOTS: usize = SYMS.len() - 1;

pub fn t(s: &str) -> It {
    It { g: Gap::Space, paren: false, punct: None, i: Inl::T(s.into()) }
}

pub const WORDS: &[&str] = &[
    "a", "alpha", "photo", "the", "INFO", "Whim", "Note", "tip", "été", "日本語", "naïve", "x1", "e", "if", "in",
    "snake_case", "well-known", "hit", "path", "Tea", "Cat", "C", "N", "T", "f", "p", "h", "t", "i", "end", "tag",
    "footnote", "image", "pass", "include", "don't", "2", "3.14", "ok", "Ωmega", "🦀", "e.g", "x=y", "a/b", "100%",
    "term", "a*b", "c#", "NOTE", "TIP", "WARNING", "u@v", "half", "https", "q;r", "back\\slash", "p|q",
];

/// a single word that is not markup
pub fn word() -> BoxedStrategy<String> {
    prop_oneof![
        5 => proptest::sample::select(WORDS).prop_map(|s| if s == "https" || s == "c#" { "htp".to_string() } else { s.to_string() }),
        4 => "[a-zA-Z]{1,7}".prop_map(|s| s.replace("http", "hotp")),
        1 => "[a-zäöüßçñøλжя漢字かな]{1,4}".prop_map(|s| s.replace("http", "hotp")),
    ]
    .boxed()
}

/// one or more words separated by single spaces
pub fn words(max: usize) -> BoxedStrategy<String> {
    (vec(word(), 1..=max), proptest::option::weighted(0.15, proptest::sample::select(vec!['.', ',', '!', '?', ';', ')'])))
        .prop_map(|(w, p)| {
            let mut s = w.join(" ");
            if let Some(p) = p {
                s.push(p)
            }
            s
        })
        .boxed()
}

pub fn ident() -> BoxedStrategy<String> {
    prop_oneof![
        "[a-z][a-z0-9]{0,5}",
        "[a-z]{1,3}[-_][a-z0-9]{1,3}",
    ]
    .boxed()
}

/// The ids and roles of elements
pub fn id_name() -> BoxedStrategy<String> {
    prop_oneof![3 => ident(), 1 => "[A-Z][a-zA-Z]{0,2}[-_][A-Z0-9]{1,2}", 1 => "[a-zéßλ漢]{1,3}(-[a-zéλ漢]{1,2})?"].boxed()
}

/// The names of images
pub fn image_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{1,4}(/[a-z]{1,3})?\\.(png|jpg)",
        1 => "(\\.\\./|\\./)?[A-Z0-9]{1,2}[-_%~@+][a-z0-9]{1,2}(\\.[a-z]{1,2})?(/[a-z]{1,3})?\\.(PNG|svg)",
        1 => "[a-zéüλ漢🦀]{1,4}(/[a-zé]{1,3})?(\\.jpeg)?",
        1 => "https?://[a-z]{1,3}\\.org/[a-zé]{1,3}\\.png",
    ]
    .boxed()
}

/// The text that stands for an image
pub fn image_text() -> BoxedStrategy<String> {
    prop_oneof![4 => "[a-z]{0,4}( [a-z]{1,3})?", 1 => "[A-Z][a-zéλ漢🦀]{0,3}( [-a-z.:;!?'()*_/&<>]{1,4}){0,2}", 1 => "[a-z]{1,3}( ?[,=] ?[a-z]{1,3}){1,2}"].prop_map(|s| s.trim().to_string()).boxed()
}

pub fn url() -> BoxedStrategy<String> {
    (
        prop_oneof![Just("http"), Just("https")],
        "[a-z]{1,5}(-[a-z]{1,3})?",
        prop_oneof![Just("com"), Just("org"), Just("co.uk")],
        proptest::option::of(prop_oneof![3 => "(/[a-z0-9]{1,4}){1,2}(\\.html)?", 1 => "(:80)?/[A-Z0-9é]{1,3}([-_%~@+][a-z0-9]{1,2}){1,2}(/[a-zß]{1,2})?"]),
        proptest::option::weighted(0.3, "\\?[a-z]=[0-9]{1,2}(&[a-z]=[a-z])?"),
        proptest::option::weighted(0.2, "#[a-z]{1,3}"),
    )
        .prop_map(|(s, d, t, p, q, f)| {
            format!("{s}://{d}.{t}{}{}{}", p.clone().unwrap_or_default(), if p.is_some() { q.unwrap_or_default() } else { String::new() }, if p.is_some() { f.unwrap_or_default() } else { String::new() })
        })
        .boxed()
}

/// Which inlines to generate (relative weights)
#[derive(Clone, Debug)]
pub struct Icfg {
    pub span: u32,
    pub url: u32,
    pub link: u32,
    pub xref: u32,
    pub foot: u32,
    pub sym: u32,
    pub poss: u32,
    /// numeric character references
    pub num: u32,
    pub attr: u32,
    pub img: u32,
    pub pass: u32,
    pub quote: u32,
    pub newline: u32,
    pub hardbreak: u32,
    pub depth: u32,
    pub max: usize,
    pub attrs: Vec<String>,
    pub ids: Vec<String>,
}

impl Icfg {
    pub fn plain() -> Self {
        Icfg {
            span: 0, url: 0, link: 0, xref: 0, foot: 0, sym: 0, poss: 0, num: 0, attr: 0, img: 0, pass: 0, quote: 0,
            newline: 2, hardbreak: 0, depth: 0, max: 3, attrs: vec![], ids: vec![],
        }
    }
    pub fn spans() -> Self {
        Icfg { span: 6, depth: 3, max: 4, ..Self::plain() }
    }
    pub fn rich() -> Self {
        Icfg {
            span: 5, url: 1, link: 2, xref: 1, foot: 1, sym: 2, poss: 1, img: 1, pass: 1, quote: 1, hardbreak: 1,
            depth: 2, max: 5, ..Self::plain()
        }
    }
    pub fn oneline(mut self) -> Self {
        self.newline = 0;
        self.hardbreak = 0;
        self
    }
    fn inner(&self) -> Self {
        Icfg { depth: self.depth - 1, max: 3, ..self.clone() }
    }
}

fn roles() -> BoxedStrategy<Vec<String>> {
    prop_oneof![4 => Just(vec![]), 1 => vec(id_name(), 1..3)].boxed()
}

/// (these stay in the text)
const NUMS: &[&str] = &[
    "160", "8212", "38", "62", "60", "169", "174", "8482", "8230", "8594", "8658", "8592", "8656", "167", "8364", "165", "34", "39",
    "8216", "8217", "8220", "8221",
];

fn inl(c: &Icfg) -> BoxedStrategy<Inl> {
    let mut alts: Vec<(u32, BoxedStrategy<Inl>)> = vec![(8, words(3).prop_map(Inl::T).boxed())];
    if c.depth > 0 && c.span > 0 {
        alts.push((
            c.span,
            (0..SPANS.len(), any::<bool>(), roles(), items_raw(&c.inner()))
                .prop_map(|(v, unc, roles, kids)| Inl::Span { v, unc, roles, kids })
                .boxed(),
        ));
    }
    if c.url > 0 {
        alts.push((c.url, url().prop_map(Inl::Url).boxed()));
    }
    if c.depth > 0 && c.link > 0 {
        let k = Icfg { url: 0, link: 0, foot: 0, img: 0, pass: 0, xref: 0, quote: 0, ..c.inner() }.oneline();
        alts.push((c.link, (url(), items_raw(&k)).prop_map(|(u, k)| Inl::Link(u, k)).boxed()));
    }
    if c.xref > 0 {
        let s = if c.ids.is_empty() { ident() } else { proptest::sample::select(c.ids.clone()).boxed() };
        // without ids nothing is referred to
        let found = !c.ids.is_empty();
        alts.push((c.xref, s.prop_map(move |s| Inl::Xref(if found { s } else { format!("ref-{s}") })).boxed()));
    }
    if c.depth > 0 && c.foot > 0 {
        let k = Icfg { foot: 0, img: 0, pass: 0, ..c.inner() };
        alts.push((c.foot, items_raw(&k).prop_map(Inl::Foot).boxed()));
    }
    if c.sym > 0 {
        alts.push((c.sym, (0..SYMS.len()).prop_map(Inl::Sym).boxed()));
    }
    if c.poss > 0 {
        alts.push((c.poss, "[a-z]{1,5}".prop_map(|s| Inl::Poss(s.replace("http", "hotp"))).boxed()));
    }
    if c.num > 0 {
        alts.push((c.num, proptest::sample::select(NUMS).prop_map(|n| Inl::T(format!("&#{n};"))).boxed()));
    }
    if c.attr > 0 && !c.attrs.is_empty() {
        alts.push((c.attr, proptest::sample::select(c.attrs.clone()).prop_map(Inl::Attr).boxed()));
    }
    if c.img > 0 {
        alts.push((c.img, (image_name(), image_text()).prop_map(|(a, b)| Inl::Img(a, b)).boxed()));
    }
    if c.pass > 0 {
        alts.push((c.pass, "[a-z*_`#<>/ ]{0,6}[a-z<>]".prop_map(|s| Inl::Pass(s.replace("<-", "<").replace("http", "hotp").replace("<<", "<b"))).boxed()));
    }
    if c.depth > 0 && c.quote > 0 {
        alts.push((c.quote, (any::<bool>(), items_raw(&c.inner())).prop_map(|(d, k)| Inl::Quote(d, k)).boxed()));
    }
    Union::new_weighted(alts).boxed()
}

fn items_raw(c: &Icfg) -> BoxedStrategy<Vec<It>> {
    let gaps = vec![(16, Gap::Space), (c.newline * 2, Gap::Newline), (6, Gap::Glue), (c.hardbreak * 2, Gap::Break), (c.newline.min(1), Gap::Comment)];
    let gaps: Vec<(u32, BoxedStrategy<Gap>)> = gaps.into_iter().filter(|g| g.0 > 0).map(|(w, g)| (w, Just(g).boxed())).collect();
    let it = (
        Union::new_weighted(gaps),
        proptest::bool::weighted(0.1),
        proptest::option::weighted(0.2, proptest::sample::select(vec!['.', ',', '!', '?', ';', ':'])),
        inl(c),
    )
        .prop_map(|(g, paren, punct, i)| It { g, paren, punct, i });
    vec(it, 1..=c.max).boxed()
}

/// Inlines whose source unambiguously means what it says
pub fn items(c: &Icfg) -> BoxedStrategy<Vec<It>> {
    items_raw(c).prop_map(|v| legal(v)).boxed()
}

fn is_text(i: &Inl) -> bool {
    matches!(i, Inl::T(_) | Inl::Poss(_))
}

/// Rewrites a list of inlines such that the source is unambiguous: spans of one kind do not nest,
/// only things that can be glued together are, and nothing at the start of a line looks like a block.
pub fn legal(v: Vec<It>) -> Vec<It> {
    let mut v = fix(v, &mut vec![], true);
    // a style at the start of a line whose last character is a "]" would be a block attribute line
    let mut start = 0;
    while start < v.len() {
        let end = (start + 1..v.len()).find(|i| matches!(v[*i].g, Gap::Newline | Gap::Break | Gap::Comment)).unwrap_or(v.len());
        if v[start..end].iter().any(has_newline) {
            // lines break inside of these: keep it simple
        }
        if starts_with_bracket(&v[start]) {
            v.insert(start, It { g: v[start].g, ..t("so") });
            v[start + 1].g = Gap::Space;
            start = end + 1;
        } else {
            start = end;
        }
    }
    v
}

fn has_newline(i: &It) -> bool {
    kids(&i.i).is_some_and(|k| k.iter().enumerate().any(|(n, k)| n > 0 && k.g == Gap::Newline || has_newline(k)))
}

fn kids(i: &Inl) -> Option<&Vec<It>> {
    match i {
        Inl::Span { kids, .. } | Inl::Link(_, kids) | Inl::Foot(kids) | Inl::Quote(_, kids) => Some(kids),
        _ => None,
    }
}

fn starts_with_bracket(i: &It) -> bool {
    if i.paren {
        return false;
    }
    match &i.i {
        Inl::Span { roles, .. } => !roles.is_empty(),
        _ => false,
    }
}

fn fix(v: Vec<It>, open: &mut Vec<char>, top: bool) -> Vec<It> {
    let mut out: Vec<It> = vec![];
    let n = v.len();
    let gaps: Vec<Gap> = v.iter().map(|i| i.g).collect();
    for (k, mut it) in v.into_iter().enumerate() {
        let last = k + 1 == n;
        if k == 0 {
            it.g = Gap::Space;
        }
        it.i = match it.i {
            Inl::Span { mut v, unc, roles, kids } => {
                let mut tries = 0;
                while open.contains(&SPANS[v].1) && tries < SPANS.len() {
                    v = (v + 1) % SPANS.len();
                    tries += 1;
                }
                if tries == SPANS.len() {
                    Inl::T("deep".into())
                } else {
                    let m = SPANS[v].1;
                    open.push(m);
                    // "^" and "~" have a single form
                    let unc = unc && !['^', '~'].contains(&m);
                    let kids = fix(kids, open, false);
                    open.pop();
                    Inl::Span { v, unc, roles, kids }
                }
            }
            Inl::Link(u, kids) => Inl::Link(u, fix(kids, open, false)),
            Inl::Foot(kids) => Inl::Foot(fix(kids, open, false)),
            Inl::Quote(d, kids) => {
                // the marks of quotes are backticks, too
                let m = if d { '"' } else { '\'' };
                if (k == 0 && !top) || open.contains(&'`') || open.contains(&m) || open.contains(&'q') {
                    Inl::T("quoted".into())
                } else {
                    open.push('`');
                    open.push('q');
                    let kids = fix(kids, open, false);
                    open.pop();
                    open.pop();
                    Inl::Quote(d, kids)
                }
            }
            Inl::Poss(s) if last && !top => Inl::T(s),
            // a dash is one only between words
            Inl::Sym(7) if last || it.punct.is_some() || matches!(gaps[k + 1], Gap::Newline | Gap::Break | Gap::Comment) => Inl::Sym(3),
            Inl::Sym(DOTS) if k > 0 && !matches!(it.g, Gap::Newline | Gap::Break | Gap::Comment) || it.punct == Some('.') => Inl::Sym(3),
            Inl::Url(u) if last && !top => Inl::T(u.replace("http", "hotp").replace([':', '/', '#', '?', '&', '=', '-', '.', '_', '%', '~', '@', '+'], "x")),
            i => i,
        };
        if is_text(&it.i) {
            it.paren = false;
            it.punct = None;
        }
        if matches!(it.i, Inl::Sym(_) | Inl::Quote(..)) {
            it.paren = false;
        }
        if let (Inl::Url(_), Some(_)) = (&it.i, it.punct) {
            // punctuation directly after a url is only unambiguous at the end of a sentence
            it.punct = Some('.');
        }
        if last && !top && matches!(it.i, Inl::Url(_)) {
            it.punct = None;
        }
        if !top && it.g == Gap::Comment {
            it.g = Gap::Newline;
        }
        if it.g == Gap::Break && open.contains(&'+') {
            // its plus sign could be the end of the span
            it.g = Gap::Newline;
        }
        if !top && matches!(it.g, Gap::Newline | Gap::Break) && starts_with_bracket(&it) {
            it.g = Gap::Space;
        }
        if it.g == Gap::Glue {
            let prev = &out[k - 1];
            let glued = prev.punct.is_none() && !prev.paren && !it.paren;
            let ok = glued
                && match (&prev.i, &it.i) {
                    (Inl::T(w), Inl::Span { unc, v, .. }) => {
                        (*unc || *v == 4 || *v == 5) && w.ends_with(|c: char| c.is_alphanumeric())
                    }
                    (Inl::Span { unc, v, .. }, Inl::T(w)) => {
                        (*unc || *v == 4 || *v == 5) && w.starts_with(|c: char| c.is_alphanumeric())
                    }
                    (Inl::Span { unc: true, v: a, .. }, Inl::Span { unc: true, v: b, roles, .. }) => a != b && roles.is_empty(),
                    (Inl::T(w), Inl::Sym(_)) => w.ends_with(|c: char| c.is_alphanumeric()),
                    (Inl::T(w), Inl::Attr(_)) => w.ends_with(|c: char| c.is_alphanumeric()),
                    (Inl::Attr(_), Inl::T(w)) => w.starts_with(|c: char| c.is_alphanumeric()),
                    (Inl::Attr(_), Inl::Attr(_)) => true,
                    (Inl::Sym(_), Inl::T(w)) => w.starts_with(|c: char| c.is_ascii_alphanumeric()),
                    _ => false,
                };
            if !ok {
                it.g = Gap::Space;
            }
        }
        out.push(it);
    }
    out
}

// ------------------------------------------------------------------- blocks

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    pub id: Option<String>,
    pub roles: Vec<String>,
    pub named: Vec<(String, String)>,
    pub title: Option<Vec<It>>,
    /// order of the metadata lines
    pub order: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct B {
    pub meta: Meta,
    /// blank lines ahead of the block (beyond those required)
    pub gap: u8,
    pub b: Blk,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Blk {
    Para(Vec<It>),
    /// paragraph with an admonition label
    Adm(usize, Vec<It>),
    QuotePara { who: String, from: String, text: Vec<It> },
    Leaf { kind: usize, lang: Option<String>, lines: Vec<String> },
    Verse { who: String, from: String, lines: Vec<Option<Vec<It>>> },
    Parent { kind: usize, blocks: Vec<B> },
    Quote { who: String, from: String, blocks: Vec<B> },
    AdmBlock { kind: usize, inner: usize, blocks: Vec<B> },
    /// an admonition of a single block other than a delimited one
    AdmOver(usize, Box<B>),
    List(Lst),
    DList(Vec<DItem>),
    Image(String, String),
    Break(bool),
    Table(Tbl),
    Callouts { lines: Vec<(String, Option<u8>)>, notes: Vec<Vec<It>> },
    /// invisible: comment lines
    Comment(Vec<String>),
    /// invisible: a comment block
    CommentBlock(Vec<String>),
    /// invisible: an attribute definition
    Def(String, String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Lst {
    pub ordered: bool,
    pub items: Vec<LItem>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LItem {
    pub text: Vec<It>,
    pub blocks: Vec<B>,
    pub nested: Option<Nst>,
    /// a comment line ahead of it
    pub comment: bool,
}

/// a list inside of a list item
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Nst {
    /// on the next line
    List(Lst),
    /// attached
    Plus(Meta, Lst),
    DList(Vec<DItem>),
    /// attached, as an admonition; nothing can follow in the outer lists
    Note(usize, Lst),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DItem {
    pub term: Vec<It>,
    pub text: Vec<It>,
    pub blocks: Vec<B>,
    pub nested: Option<Nst>,
    pub comment: bool,
    /// text begins on the line below the term
    pub below: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tbl {
    pub cols: usize,
    /// how columns are declared: 0 not at all, 1 "1,2", 2 "2*", 3 "2"
    pub decl: u8,
    /// whether a blank line follows the first row
    pub header: bool,
    /// cells of a row on one line, or a line each
    pub oneline: bool,
    /// a blank line ahead of the first row
    pub lead: bool,
    pub rows: Vec<Vec<Vec<It>>>,
}

pub const ADMS: &[(&str, &str)] =
    &[("NOTE", "note"), ("TIP", "tip"), ("IMPORTANT", "important"), ("CAUTION", "caution"), ("WARNING", "warning")];
/// (name, delimiter)
pub const PARENTS: &[(&str, &str)] = &[("sidebar", "****"), ("example", "===="), ("open", "--"), ("quote", "____")];
pub const LEAFS: &[(&str, &str)] = &[("listing", "----"), ("literal", "...."), ("pass", "++++")];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sec {
    pub meta: Meta,
    pub title: Vec<It>,
    /// levels below its parent section, at least 1
    pub step: u8,
    /// text starts on the line after the heading
    pub tight: bool,
    pub blocks: Vec<B>,
    pub subs: Vec<Sec>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Doc {
    pub title: Option<Vec<It>>,
    pub attrs: Vec<(String, String)>,
    pub blocks: Vec<B>,
    pub secs: Vec<Sec>,
    /// newlines at the end of the source
    pub trail: u8,
}

// ------------------------------------------------------------------- writer

type Pos = (usize, usize);

#[derive(Default)]
pub struct W {
    pub s: String,
    line: usize,
    col: usize,
    /// where the last thing written ended
    end: Pos,
    /// leaves out what the library counts differently: a line end directly after "::"
    pub exact: bool,
    pub attrs: BTreeMap<String, String>,
    /// those defined more than once
    again: BTreeSet<String>,
    /// number of references to attributes that are defined, defined more than once, and not defined
    pub referred: (usize, usize, usize),
    /// lines (first and last) which are verbatim text, with the delimiter that ends it
    pub sealed: Vec<(usize, usize)>,
    /// blocks and sections of the document itself: where they start and end in the source, and the line they start on
    pub tops: Vec<(usize, usize, usize)>,
    /// where headings (with their level) and blocks that aren't inside of other blocks start and end
    pub flat: Vec<(usize, usize, Option<usize>)>,
}

fn loc(a: Pos, b: Pos) -> Value {
    json!([[a.0, a.1], [b.0, b.1]])
}

fn locs(v: &Value) -> (Pos, Pos) {
    let p = |i: usize| (v["location"][i][0].as_u64().unwrap_or(0) as usize, v["location"][i][1].as_u64().unwrap_or(0) as usize);
    (p(0), p(1))
}

fn text(v: &str, a: Pos, b: Pos) -> Value {
    json!({"name": "text", "value": v, "location": loc(a, b)})
}

impl W {
    pub fn new() -> Self {
        W { line: 1, col: 1, end: (1, 1), exact: true, ..Default::default() }
    }

    fn pos(&self) -> Pos {
        (self.line, self.col)
    }

    /// writes and returns where it starts and ends
    fn put(&mut self, s: &str) -> (Pos, Pos) {
        let a = self.pos();
        let mut b = a;
        for c in s.chars() {
            self.s.push(c);
            b = (self.line, self.col + c.len_utf8() - 1);
            if c == '\n' {
                self.line += 1;
                self.col = 1;
            } else {
                self.col += c.len_utf8();
            }
        }
        self.end = b;
        (a, b)
    }

    fn put_text(&mut self, s: &str, out: &mut Vec<Value>) {
        if !s.is_empty() {
            let (a, b) = self.put(s);
            out.push(text(s, a, b));
        }
    }

    fn inls(&mut self, items: &[It]) -> Vec<Value> {
        let mut out = vec![];
        for (k, it) in items.iter().enumerate() {
            if k > 0 {
                match it.g {
                    Gap::Space => self.put_text(" ", &mut out),
                    Gap::Newline => self.put_text("\n", &mut out),
                    Gap::Comment => {
                        self.put_text("\n", &mut out);
                        self.put("// left out\n");
                    }
                    Gap::Glue => {}
                    Gap::Break => {
                        self.put_text(" ", &mut out);
                        let (a, b) = self.put("+");
                        out.push(json!({"name": "linebreak", "location": loc(a, b)}));
                        self.put_text("\n", &mut out);
                    }
                }
            }
            if it.paren {
                self.put_text("(", &mut out);
            }
            self.inl(&it.i, &mut out);
            if it.paren {
                self.put_text(")", &mut out);
            }
            if let Some(p) = it.punct {
                self.put_text(&p.to_string(), &mut out);
            }
        }
        merge(out, false)
    }

    fn inl(&mut self, i: &Inl, out: &mut Vec<Value>) {
        match i {
            Inl::T(s) => self.put_text(s, out),
            Inl::Span { v, unc, roles, kids } => {
                if !roles.is_empty() {
                    self.put(&format!("[.{}]", roles.join(".")));
                }
                let (variant, m) = SPANS[*v];
                let d = if *unc { format!("{m}{m}") } else { m.to_string() };
                let (a, _) = self.put(&d);
                let k = self.inls(kids);
                let (_, b) = self.put(&d);
                let mut o = json!({"name": "span", "variant": variant, "form": if *unc {"unconstrained"} else {"constrained"}, "inlines": merge(k, true), "location": loc(a, b)});
                if !roles.is_empty() {
                    o["metadata"] = json!({"roles": roles});
                }
                out.push(o);
            }
            Inl::Url(u) => {
                let (a, b) = self.put(u);
                out.push(json!({"name": "ref", "variant": "link", "target": u, "location": loc(a, b)}));
            }
            Inl::Link(u, kids) => {
                let (a, _) = self.put(&format!("{u}["));
                let k = self.inls(kids);
                let (_, b) = self.put("]");
                out.push(json!({"name": "ref", "variant": "link", "target": u, "inlines": merge(k, true), "location": loc(a, b)}));
            }
            Inl::Xref(id) => {
                let (a, b) = self.put(&format!("<<{id}>>"));
                out.push(json!({"name": "ref", "variant": "xref", "target": id, "location": loc(a, b)}));
            }
            Inl::Foot(kids) => {
                let (a, _) = self.put("footnote:[");
                let k = self.inls(kids);
                let (_, b) = self.put("]");
                out.push(json!({"name": "span", "variant": "footnote", "form": "constrained", "inlines": merge(k, true), "location": loc(a, b)}));
            }
            Inl::Sym(n) => {
                let (a, b) = self.put(SYMS[*n].0);
                out.push(json!({"name": "charref", "value": SYMS[*n].1, "location": loc(a, b)}));
            }
            Inl::Poss(s) => {
                self.put_text(s, out);
                let (a, b) = self.put("'");
                out.push(json!({"name": "charref", "value": "&#8217;", "location": loc(a, b)}));
                self.put_text("s", out);
            }
            Inl::Attr(k) => {
                let src = format!("{{{k}}}");
                self.referred.0 += self.attrs.contains_key(k) as usize;
                self.referred.1 += self.again.contains(k) as usize;
                self.referred.2 += !self.attrs.contains_key(k) as usize;
                let v = self.attrs.get(k).cloned().unwrap_or_else(|| src.clone());
                let (a, b) = self.put(&src);
                out.push(text(&v, a, b));
            }
            Inl::Img(target, alt) => {
                let (a, b) = self.put(&format!("image:{target}[{}]", quoted(alt)));
                let mut o = json!({"name": "ref", "variant": "image", "target": target, "location": loc(a, b)});
                if !alt.is_empty() {
                    o["metadata"] = json!({"attributes": {"positional_1": alt}});
                }
                out.push(o);
            }
            Inl::Pass(s) => {
                self.put("pass:[");
                let (a, b) = self.put(s);
                self.put("]");
                if !s.is_empty() {
                    out.push(text(s, a, b));
                }
            }
            Inl::Quote(d, kids) => {
                let (o, c) = if *d { ("\"`", "`\"") } else { ("'`", "`'") };
                let (vo, vc) = if *d { ("“", "”") } else { ("‘", "’") };
                let (a, b) = self.put(o);
                out.push(text(vo, a, b));
                let k = self.inls(kids);
                out.extend(k);
                let (a, b) = self.put(c);
                out.push(text(vc, a, b));
            }
        }
    }

    fn nl(&mut self, n: usize) {
        for _ in 0..n {
            self.put("\n");
        }
    }

    /// metadata lines; `extra` is the leading part of the attribute list (e.g., "source,rust")
    fn meta(&mut self, m: &Meta, extra: Option<(String, Vec<(String, String)>)>) -> (Value, Option<Vec<Value>>) {
        let mut attributes = Map::new();
        let mut list = String::new();
        if let Some((lead, attrs)) = extra {
            list.push_str(&lead);
            for (k, v) in attrs {
                attributes.insert(k, v.into());
            }
        }
        let mut more: Vec<String> = vec![];
        if !m.roles.is_empty() {
            more.push(if m.roles.len() == 1 && m.order % 2 == 0 { format!("role={}", m.roles[0]) } else { format!("role=\"{}\"", m.roles.join(" ")) });
        }
        for (k, v) in &m.named {
            more.push(if v.contains([' ', ',']) || m.order % 3 == 0 { format!("{k}=\"{v}\"") } else { format!("{k}={v}") });
            attributes.insert(k.clone(), v.clone().into());
        }
        // attributes may be spread over lines
        let glue = if m.order & 8 != 0 { "]\n[" } else if m.order & 16 != 0 { ", " } else { "," };
        if !more.is_empty() {
            if !list.is_empty() {
                list.push_str(glue);
            }
            list.push_str(&more.join(glue));
        }
        let mut title = None;
        let mut steps = vec![0, 1, 2];
        if m.order & 1 == 1 {
            steps.swap(0, 2)
        }
        if m.order & 2 == 2 {
            steps.swap(0, 1)
        }
        for s in steps {
            match s {
                0 => {
                    if let Some(id) = &m.id {
                        self.put(&format!("[[{id}]]\n"));
                        attributes.insert("id".into(), id.clone().into());
                    }
                }
                1 => {
                    if !list.is_empty() {
                        self.put(&format!("[{list}]\n"));
                    }
                }
                _ => {
                    if let Some(t) = &m.title {
                        self.put(".");
                        title = Some(self.inls(t));
                        self.put("\n");
                    }
                }
            }
        }
        (json!({"attributes": attributes, "roles": m.roles}), title)
    }

    /// Writes a block, beginning at the start of a line; ends without a newline
    pub fn block(&mut self, b: &B) -> Vec<Value> {
        let m = &b.meta;
        match &b.b {
            Blk::Para(items) => {
                let (md, _) = self.meta(m, None);
                vec![self.para(items, md)]
            }
            Blk::Adm(k, items) => {
                let (md, title) = self.meta(m, None);
                let (label, variant) = ADMS[*k];
                let d = format!("{label}: ");
                let (a, _) = self.put(&d);
                let p = self.para(items, Value::Null);
                let e = locs(&p).1;
                vec![opt_title(json!({"name": "admonition", "variant": variant, "form": "delimited", "delimiter": d, "blocks": [p], "metadata": md, "location": loc(a, e)}), title)]
            }
            Blk::QuotePara { who, from, text } => {
                let (lead, attrs) = quote_attrs("quote", who, from);
                let (md, title) = self.meta(m, Some((lead, attrs)));
                let p = self.para(text, Value::Null);
                let (a, e) = locs(&p);
                vec![opt_title(json!({"name": "quote", "form": "delimited", "blocks": [p], "metadata": md, "location": loc(a, e)}), title)]
            }
            Blk::Leaf { kind, lang, lines } => {
                let extra = lang.as_ref().map(|l| (format!("source,{l}"), vec![("language".to_string(), l.clone())]));
                let (md, _) = self.meta(m, extra);
                let (name, d) = LEAFS[*kind];
                let (a, _) = self.put(d);
                let body = if lines.is_empty() { "\n".to_string() } else { format!("\n{}\n", lines.join("\n")) };
                let (ta, tb) = self.put(&body);
                let (_, e) = self.put(d);
                self.sealed.push((a.0 + 1, e.0));
                vec![json!({"name": name, "form": "delimited", "delimiter": d, "inlines": [text(&body, ta, tb)], "metadata": md, "location": loc(a, e)})]
            }
            Blk::Verse { who, from, lines } => {
                let (lead, attrs) = quote_attrs("verse", who, from);
                let (md, _) = self.meta(m, Some((lead, attrs)));
                let (a, _) = self.put("____");
                let mut k = vec![];
                self.nl(1);
                // the newlines at either end are not a part of the text, nor blank lines there
                let first = lines.iter().position(|l| l.is_some()).unwrap_or(0);
                let last = lines.iter().rposition(|l| l.is_some()).map_or(0, |l| l + 1);
                for (n, l) in lines[first..last].iter().enumerate() {
                    if n > 0 {
                        self.put_text("\n", &mut k);
                    }
                    if let Some(l) = l {
                        k.extend(self.inls(l));
                    }
                }
                if first < last {
                    self.nl(1);
                }
                let (_, e) = self.put("____");
                self.sealed.push((a.0 + 1, e.0));
                vec![json!({"name": "verse", "form": "delimited", "delimiter": "____", "inlines": merge(k, false), "metadata": md, "location": loc(a, e)})]
            }
            Blk::Parent { kind, blocks } => {
                let (name, d) = PARENTS[*kind];
                vec![self.parent(m, None, name, d, blocks)]
            }
            Blk::Quote { who, from, blocks } => {
                vec![self.parent(m, Some(quote_attrs("quote", who, from)), "quote", "____", blocks)]
            }
            Blk::AdmBlock { kind, inner, blocks } => {
                let (label, variant) = ADMS[*kind];
                let (md, title) = self.meta(m, None);
                let d = format!("[{label}]");
                let (a, _) = self.put(&d);
                self.nl(1);
                let (name, id) = PARENTS[*inner];
                let p = self.parent(&Meta::default(), None, name, id, blocks);
                let e = locs(&p).1;
                vec![opt_title(json!({"name": "admonition", "variant": variant, "form": "delimited", "delimiter": d, "blocks": [p], "metadata": md, "location": loc(a, e)}), title)]
            }
            Blk::AdmOver(kind, b) => {
                let (label, variant) = ADMS[*kind];
                let (md, title) = self.meta(m, None);
                let d = format!("[{label}]");
                let (a, _) = self.put(&d);
                self.nl(1);
                let k = self.block(b);
                let e = k.last().map(|k| locs(k).1).unwrap_or(self.end);
                vec![opt_title(json!({"name": "admonition", "variant": variant, "form": "delimited", "delimiter": d, "blocks": k, "metadata": md, "location": loc(a, e)}), title)]
            }
            Blk::List(l) => {
                let (md, _) = self.meta(m, None);
                vec![self.list(l, md)]
            }
            Blk::DList(items) => {
                let (md, _) = self.meta(m, None);
                vec![self.dlist(items, md)]
            }
            Blk::Image(target, alt) => {
                // attributes can be those of the macro, too
                let inside = m.order & 4 != 0;
                let (mut md, title) = self.meta(&if inside { Meta { named: vec![], roles: vec![], ..m.clone() } } else { m.clone() }, None);
                let mut list = quoted(alt);
                if inside {
                    for (k, v) in &m.named {
                        list.push_str(&format!(",{k}={}", quoted(v)));
                        md["attributes"][k] = v.clone().into();
                    }
                    if !m.roles.is_empty() {
                        list.push_str(&format!(", role=\"{}\"", m.roles.join(" ")));
                        md["roles"] = json!(m.roles);
                    }
                }
                let (a, e) = self.put(&format!("image::{target}[{list}]"));
                if !alt.is_empty() {
                    md["attributes"]["positional_1"] = alt.clone().into();
                }
                let mut o = json!({"name": "image", "form": "macro", "target": target, "metadata": md, "location": loc(a, e)});
                if let Some(t) = title {
                    o["caption"] = Value::Array(t);
                }
                vec![o]
            }
            Blk::Break(page) => {
                let (a, e) = self.put(if *page { "<<<" } else { "'''" });
                vec![json!({"name": "break", "variant": if *page {"page"} else {"thematic"}, "location": loc(a, e)})]
            }
            Blk::Table(tb) => self.table(m, tb),
            Blk::Callouts { lines, notes } => {
                let (md, _) = self.meta(m, Some(("source,c".into(), vec![("language".into(), "c".into())])));
                let (a, _) = self.put("----");
                let mut k = vec![];
                self.put_text("\n", &mut k);
                for (l, c) in lines {
                    self.put_text(l, &mut k);
                    if let Some(n) = c {
                        self.put_text(" ", &mut k);
                        let (a, b) = self.put(&format!("<{n}>"));
                        k.push(json!({"name": "span", "variant": "strong", "form": "constrained", "metadata": {"roles": ["conum"]}, "inlines": [text(&format!("({n})"), a, b)], "location": loc(a, b)}));
                    }
                    self.put_text("\n", &mut k);
                }
                let (_, e) = self.put("----");
                self.sealed.push((a.0 + 1, e.0));
                let listing = json!({"name": "listing", "form": "delimited", "delimiter": "----", "inlines": merge(k, false), "metadata": md, "location": loc(a, e)});
                let mut items = vec![];
                for (n, note) in notes.iter().enumerate() {
                    self.nl(1);
                    let (a, _) = self.put(&format!("<{}>", n + 1));
                    self.put(" ");
                    let p = self.inls(note);
                    items.push(json!({"name": "listItem", "marker": format!("<{}>", n + 1), "principal": p, "location": loc(a, self.end)}));
                }
                let mut out = vec![listing];
                if !items.is_empty() {
                    let a = locs(&items[0]).0;
                    out.push(json!({"name": "list", "marker": ".", "variant": "ordered", "items": items, "metadata": {"roles": ["colist"]}, "location": loc(a, self.end)}));
                }
                out
            }
            Blk::Comment(lines) => {
                let l: Vec<String> = lines.iter().map(|l| format!("// {l}")).collect();
                self.put(&l.join("\n"));
                vec![]
            }
            Blk::CommentBlock(lines) => {
                let mut s = "////\n".to_string();
                for l in lines {
                    s.push_str(l);
                    s.push('\n');
                }
                s.push_str("////");
                let (a, e) = self.put(&s);
                self.sealed.push((a.0 + 1, e.0));
                vec![]
            }
            Blk::Def(k, v) => {
                self.put(format!(":{k}: {v}").trim_end());
                self.define(k, v);
                vec![]
            }
        }
    }

    fn define(&mut self, k: &str, v: &str) {
        if self.attrs.insert(k.to_string(), v.to_string()).is_some() {
            self.again.insert(k.to_string());
        }
    }

    fn para(&mut self, items: &[It], md: Value) -> Value {
        let a = self.pos();
        let k = self.inls(items);
        let e = self.end;
        let mut o = json!({"name": "paragraph", "inlines": k, "location": loc(a, e)});
        if !md.is_null() {
            o["metadata"] = md;
        }
        o
    }

    fn parent(&mut self, m: &Meta, extra: Option<(String, Vec<(String, String)>)>, name: &str, d: &str, blocks: &[B]) -> Value {
        let (md, title) = self.meta(m, extra);
        let (a, _) = self.put(d);
        self.nl(1);
        let k = self.blocks(blocks, true);
        if !blocks.is_empty() {
            self.nl(1);
        }
        let (_, e) = self.put(d);
        opt_title(json!({"name": name, "form": "delimited", "delimiter": d, "blocks": k, "metadata": md, "location": loc(a, e)}), title)
    }

    fn dlist(&mut self, items: &[DItem], md: Value) -> Value {
        let mut out = vec![];
        for (k, i) in items.iter().enumerate() {
            if k > 0 {
                self.nl(1);
                if i.comment {
                    self.put("// ahead of a term\n");
                }
            }
            let terms = self.inls(&i.term);
            let a = locs(&terms[0]).0;
            self.put(if i.below && !self.exact { "::\n" } else { ":: " });
            let text = self.inls(&i.text);
            let mut blocks = vec![];
            for b in &i.blocks {
                self.put("\n+\n");
                blocks.extend(self.block(b));
            }
            blocks.extend(self.nest(&i.nested));
            out.push(json!({"name": "dlistItem", "marker": "::", "terms": terms, "principal": text, "blocks": blocks, "location": loc(a, self.end)}));
        }
        let a = locs(&out[0]).0;
        let mut o = json!({"name": "dlist", "marker": "::", "items": out, "location": loc(a, self.end)});
        if !md.is_null() {
            o["metadata"] = md;
        }
        o
    }

    fn nest(&mut self, n: &Option<Nst>) -> Vec<Value> {
        match n {
            None => vec![],
            Some(Nst::List(l)) => {
                self.nl(1);
                vec![self.list(l, Value::Null)]
            }
            Some(Nst::Plus(m, l)) => {
                self.put("\n+\n");
                let (md, _) = self.meta(m, None);
                vec![self.list(l, md)]
            }
            Some(Nst::DList(items)) => {
                self.put("\n+\n");
                vec![self.dlist(items, Value::Null)]
            }
            Some(Nst::Note(kind, l)) => {
                self.put("\n+\n");
                let meta = Meta::default();
                self.block(&B { meta: meta.clone(), gap: 0, b: Blk::AdmOver(*kind, Box::new(B { meta, gap: 0, b: Blk::List(l.clone()) })) })
            }
        }
    }

    fn list(&mut self, l: &Lst, md: Value) -> Value {
        let marker = if l.ordered { "." } else { "*" };
        let mut out = vec![];
        for (k, i) in l.items.iter().enumerate() {
            if k > 0 {
                self.nl(1);
                if i.comment {
                    self.put("// ahead of an item\n");
                }
            }
            let (a, _) = self.put(marker);
            self.put(" ");
            let p = self.inls(&i.text);
            let mut blocks = vec![];
            for b in &i.blocks {
                self.put("\n+\n");
                blocks.extend(self.block(b));
            }
            blocks.extend(self.nest(&i.nested));
            out.push(json!({"name": "listItem", "marker": marker, "principal": p, "blocks": blocks, "location": loc(a, self.end)}));
        }
        let a = locs(&out[0]).0;
        let mut o = json!({"name": "list", "marker": marker, "variant": if l.ordered {"ordered"} else {"unordered"}, "items": out, "location": loc(a, self.end)});
        if !md.is_null() {
            o["metadata"] = md;
        }
        o
    }

    fn table(&mut self, m: &Meta, tb: &Tbl) -> Vec<Value> {
        let mut m2 = m.clone();
        match tb.decl {
            1 => m2.named.push(("cols".into(), vec!["1"; tb.cols].join(","))),
            2 => m2.named.push(("cols".into(), format!("{}*", tb.cols))),
            3 => m2.named.push(("cols".into(), tb.cols.to_string())),
            4 => m2.named.push(("cols".into(), format!("{}*{}", tb.cols, ["^", "<2", ">1m"][tb.cols % 3]))),
            5 if tb.cols > 1 => {
                // of all kinds
                let kinds = ["1", "^2", "25", "<.^1a", "2*", ">1"];
                let mut cols = vec![];
                let mut n = 0;
                while n < tb.cols {
                    let k = kinds[(tb.rows.len() + cols.len()) % kinds.len()];
                    let k = if k == "2*" && n + 2 > tb.cols { "1" } else { k };
                    n += if k == "2*" { 2 } else { 1 };
                    cols.push(k);
                }
                if cols.len() == 1 {
                    cols = vec!["1", "1"];
                }
                m2.named.push(("cols".into(), cols.join(",")))
            }
            5 => m2.named.push(("cols".into(), "1*".into())),
            _ => {}
        }
        let (mut md, title) = self.meta(&m2, None);
        md["attributes"]["cols"] = tb.cols.to_string().into();
        if tb.oneline && tb.cols > 1 && !tb.lead {
            // a first row of several cells directly below the delimiter is the header
            md["options"] = json!(["header"]);
        }
        let (a, _) = self.put("|===");
        self.nl(1);
        if tb.lead {
            self.nl(1);
        }
        let mut cells = vec![];
        for (r, row) in tb.rows.iter().enumerate() {
            for (c, cell) in row.iter().enumerate() {
                let (a, _) = self.put("|");
                let mut k = self.inls(cell);
                if tb.oneline && c + 1 < row.len() {
                    self.put_text(" ", &mut k);
                }
                let e = self.end;
                cells.push(json!({"name": "tableCell", "inlines": merge(k, false), "location": loc(a, e)}));
                if !tb.oneline {
                    self.nl(1);
                }
            }
            if tb.oneline {
                self.nl(1);
            }
            if r == 0 && tb.header {
                self.nl(1);
            }
        }
        let (_, e) = self.put("|===");
        vec![opt_title(json!({"name": "table", "form": "delimited", "delimiter": "|===", "blocks": cells, "metadata": md, "location": loc(a, e)}), title)]
    }

    /// A sequence of blocks; ends without a newline
    pub fn blocks(&mut self, bs: &[B], first_line: bool) -> Vec<Value> {
        let mut out = vec![];
        for (k, b) in bs.iter().enumerate() {
            if k > 0 {
                self.nl(2 + b.gap as usize);
            } else if !first_line {
                self.nl(1 + b.gap as usize);
            }
            out.extend(self.block(b));
        }
        out
    }

    fn section(&mut self, s: &Sec, level: usize) -> Value {
        let at = self.s.len();
        let (md, _) = self.meta(&s.meta, None);
        let (a, _) = self.put(&format!("{} ", "=".repeat(level + 1)));
        let title = self.inls(&s.title);
        self.flat.push((at, self.s.len(), Some(level)));
        let mut blocks = vec![];
        for (k, b) in s.blocks.iter().enumerate() {
            let gap = if k == 0 && s.tight { 1 } else { 2 + b.gap as usize };
            self.nl(gap);
            let at = self.s.len();
            blocks.extend(self.block(b));
            match self.flat.last_mut() {
                // not a place to divide the document
                Some(heading) if gap == 1 => heading.1 = self.s.len(),
                _ => self.flat.push((at, self.s.len(), None)),
            }
        }
        if level < 4 {
            let sublevel = step(level, &s.subs);
            for sub in &s.subs {
                self.nl(2);
                blocks.push(self.section(sub, sublevel));
            }
        }
        let e = blocks.iter().rev().map(|b| locs(b).1).next().unwrap_or_else(|| title.last().map(|t| locs(t).1).unwrap_or(a));
        json!({"name": "section", "title": title, "level": level, "blocks": blocks, "metadata": md, "location": loc(a, e)})
    }

    pub fn raw(&mut self, s: &str) {
        self.put(s);
    }

    /// A heading and the blocks below it, each followed by a blank line
    pub fn heading(&mut self, level: usize, title: &[It], body: &[B]) -> (Vec<Value>, Vec<Value>) {
        self.put(&format!("{} ", "=".repeat(level + 1)));
        let t = self.inls(title);
        self.nl(2);
        let mut blocks = vec![];
        for b in body {
            blocks.extend(self.block(b));
            self.nl(2 + b.gap as usize);
        }
        (t, blocks)
    }

    pub fn doc(&mut self, d: &Doc) -> Value {
        let mut o = json!({"name": "document"});
        let mut first = true;
        if let Some(title) = &d.title {
            let (a, _) = self.put("= ");
            let ti = self.inls(title);
            o["header"] = json!({"title": ti, "location": loc(a, self.end)});
            let mut attrs = Map::new();
            for (k, v) in &d.attrs {
                self.nl(1);
                self.put(&if v.is_empty() { format!(":{k}:") } else { format!(":{k}: {v}") });
                attrs.insert(k.clone(), v.clone().into());
                self.define(k, v);
            }
            o["attributes"] = Value::Object(attrs);
            first = false;
        }
        let mut blocks: Vec<Value> = vec![];
        for b in &d.blocks {
            if !first {
                self.nl(2 + b.gap as usize);
            }
            first = false;
            let (at, line) = (self.s.len(), self.line);
            blocks.extend(self.block(b));
            self.tops.push((at, self.s.len(), line));
            self.flat.push((at, self.s.len(), None));
        }
        for s in &d.secs {
            if !first {
                self.nl(2);
            }
            first = false;
            let (at, line) = (self.s.len(), self.line);
            blocks.push(self.section(s, step(0, &d.secs)));
            self.tops.push((at, self.s.len(), line));
        }
        self.nl(d.trail as usize);
        o["blocks"] = Value::Array(blocks);
        o
    }
}

/// the level of sections below one of the given level: siblings are at the same level
fn step(level: usize, secs: &[Sec]) -> usize {
    (level + secs.first().map(|s| s.step.max(1) as usize).unwrap_or(1)).min(4)
}

fn opt_title(mut o: Value, t: Option<Vec<Value>>) -> Value {
    if let Some(t) = t {
        o["title"] = Value::Array(t);
    }
    o
}

/// a value in a list of attributes, in quotes if it has to be, and now and then if it hasn't
fn quoted(s: &str) -> String {
    if s.contains([',', '=']) || s.len() % 7 == 5 { format!("\"{s}\"") } else { s.to_string() }
}

fn quote_attrs(kind: &str, who: &str, from: &str) -> (String, Vec<(String, String)>) {
    let mut lead = kind.to_string();
    let mut attrs = vec![];
    if !who.is_empty() {
        lead.push_str(&format!(", {}", quoted(who)));
        attrs.push(("attribution".to_string(), who.to_string()));
        if !from.is_empty() {
            lead.push_str(&format!(", {}", quoted(from)));
            attrs.push(("citation".to_string(), from.to_string()));
        }
    }
    (lead, attrs)
}

/// joins neighbouring text (and, in spans, replaced characters, which are not kept apart there)
pub fn merge(v: Vec<Value>, in_span: bool) -> Vec<Value> {
    let mut out: Vec<Value> = vec![];
    for mut x in v {
        if in_span && x["name"] == "charref" {
            x["name"] = "text".into();
        }
        if x["name"] == "text" {
            if let Some(l) = out.last_mut() {
                if l["name"] == "text" {
                    let s = format!("{}{}", l["value"].as_str().unwrap_or(""), x["value"].as_str().unwrap_or(""));
                    l["value"] = s.into();
                    let e = x["location"][1].clone();
                    l["location"][1] = e;
                    continue;
                }
            }
        }
        out.push(x);
    }
    out
}

// --------------------------------------------------------------- comparison

/// Brings a graph into the form that the model states: neighbouring text joined, empty members
/// dropped, locations as pairs, and without where metadata was.
pub fn canon(v: &Value) -> Value {
    canon_in(v, false)
}

fn canon_in(v: &Value, in_span: bool) -> Value {
    match v {
        Value::Object(m) => {
            let mut o = Map::new();
            let inline = matches!(v["name"].as_str(), Some("span") | Some("ref"));
            for (k, x) in m {
                if k == "type" || k == "node_type" {
                    continue;
                }
                if k == "location" {
                    let l: Vec<Value> = x
                        .as_array()
                        .map(|a| a.iter().map(|p| if p.is_array() { p.clone() } else { json!([p["line"], p["col"]]) }).collect())
                        .unwrap_or_default();
                    o.insert(k.clone(), Value::Array(l));
                    continue;
                }
                if k == "metadata" {
                    let mut md = Map::new();
                    if let Some(mm) = x.as_object() {
                        for (mk, mv) in mm {
                            let empty = mv.as_object().is_some_and(|o| o.is_empty()) || mv.as_array().is_some_and(|a| a.is_empty());
                            if mk != "location" && !empty && !mv.is_null() {
                                md.insert(mk.clone(), mv.clone());
                            }
                        }
                    }
                    if !md.is_empty() {
                        o.insert(k.clone(), Value::Object(md));
                    }
                    continue;
                }
                let x = match x {
                    Value::Array(a) => {
                        let a: Vec<Value> = a.iter().map(|y| canon_in(y, inline)).collect();
                        Value::Array(merge(a, inline || in_span))
                    }
                    Value::Object(_) => canon_in(x, false),
                    _ => x.clone(),
                };
                let empty = x.as_object().is_some_and(|o| o.is_empty()) || x.as_array().is_some_and(|a| a.is_empty()) || x.is_null();
                if !empty {
                    o.insert(k.clone(), x);
                }
            }
            Value::Object(o)
        }
        x => x.clone(),
    }
}

/// drops the given members everywhere
pub fn strip(v: &Value, drop: &[&str]) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().filter(|(k, _)| !drop.contains(&k.as_str())).map(|(k, x)| (k.clone(), strip(x, drop))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(|x| strip(x, drop)).collect()),
        x => x.clone(),
    }
}

/// First difference as (signature, message); the signature names kinds, not positions
pub fn diff(exp: &Value, act: &Value) -> Option<(String, String)> {
    diff_at(exp, act, "", "")
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    let cut = s.char_indices().nth(400).map(|(i, _)| i).unwrap_or(s.len());
    s[..cut].to_string()
}

fn diff_at(e: &Value, a: &Value, kind: &str, path: &str) -> Option<(String, String)> {
    match (e, a) {
        (Value::Object(x), Value::Object(y)) => {
            let n = x.get("name").and_then(|n| n.as_str()).unwrap_or("");
            let kind = if n.is_empty() { kind.to_string() } else { n.to_string() };
            if x.get("name") != y.get("name") {
                return Some((format!("{kind} where {} expected", y.get("name").map(short).unwrap_or_default()), format!("at {path}: expected {} but got {}", short(e), short(a))));
            }
            for (k, xv) in x {
                match y.get(k) {
                    Some(yv) => {
                        if let Some(d) = diff_at(xv, yv, &kind, &format!("{path}/{k}")) {
                            return Some((if d.0.contains(' ') { d.0 } else { format!("{kind} {k}") }, d.1));
                        }
                    }
                    None => return Some((format!("{kind} lacks {k}"), format!("at {path}: no {k}, expected {}", short(xv)))),
                }
            }
            for (k, yv) in y {
                if !x.contains_key(k) {
                    return Some((format!("{kind} has extra {k}"), format!("at {path}: unexpected {k}: {}", short(yv))));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            for (k, (xv, yv)) in x.iter().zip(y.iter()).enumerate() {
                if let Some(d) = diff_at(xv, yv, kind, &format!("{path}/{k}")) {
                    return Some(d);
                }
            }
            if x.len() != y.len() {
                let extra = if x.len() > y.len() { &x[y.len()] } else { &y[x.len()] };
                return Some((format!("{kind} has {} children", if x.len() > y.len() { "too few" } else { "too many" }), format!("at {path}: expected {} but got {}; first: {}", x.len(), y.len(), short(extra))));
            }
            None
        }
        _ => {
            if e == a {
                None
            } else {
                Some(("x".into(), format!("at {path}: expected {} but got {}", short(e), short(a))))
            }
        }
    }
}
