//! Generators of blocks, sections and documents of the model.
use crate::doc::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::Union;

/// Which blocks to generate (relative weights), and what text they contain
#[derive(Clone, Debug)]
pub struct Bcfg {
    pub para: u32,
    pub adm: u32,
    pub quote_para: u32,
    pub leaf: u32,
    pub verse: u32,
    pub parent: u32,
    pub quote: u32,
    pub adm_block: u32,
    pub list: u32,
    pub dlist: u32,
    pub image: u32,
    pub brk: u32,
    pub table: u32,
    pub callouts: u32,
    pub comment: u32,
    pub comment_block: u32,
    /// definitions of the attributes that the text refers to
    pub def: u32,
    /// chance (in percent) of metadata and titles
    pub meta: u32,
    pub depth: u32,
    pub max: usize,
    pub text: Icfg,
}

impl Bcfg {
    pub fn none() -> Self {
        Bcfg {
            para: 0, adm: 0, quote_para: 0, leaf: 0, verse: 0, parent: 0, quote: 0, adm_block: 0, list: 0, dlist: 0,
            image: 0, brk: 0, table: 0, callouts: 0, comment: 0, comment_block: 0, def: 0, meta: 0, depth: 2, max: 4, text: Icfg::plain(),
        }
    }
    pub fn paras() -> Self {
        Bcfg { para: 1, ..Self::none() }
    }
    pub fn all() -> Self {
        Bcfg {
            para: 6, adm: 2, quote_para: 1, leaf: 3, verse: 1, parent: 3, quote: 1, adm_block: 1, list: 3, dlist: 2,
            image: 1, brk: 1, table: 2, callouts: 1, comment: 1, comment_block: 1, meta: 20, ..Self::none()
        }
    }
    fn inner(&self) -> Self {
        Bcfg { depth: self.depth - 1, max: 3, ..self.clone() }
    }
}

pub fn meta(pct: u32, title: Option<Icfg>) -> BoxedStrategy<Meta> {
    if pct == 0 {
        return Just(Meta::default()).boxed();
    }
    let p = pct as f64 / 100.0;
    let titles = match title {
        Some(c) => proptest::option::weighted(p, items(&c.oneline()).prop_map(title_text)).boxed(),
        None => Just(None).boxed(),
    };
    (
        proptest::option::weighted(p, id_name()),
        prop_oneof![100 - pct => Just(vec![]), pct => vec(id_name(), 1..3)],
        prop_oneof![100 - pct => Just(vec![]), pct => vec((proptest::sample::select(vec!["k", "width", "data-x", "name"]), prop_oneof![3 => "[a-z0-9]{1,4}( [a-z]{1,2})?", 1 => "[a-zé漢]{1,3}(, ?[a-z0-9]{1,2}){1,2}", 1 => "[-A-Z.:;!?'()*_/&<>|#%+=^~`@$é]{1,5}"]), 1..3)],
        titles,
        0u8..32,
    )
        .prop_map(|(id, roles, named, title, order)| {
            let mut seen = vec![];
            let named = named
                .into_iter()
                .filter(|(k, _)| {
                    let new = !seen.contains(k);
                    seen.push(*k);
                    new
                })
                .map(|(k, v)| (k.to_string(), v))
                .collect();
            Meta { id, roles, named, title, order }
        })
        .boxed()
}

/// titles are written after a "." so they have to begin with something that isn't a space or a dot
fn title_text(v: Vec<It>) -> Vec<It> {
    let mut v = v;
    v.insert(0, t("On"));
    legal(v)
}

/// Lines of verbatim text: anything, except for what ends the block or is a directive
pub fn verbatim_line() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[ -~]{0,24}",
        2 => proptest::sample::select(vec![
            "", "", "  indented", "* not a list", "== not a heading", "// not a comment", "[not]", ".not", "|===", "****",
            "====", "____", "'''", "<<<", "NOTE: no", "*b* _i_ `m`", "a -- b", "(C) ...", "it's", "\"`q`\"", "{nope}", "{a}", "&amp;", "<<x>>",
            "http://x.com[t]", "footnote:[f]", "term:: x", "+", "\ttab", "trailing  ", "x = a[i] ** 2;", "image::a.png[]", "[[id]]",
            "[source,rust]", ":a: b", "--", "...", "a + b", "pass:[x]", "<b>&</b>", "|a |b", "[.r]#x#", "\\n", "////",
            "/* c */", "# c", "'quoted'", "a <1> b", "<x>",
        ]).prop_map(|s| s.to_string()),
        1 => "[ a-zäöüλ漢🦀]{0,8}",
    ]
    .prop_map(|s| clean_verbatim(&s))
    .boxed()
}

pub fn clean_verbatim(s: &str) -> String {
    // directives and callouts mean something in verbatim blocks, too
    let mut s = s.to_string();
    for d in ["tag:", "end:", "include:"] {
        while s.contains(&format!("{d}:")) {
            s = s.replace(&format!("{d}:"), d);
        }
    }
    // the attributes of an image could go on in the next line
    if s.rfind("image:").is_some_and(|i| s[i..].contains('[') && !s[i..].contains(']')) {
        s.push(']');
    }
    // (a carriage return ahead of the end of the line belongs to the end of the line, see C29)
    let b = s.as_bytes();
    if b.last() == Some(&b'\r') || b.last() == Some(&b'>') || s.ends_with("::") {
        s.push('.');
    }
    s
}

pub fn not_delim(d: &'static str, lines: Vec<String>) -> Vec<String> {
    lines.into_iter().map(|l| if l == d { format!("{d} ") } else { l }).collect()
}

fn name_text() -> BoxedStrategy<String> {
    prop_oneof![4 => "[A-Z][a-z]{1,5}( [A-Z][a-zé]{1,4})?", 1 => "[A-Z][a-z]{1,5}(, [A-Z]\\.){1,2}", 1 => "[A-Zλ漢][-a-z.:;!?'()*_/&<>|]{1,5}"].boxed()
}

/// Lists nest by changing markers, so there are as many levels as there are markers
#[derive(Clone, Copy)]
struct Nesting {
    depth: u32,
    starred: bool,
    numbered: bool,
    described: bool,
    /// nothing follows in the outer lists
    note: bool,
}

pub fn lst(c: &Bcfg) -> BoxedStrategy<Lst> {
    lst_in(c, Nesting { depth: 2, starred: true, numbered: true, described: true, note: true })
}

fn lst_in(c: &Bcfg, n: Nesting) -> BoxedStrategy<Lst> {
    let o = match (n.starred, n.numbered) {
        (true, true) => any::<bool>().boxed(),
        (s, _) => Just(!s).boxed(),
    };
    let c = c.clone();
    o.prop_flat_map(move |ordered| {
        let mut m = Nesting { depth: n.depth - 1, note: false, ..n };
        *if ordered { &mut m.numbered } else { &mut m.starred } = false;
        let item = (items(&c.text), attached(&c), nested(&c, m), proptest::bool::weighted(0.1))
            .prop_map(|(text, blocks, nested, comment)| LItem { text, blocks, nested, comment });
        let note = if n.note && m.depth > 0 && c.adm_block > 0 && (m.starred || m.numbered) {
            proptest::option::weighted(0.1, (0..5usize, lst_in(&c, m))).boxed()
        } else {
            Just(None).boxed()
        };
        (vec(item, 1..4), note)
            .prop_map(move |(mut items, note)| {
                if let (Some(i), Some((kind, l))) = (items.last_mut(), note) {
                    i.nested = Some(Nst::Note(kind, l));
                }
                Lst { ordered, items }
            })
            .boxed()
    })
    .boxed()
}

fn nested(c: &Bcfg, n: Nesting) -> BoxedStrategy<Option<Nst>> {
    let mut alts: Vec<(u32, BoxedStrategy<Nst>)> = vec![];
    if n.depth > 0 && (n.starred || n.numbered) {
        let l = lst_in(c, n);
        alts.push((3, l.clone().prop_map(Nst::List).boxed()));
        alts.push((1, (meta(c.meta, None), l).prop_map(|(m, l)| Nst::Plus(m, l)).boxed()));
    }
    if n.depth > 0 && n.described && c.dlist > 0 {
        alts.push((1, dlist_in(c, n).prop_map(Nst::DList).boxed()));
    }
    if alts.is_empty() {
        return Just(None).boxed();
    }
    proptest::option::weighted(0.25, Union::new_weighted(alts)).boxed()
}

fn attached(c: &Bcfg) -> BoxedStrategy<Vec<B>> {
    if c.depth > 0 {
        let inner = Bcfg { list: 0, dlist: 0, callouts: 0, comment: 0, comment_block: 0, def: 0, brk: 0, ..c.inner() };
        prop_oneof![4 => Just(vec![]), 1 => vec(block(&inner), 1..3)].boxed()
    } else {
        Just(vec![]).boxed()
    }
}

pub fn dlist(c: &Bcfg) -> BoxedStrategy<Vec<DItem>> {
    dlist_in(c, Nesting { depth: 2, starred: true, numbered: true, described: true, note: false })
}

fn dlist_in(c: &Bcfg, n: Nesting) -> BoxedStrategy<Vec<DItem>> {
    let m = Nesting { depth: n.depth - 1, described: false, ..n };
    let lists = if c.list > 0 { nested(c, m) } else { Just(None).boxed() };
    let item = (items(&c.text.clone().oneline()).prop_map(term), items(&c.text), attached(c), lists, proptest::bool::weighted(0.1), proptest::bool::weighted(0.2))
        .prop_map(|(term, text, blocks, nested, comment, below)| DItem { term, text, blocks, nested, comment, below });
    vec(item, 1..4).boxed()
}

fn term(mut v: Vec<It>) -> Vec<It> {
    v.insert(0, t("Key"));
    if let Some(Inl::Url(_) | Inl::Poss(_)) = v.last().map(|i| &i.i) {
        // the marker of the item would be a part of it, or there is no possessive
        v.push(t("end"));
    }
    legal(v)
}

pub fn no_pipe(v: Vec<It>) -> Vec<It> {
    v.into_iter()
        .map(|mut i| {
            match &mut i.i {
                Inl::T(s) => *s = s.replace('|', "/"),
                Inl::Span { kids, .. } | Inl::Link(_, kids) | Inl::Foot(kids) | Inl::Quote(_, kids) => *kids = no_pipe(std::mem::take(kids)),
                _ => {}
            }
            i
        })
        .collect()
}

pub fn table(c: &Bcfg) -> BoxedStrategy<Tbl> {
    let cell = items(&Icfg { max: 2, ..c.text.clone() }.oneline()).prop_map(no_pipe).boxed();
    (prop_oneof![16 => 1usize..4, 3 => 4usize..9, 1 => 9usize..14], 0u8..6, any::<bool>(), any::<bool>(), any::<bool>(), 1usize..4)
        .prop_flat_map(move |(cols, decl, header, oneline, lead, rows)| {
            // without a declaration the first row tells how many columns there are
            let oneline = oneline || decl == 0;
            vec(vec(cell.clone(), cols..=cols), rows..=rows).prop_map(move |rows| Tbl { cols, decl, header, oneline, lead, rows })
        })
        .boxed()
}

/// Values of attributes: any text, which isn't markup
pub fn def_value() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        4 => "[a-z0-9]{1,5}( [a-z:]{1,4})?",
        2 => proptest::sample::select(vec![
            "*b*", "_i_ it", "a::b", "x:: y", "http://x.com/a?b=c", "1 < 2 & 3", "(C) 2024", "a--b", "[.x]#y#", "|", "* item", "== no", "it's", "<<id>>",
            ". dot", "'q'", ":x: y", "größe 漢字", "🦀", "1.0", "+", "footnote:[x]", "a  b", "\\", "%20", "#", "include::x[]", "// c", "----",
        ]).prop_map(|s| s.to_string()),
        1 => "[!-z|~]{1,8}( [!-z|~]{1,4})?",
    ]
    .boxed()
}

pub fn blk(c: &Bcfg) -> BoxedStrategy<B> {
    let mut alts: Vec<(u32, BoxedStrategy<B>)> = vec![];
    let tx = items(&c.text);
    let m = meta(c.meta, None);
    let mt = meta(c.meta, Some(Icfg { max: 2, ..c.text.clone() }));
    let mk = |m: Meta, b: Blk| B { meta: m, gap: 0, b };
    alts.push((c.para, (m.clone(), tx.clone()).prop_map(move |(m, t)| mk(m, Blk::Para(t))).boxed()));
    alts.push((c.adm, (mt.clone(), 0..5usize, tx.clone()).prop_map(move |(m, k, t)| mk(m, Blk::Adm(k, t))).boxed()));
    let who = || (prop_oneof![1 => Just(String::new()), 2 => name_text()], prop_oneof![Just(String::new()), name_text()]).prop_map(|(a, b)| if a.is_empty() { (a, String::new()) } else { (a, b) });
    alts.push((c.quote_para, (m.clone(), who(), tx.clone()).prop_map(move |(m, (who, from), text)| mk(m, Blk::QuotePara { who, from, text })).boxed()));
    alts.push((
        c.leaf,
        (m.clone(), 0..3usize, proptest::option::weighted(0.3, "[a-z]{1,4}"), vec(verbatim_line(), 0..6))
            .prop_map(move |(m, kind, lang, lines)| {
                let lang = if kind == 0 { lang } else { None };
                mk(m, Blk::Leaf { kind, lang, lines: not_delim(LEAFS[kind].1, lines) })
            })
            .boxed(),
    ));
    // verses are formatted, but references and macros stay as they are
    let vtext = if c.text.span > 0 { Icfg::spans() } else { Icfg::plain() };
    let vline = proptest::option::weighted(0.8, items(&vtext.oneline()));
    alts.push((
        c.verse,
        (mt.clone(), who(), vec(vline, 1..5)).prop_map(move |(m, (who, from), lines)| mk(m, Blk::Verse { who, from, lines })).boxed(),
    ));
    alts.push((c.image, (mt.clone(), image_name(), prop_oneof![5 => image_text(), 1 => "[a-z]{1,2} ?[|+#^~$%@{}] ?[a-z]{0,2}".prop_map(|s| s.trim().to_string())]).prop_map(move |(m, a, b)| mk(m, Blk::Image(a, b))).boxed()));
    alts.push((c.brk, any::<bool>().prop_map(move |p| mk(Meta::default(), Blk::Break(p))).boxed()));
    alts.push((c.comment, vec(verbatim_line().prop_map(|l| l.replace("tag::", "").replace("end::", "")), 1..3).prop_map(move |l| mk(Meta::default(), Blk::Comment(l))).boxed()));
    alts.push((c.comment_block, vec(verbatim_line(), 0..4).prop_map(move |l| mk(Meta::default(), Blk::CommentBlock(not_delim("////", l)))).boxed()));
    if c.def > 0 {
        let names = proptest::sample::select(c.text.attrs.clone());
        alts.push((c.def, (names, def_value()).prop_map(move |(k, v)| mk(Meta::default(), Blk::Def(k, v))).boxed()));
    }
    if c.table > 0 {
        alts.push((c.table, (mt.clone(), table(c)).prop_map(move |(m, t)| mk(m, Blk::Table(t))).boxed()));
    }
    if c.callouts > 0 {
        let line = ("[a-z(){} ]{0,6}[a-z;]", proptest::option::weighted(0.5, 1u8..4));
        alts.push((c.callouts, (m.clone(), vec(line, 1..4), vec(items(&c.text), 0..4)).prop_map(move |(m, lines, notes)| mk(m, Blk::Callouts { lines: lines.into_iter().map(|(l, c)| (clean_verbatim(&l), c)).collect(), notes })).boxed()));
    }
    if c.list > 0 {
        alts.push((c.list, (m.clone(), lst(c)).prop_map(move |(m, l)| mk(m, Blk::List(l))).boxed()));
    }
    if c.dlist > 0 {
        alts.push((c.dlist, (m.clone(), dlist(c)).prop_map(move |(m, l)| mk(m, Blk::DList(l))).boxed()));
    }
    if c.depth > 0 {
        let kids = vec(block(&c.inner()), 0..=c.inner().max).boxed();
        let some = vec(block(&c.inner()), 1..=c.inner().max).boxed();
        alts.push((c.parent, (mt.clone(), 0..4usize, kids.clone()).prop_map(move |(m, kind, blocks)| mk(m, Blk::Parent { kind, blocks })).boxed()));
        alts.push((c.quote, (mt.clone(), who(), some.clone()).prop_map(move |(m, (who, from), blocks)| mk(m, Blk::Quote { who, from, blocks })).boxed()));
        alts.push((c.adm_block, (mt.clone(), 0..5usize, 1..3usize, some).prop_map(move |(m, kind, inner, blocks)| mk(m, Blk::AdmBlock { kind, inner, blocks })).boxed()));
    }
    if c.adm_block > 0 {
        let mut one: Vec<BoxedStrategy<B>> = vec![
            (m.clone(), tx.clone()).prop_map(move |(m, t)| mk(m, Blk::Para(t))).boxed(),
            (0..3usize, vec(verbatim_line(), 0..4)).prop_map(move |(kind, lines)| mk(Meta::default(), Blk::Leaf { kind, lang: None, lines: not_delim(LEAFS[kind].1, lines) })).boxed(),
            image_name().prop_map(move |t| mk(Meta::default(), Blk::Image(t, String::new()))).boxed(),
        ];
        if c.list > 0 {
            one.push(lst(c).prop_map(move |l| mk(Meta::default(), Blk::List(l))).boxed());
        }
        if c.dlist > 0 {
            one.push(dlist(c).prop_map(move |l| mk(Meta::default(), Blk::DList(l))).boxed());
        }
        if c.table > 0 {
            one.push(table(c).prop_map(move |t| mk(Meta::default(), Blk::Table(t))).boxed());
        }
        alts.push((c.adm_block, (mt.clone(), 0..5usize, Union::new(one)).prop_map(move |(m, kind, b)| mk(m, Blk::AdmOver(kind, Box::new(b)))).boxed()));
    }
    let alts: Vec<_> = alts.into_iter().filter(|a| a.0 > 0).collect();
    Union::new_weighted(alts).boxed()
}

pub fn block(c: &Bcfg) -> BoxedStrategy<B> {
    (blk(c), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]).prop_map(|(mut b, gap)| {
        b.gap = gap;
        b
    })
    .boxed()
}

/// Rewrites nested blocks so that no delimited block contains one with its own delimiter (they
/// would end each other), and neighbouring blocks do not run into each other
pub fn tidy(blocks: Vec<B>, open: &mut Vec<&'static str>) -> Vec<B> {
    let mut out: Vec<B> = vec![];
    for mut b in blocks {
        b.b = match b.b {
            Blk::Parent { kind, blocks } => match free(kind, open) {
                Some(kind) => {
                    open.push(PARENTS[kind].1);
                    let blocks = tidy(blocks, open);
                    open.pop();
                    Blk::Parent { kind, blocks }
                }
                None => Blk::Para(vec![t("full")]),
            },
            Blk::Quote { who, from, blocks } => {
                if open.contains(&"____") {
                    Blk::Para(vec![t("full")])
                } else {
                    open.push("____");
                    let blocks = tidy(blocks, open);
                    open.pop();
                    Blk::Quote { who, from, blocks }
                }
            }
            Blk::Verse { .. } if open.contains(&"____") => Blk::Para(vec![t("full")]),
            Blk::AdmBlock { kind, inner, blocks } => {
                if open.contains(&PARENTS[inner].1) {
                    Blk::Para(vec![t("full")])
                } else {
                    open.push(PARENTS[inner].1);
                    let blocks = tidy(blocks, open);
                    open.pop();
                    Blk::AdmBlock { kind, inner, blocks }
                }
            }
            Blk::AdmOver(kind, b) => match tidy(vec![*b], open).pop() {
                Some(b) => Blk::AdmOver(kind, Box::new(b)),
                None => Blk::Para(vec![t("full")]),
            },
            Blk::List(l) => Blk::List(tidy_list(l, open)),
            Blk::DList(items) => Blk::DList(tidy_dlist(items, open)),
            x => x,
        };
        if matches!(b.b, Blk::Para(_)) {
            b.meta.title = None;
        }
        out.push(b);
    }
    out
}

fn tidy_list(l: Lst, open: &mut Vec<&'static str>) -> Lst {
    Lst {
        ordered: l.ordered,
        items: l
            .items
            .into_iter()
            .map(|mut i| {
                i.blocks = tidy(i.blocks, open);
                i.nested = tidy_nested(i.nested, open);
                i
            })
            .collect(),
    }
}

fn tidy_dlist(items: Vec<DItem>, open: &mut Vec<&'static str>) -> Vec<DItem> {
    items
        .into_iter()
        .map(|mut i| {
            i.blocks = tidy(i.blocks, open);
            i.nested = tidy_nested(i.nested, open);
            i
        })
        .collect()
}

fn tidy_nested(n: Option<Nst>, open: &mut Vec<&'static str>) -> Option<Nst> {
    n.map(|n| match n {
        Nst::List(l) => Nst::List(tidy_list(l, open)),
        Nst::Plus(m, l) => Nst::Plus(m, tidy_list(l, open)),
        Nst::DList(i) => Nst::DList(tidy_dlist(i, open)),
        Nst::Note(k, l) => Nst::Note(k, tidy_list(l, open)),
    })
}

fn free(kind: usize, open: &[&'static str]) -> Option<usize> {
    (0..4).map(|k| (kind + k) % 4).find(|k| !open.contains(&PARENTS[*k].1))
}

pub fn blocks(c: &Bcfg, min: usize) -> BoxedStrategy<Vec<B>> {
    vec(block(c), min..=c.max).prop_map(|b| tidy(b, &mut vec![])).boxed()
}

pub fn sec(c: &Bcfg, depth: u32) -> BoxedStrategy<Sec> {
    let subs = if depth > 0 { vec(sec(c, depth - 1), 0..3).boxed() } else { Just(vec![]).boxed() };
    (
        meta(c.meta, None),
        items(&Icfg { max: 2, ..c.text.clone() }.oneline()),
        prop_oneof![6 => Just(1u8), 1 => Just(2u8)],
        proptest::bool::weighted(0.2),
        vec(block(c), 0..3).prop_map(|b| tidy(b, &mut vec![])),
        subs,
    )
        .prop_map(|(meta, title, step, tight, blocks, subs)| Sec { meta, title, step, tight, blocks, subs })
        .boxed()
}

pub fn header(c: &Icfg) -> BoxedStrategy<(Option<Vec<It>>, Vec<(String, String)>)> {
    let attrs = if c.attrs.is_empty() {
        vec((ident(), prop_oneof![1 => Just(String::new()), 4 => "[a-z0-9]{1,5}( [a-z:]{1,4})?".boxed()]), 0..3).boxed()
    } else {
        vec((prop_oneof![1 => ident(), 3 => proptest::sample::select(c.attrs.clone()).boxed()], def_value()), 0..6).boxed()
    };
    let referred = !c.attrs.is_empty();
    (proptest::option::weighted(0.5, items(&Icfg { max: 2, ..c.clone() }.oneline())), attrs)
        .prop_map(move |(t, mut a)| {
            if !referred {
                a.sort();
                a.dedup_by(|x, y| x.0 == y.0);
            }
            a.retain(|(k, _)| k != "leveloffset");
            if t.is_none() { (t, vec![]) } else { (t, a) }
        })
        .boxed()
}

pub fn document(c: &Bcfg, secs: usize) -> BoxedStrategy<Doc> {
    let s = if secs > 0 { vec(sec(c, 2), 0..=secs).boxed() } else { Just(vec![]).boxed() };
    (header(&c.text), blocks(c, 0), s, 0u8..3)
        .prop_map(|((title, attrs), blocks, secs, trail)| Doc { title, attrs, blocks, secs, trail })
        .boxed()
}
