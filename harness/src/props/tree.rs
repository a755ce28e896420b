//! C28: whatever the text, the tree made of it is well formed.
use super::model::kinds;
use crate::engine::*;
use crate::{soup, sut};
use serde_json::Value;
use std::collections::BTreeSet;

type Pos = (u64, u64);

struct Tree {
    /// length of each line, in bytes, unless lines are counted otherwise
    lines: Option<Vec<u64>>,
    /// blocks between the root and here
    path: Vec<String>,
}

type Wrong = (String, String);

fn wrong<T>(sig: impl Into<String>, v: &Value) -> Result<T, Wrong> {
    let s = v.to_string();
    Err((sig.into(), s.chars().take(600).collect()))
}

fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v[k].as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

impl Tree {
    fn has(&self, v: &Value, name: &str, strings: &[&str], arrays: &[&str]) -> Result<(), Wrong> {
        for k in strings {
            if !v[*k].is_string() {
                return wrong(format!("{name} without {k}"), v);
            }
        }
        for k in arrays {
            if !v[*k].is_array() {
                return wrong(format!("{name} without {k}"), v);
            }
        }
        Ok(())
    }

    fn one_of(&self, v: &Value, name: &str, k: &str, of: &[&str]) -> Result<(), Wrong> {
        if !of.contains(&v[k].as_str().unwrap_or("")) {
            return wrong(format!("{k} of {name}"), v);
        }
        Ok(())
    }

    fn place(&self, v: &Value) -> Result<(Pos, Pos), Wrong> {
        let name = v["name"].as_str().unwrap_or("?");
        let l = list(v, "location");
        let p = |i: usize| -> Option<Pos> { Some((l.get(i)?["line"].as_u64()?, l.get(i)?["col"].as_u64()?)) };
        let (Some(a), Some(b)) = (p(0), p(1)) else { return wrong(format!("{name} without a place"), v) };
        if l.len() != 2 {
            return wrong(format!("places of {name}"), v);
        }
        // n.b. text without any characters, i.e., of an empty attribute, ends ahead of its column
        let empty = v["value"] == "" && a.0 == b.0 && a.1 == b.1 + 1;
        if a > b && !empty {
            return wrong(format!("{name} ends ahead of its start"), v);
        }
        for (l, c) in [a, b] {
            if let Some(lines) = &self.lines {
                if l < 1 || l as usize > lines.len() || c > lines[l as usize - 1] + 1 {
                    return wrong(format!("{name} outside of the source"), v);
                }
            }
        }
        Ok((a, b))
    }

    /// things one after the other, inside of what contains them
    fn within(&self, name: &str, outer: (Pos, Pos), v: &Value, inner: &[&Value]) -> Result<(), Wrong> {
        let mut last = outer.0;
        for i in inner {
            let n = i["name"].as_str().unwrap_or("?");
            let (a, b) = self.place(i)?;
            if a < outer.0 || b > outer.1 {
                return wrong(format!("{n} reaches out of its {name}"), v);
            }
            if a < last && self.lines.is_some() {
                return wrong(format!("{n} out of order in {name}"), v);
            }
            last = a;
        }
        Ok(())
    }

    fn inline(&self, v: &Value) -> Result<(), Wrong> {
        let Some(name) = v["name"].as_str() else { return wrong("inline without a name", v) };
        match name {
            "text" | "charref" => {
                self.one_of(v, name, "type", &["string"])?;
                self.has(v, name, &["value"], &[])?;
                self.place(v)?;
            }
            "linebreak" => {
                self.place(v)?;
            }
            "span" => {
                self.one_of(v, name, "type", &["inline"])?;
                self.has(v, name, &[], &["inlines"])?;
                self.one_of(v, name, "variant", &["strong", "emphasis", "code", "mark", "superscript", "subscript", "footnote", "literal"])?;
                self.one_of(v, name, "form", &["constrained", "unconstrained"])?;
                self.kids(name, v, "inlines")?;
            }
            "ref" => {
                self.one_of(v, name, "type", &["inline"])?;
                self.has(v, name, &["target"], &["inlines"])?;
                self.one_of(v, name, "variant", &["link", "xref", "image"])?;
                if v["variant"] == "xref" {
                    // the text is that of another place
                    self.place(v)?;
                    for i in list(v, "inlines") {
                        self.inline(i)?;
                    }
                } else {
                    self.kids(name, v, "inlines")?;
                }
            }
            _ => return wrong(format!("inline {name}"), v),
        }
        Ok(())
    }

    fn kids(&self, name: &str, v: &Value, k: &str) -> Result<(), Wrong> {
        let at = self.place(v)?;
        for i in list(v, k) {
            self.inline(i)?;
        }
        self.within(name, at, v, &list(v, k).iter().collect::<Vec<_>>())
    }

    /// text that belongs to a block, but is written ahead of it
    fn title(&self, v: &Value, k: &str) -> Result<(), Wrong> {
        list(v, k).iter().try_for_each(|i| self.inline(i))
    }

    fn blocks(&mut self, name: &str, v: &Value, k: &str, level: u64, only: Option<&str>) -> Result<(), Wrong> {
        let at = self.place(v)?;
        for b in list(v, k) {
            if let Some(o) = only {
                if b["name"] != o {
                    return wrong(format!("{} in {name}", b["name"].as_str().unwrap_or("?")), v);
                }
            }
            self.block(b, level, only)?;
        }
        self.within(name, at, v, &list(v, k).iter().collect::<Vec<_>>())
    }

    fn block(&mut self, v: &Value, level: u64, only: Option<&str>) -> Result<(), Wrong> {
        let Some(name) = v["name"].as_str() else { return wrong("block without a name", v) };
        if matches!(name, "listItem" | "dlistItem" | "tableCell") && only != Some(name) {
            return wrong(format!("{name} by itself"), v);
        }
        if name != "tableCell" {
            self.one_of(v, name, "type", &["block"])?;
        }
        if let Some(m) = v.get("metadata") {
            if !m["attributes"].is_object() && m.get("attributes").is_some() {
                return wrong("attributes", v);
            }
        }
        match name {
            "section" => {
                self.has(v, name, &[], &["title", "blocks"])?;
                let Some(l) = v["level"].as_u64() else { return wrong("section without level", v) };
                if l <= level || l > 4 {
                    return wrong("section level", v);
                }
                if !self.path.iter().all(|p| p == "section") {
                    return wrong("section inside of a block", v);
                }
                self.title(v, "title")?;
                self.path.push(name.into());
                self.blocks(name, v, "blocks", l, None)?;
                self.path.pop();
                let mut sections = false;
                for b in list(v, "blocks") {
                    if sections && b["name"] != "section" {
                        return wrong("block after a subsection", v);
                    }
                    sections |= b["name"] == "section";
                }
            }
            "list" => {
                self.has(v, name, &["marker"], &["items"])?;
                self.one_of(v, name, "variant", &["ordered", "unordered", "callout"])?;
                if list(v, "items").is_empty() {
                    return wrong("empty list", v);
                }
                self.inner(name, v, "items", Some("listItem"))?;
            }
            "dlist" => {
                self.has(v, name, &["marker"], &["items"])?;
                if list(v, "items").is_empty() {
                    return wrong("empty dlist", v);
                }
                self.inner(name, v, "items", Some("dlistItem"))?;
            }
            "listItem" => {
                self.has(v, name, &["marker"], &["principal"])?;
                self.kids(name, v, "principal")?;
                self.inner(name, v, "blocks", None)?;
            }
            "dlistItem" => {
                self.has(v, name, &["marker"], &["terms"])?;
                self.kids(name, v, "terms")?;
                self.kids(name, v, "principal")?;
                self.inner(name, v, "blocks", None)?;
            }
            "break" => {
                self.one_of(v, name, "variant", &["page", "thematic"])?;
                self.place(v)?;
            }
            "image" => {
                self.has(v, name, &["target"], &[])?;
                self.one_of(v, name, "form", &["macro"])?;
                self.title(v, "caption")?;
                self.place(v)?;
            }
            "paragraph" | "listing" | "literal" | "pass" | "verse" => {
                self.has(v, name, &[], &["inlines"])?;
                if name != "paragraph" {
                    self.has(v, name, &["delimiter"], &[])?;
                }
                self.kids(name, v, "inlines")?;
            }
            "sidebar" | "example" | "open" | "quote" | "admonition" | "table" => {
                self.has(v, name, &[], &["blocks"])?;
                if name == "admonition" {
                    self.one_of(v, name, "variant", &["note", "tip", "important", "caution", "warning"])?;
                }
                if name == "table" {
                    let cols = v["metadata"]["attributes"]["cols"].as_str().and_then(|c| c.parse::<usize>().ok());
                    if !matches!(cols, Some(1..)) {
                        return wrong("columns of table", v);
                    }
                }
                self.title(v, "title")?;
                self.inner(name, v, "blocks", (name == "table").then_some("tableCell"))?;
            }
            "tableCell" => {
                self.has(v, name, &[], &["inlines"])?;
                self.kids(name, v, "inlines")?;
            }
            _ => return wrong(format!("block {name}"), v),
        }
        Ok(())
    }

    fn inner(&mut self, name: &str, v: &Value, k: &str, only: Option<&str>) -> Result<(), Wrong> {
        self.path.push(name.into());
        self.blocks(name, v, k, 99, only)?;
        self.path.pop();
        Ok(())
    }

    fn document(&mut self, v: &Value) -> Result<(), Wrong> {
        self.one_of(v, "document", "name", &["document"])?;
        self.one_of(v, "document", "type", &["block"])?;
        self.has(v, "document", &[], &["blocks"])?;
        if v.get("header").is_some() {
            if !v["attributes"].is_object() {
                return wrong("header without attributes", v);
            }
            list(&v["header"], "title").iter().try_for_each(|i| self.inline(i))?;
        }
        for b in list(v, "blocks") {
            self.block(b, 0, None)?;
        }
        let mut last = (0, 0);
        let mut sections = false;
        for b in list(v, "blocks") {
            let (a, _) = self.place(b)?;
            if a < last && self.lines.is_some() {
                return wrong("blocks out of order", v);
            }
            last = a;
            if sections && b["name"] != "section" {
                return wrong("block after a section", v);
            }
            sections |= b["name"] == "section";
        }
        Ok(())
    }
}

fn eval(v: &Value) -> Verdict {
    let src = v.as_str().unwrap_or("");
    let j = match sut::parse(src).and_then(|a| sut::json(&a)) {
        Ok(j) => j,
        // C01 has the say about those that panic
        Err(_) => return Verdict::ok(false).label("not accepted"),
    };
    let src = src.replace("\r\n", "\n");
    // the line below a description list marker that ends its line counts as the same line
    let counted = !["::\n", ":::\n", "::::\n", ";;\n"].iter().any(|m| src.contains(m));
    // and the text of an attribute is as long as its value
    let defined = src.lines().any(|l| l.starts_with(':')) && src.contains('{');
    let lines = (counted && !defined).then(|| src.split('\n').map(|l| l.len() as u64).collect());
    let mut t = Tree { lines, path: vec![] };
    match t.document(&j) {
        Err((s, m)) => Verdict::fail(s, format!("{m}\n--- source\n{src}")),
        Ok(()) => {
            let mut k = BTreeSet::new();
            kinds(&j, &mut k);
            Verdict::ok(k.len() > 3).labels(k)
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "the text is accepted and there are nodes of at least three kinds",
        assumptions: &[
            "lines are counted as the scanner does: one that ends with a description list marker and the one below it count as one, so positions in such texts aren't compared with the source",
            "text from an attribute takes up as many columns as its value",
        ],
        parts: vec![
            Part { name: "soup", quick: 80000, thorough: 600000, strategy: || typed(soup::soup(14)), eval },
            Part { name: "long", quick: 8000, thorough: 100000, strategy: || typed(soup::soup(60)), eval },
            Part { name: "damaged", quick: 40000, thorough: 300000, strategy: || typed(soup::damaged()), eval },
            Part { name: "repeated", quick: 8000, thorough: 100000, strategy: || typed(soup::deep()), eval },
        ],
        known_inputs: no_known,
    }
}
