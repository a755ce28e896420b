//! The only place that touches the crate under test: its public library interface.
use crate::engine::guard;
use asciidocr::backends::{docx::render_docx, htmls::render_htmlbook};
use asciidocr::graph::asg::Asg;
use asciidocr::parser::Parser;
use asciidocr::scanner::{Scanner, tokens::Token};
use serde_json::Value;
use std::path::{Path, PathBuf};

#[derive(Debug, Clone)]
pub enum Fault {
    /// the library reported an error
    Err(String),
    /// the library panicked: (site, message)
    Panic(String, String),
}

impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Fault::Err(e) => write!(f, "error: {e}"),
            Fault::Panic(s, m) => write!(f, "panic in {s}: {m}"),
        }
    }
}

fn flat<T>(r: Result<Result<T, String>, (String, String)>) -> Result<T, Fault> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Fault::Err(e)),
        Err((s, m)) => Err(Fault::Panic(s, m)),
    }
}

pub fn scan(src: &str) -> Result<Vec<Token>, Fault> {
    flat(guard(|| {
        let mut out = vec![];
        // a scanner that stops making progress must not fill memory
        let cap = src.len() * 2 + 16;
        for t in Scanner::new(src) {
            out.push(t.map_err(|e| e.to_string())?);
            if out.len() > cap {
                return Err("token stream longer than the source".into());
            }
        }
        Ok(out)
    }))
}

/// Parse as if `src` were the file `origin` (only its directory matters).
pub fn parse_at(src: &str, origin: &Path, resolve: bool) -> Result<Asg, Fault> {
    flat(guard(|| {
        let mut p = if resolve {
            Parser::new(origin.to_path_buf())
        } else {
            Parser::new_no_target_resolution(origin.to_path_buf())
        };
        p.parse(Scanner::new(src)).map_err(|e| e.to_string())
    }))
}

pub fn parse(src: &str) -> Result<Asg, Fault> {
    parse_at(src, &PathBuf::from("/nonexistent/doc.adoc"), false)
}

pub fn json(asg: &Asg) -> Result<Value, Fault> {
    flat(guard(|| {
        let s = serde_json::to_string_pretty(asg).map_err(|e| e.to_string())?;
        let mut d = serde_json::Deserializer::from_str(&s);
        // (blocks may nest deeper than the reader likes)
        d.disable_recursion_limit();
        serde::Deserialize::deserialize(&mut d).map_err(|e| format!("JSON output does not parse: {e}"))
    }))
}

pub fn html(asg: &Asg) -> Result<String, Fault> {
    flat(guard(|| render_htmlbook(asg).map_err(|e| e.to_string())))
}

pub fn docx(asg: &Asg, path: &Path) -> Result<(), Fault> {
    flat(guard(|| render_docx(asg, path).map_err(|e| e.to_string())))
}

pub fn text(asg: &Asg) -> Result<String, Fault> {
    flat(guard(|| Ok(asg.all_text())))
}

pub fn words(asg: &Asg) -> Result<usize, Fault> {
    flat(guard(|| Ok(asg.word_count())))
}

pub fn footnotes(asg: &mut Asg) -> Result<(), Fault> {
    flat(guard(|| asg.standardize_footnotes().map_err(|e| e.to_string())))
}
