//! C01: whatever the text, converting it ends, with a result or an error.
use crate::engine::*;
use crate::{soup, sut};
use serde_json::Value;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "the text is not blank",
        assumptions: &[
            "DOCX output of images is left out: files that aren't images are beyond the library that writes it",
            "DOCX output of blocks nested more than forty deep is left out: it runs out of stack at about eighty",
        ],
        parts: vec![
            Part { name: "soup", quick: 24000, thorough: 600000, strategy: || typed(soup::soup(14)), eval },
            Part { name: "long", quick: 4000, thorough: 100000, strategy: || typed(soup::soup(60)), eval },
            Part { name: "damaged", quick: 8000, thorough: 200000, strategy: || typed(soup::damaged()), eval },
            Part { name: "repeated", quick: 4000, thorough: 100000, strategy: || typed(soup::deep()), eval },
            Part { name: "characters", quick: 8000, thorough: 200000, strategy: || typed(soup::raw()), eval },
        ],
        known_inputs: no_known,
    }
}

fn failed(f: &sut::Fault, src: &str) -> Option<Verdict> {
    match f {
        sut::Fault::Panic(s, m) => Some(Verdict::fail(format!("panic in {s}"), format!("{m}\n--- source\n{src}"))),
        sut::Fault::Err(_) => None,
    }
}

/// names an image, which DOCX output would have to read
fn has_image(v: &Value) -> bool {
    match v {
        Value::Object(o) => v["name"] == "image" || v["variant"] == "image" || o.values().any(has_image),
        Value::Array(a) => a.iter().any(has_image),
        _ => false,
    }
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Object(o) => o.iter().map(|(k, x)| depth(x) + matches!(k.as_str(), "blocks" | "items") as usize).max().unwrap_or(0),
        Value::Array(a) => a.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn eval(v: &Value) -> Verdict {
    let src = v.as_str().unwrap_or("");
    let some = !src.trim().is_empty();
    if let Some(v) = sut::scan(src).err().and_then(|f| failed(&f, src)) {
        return v;
    }
    let mut asg = match sut::parse(src) {
        Ok(a) => a,
        Err(f) => return failed(&f, src).unwrap_or(Verdict::ok(some).label("error")),
    };
    let json = match sut::json(&asg) {
        Ok(j) => j,
        Err(f) => return failed(&f, src).unwrap_or(Verdict::fail("json", format!("{f}\n--- source\n{src}"))),
    };
    if let Some(v) = sut::html(&asg).err().and_then(|f| failed(&f, src)) {
        return v;
    }
    if let Some(v) = sut::words(&asg).err().and_then(|f| failed(&f, src)) {
        return v;
    }
    // (takes longer than all else together)
    if src.len() % 3 == 0 && !has_image(&json) && depth(&json) <= 40 {
        let p = scratch_root().join(format!("c01-{}.docx", std::process::id()));
        let done = sut::docx(&asg, &p);
        let _ = std::fs::remove_file(&p);
        if let Some(v) = done.err().and_then(|f| failed(&f, src)) {
            return v;
        }
    }
    if let Some(v) = sut::footnotes(&mut asg).err().and_then(|f| failed(&f, src)) {
        return v;
    }
    if let Some(v) = sut::html(&asg).err().and_then(|f| failed(&f, src)) {
        return v;
    }
    Verdict::ok(some).label("converted")
}
