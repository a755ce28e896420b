//! The command line program, decided by running it in a scratch directory.
use super::docx::Package;
use super::files::Dir;
use crate::blocks::*;
use crate::doc::*;
use crate::engine::*;
use crate::sut;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Input {
    Stdin,
    /// a file of this name
    File(usize),
    /// its full path
    Full(usize),
    Missing,
    Directory,
    NotText,
}

const INPUTS: [&str; 16] = [
    "doc.adoc", "./my.doc.asciidoc", "doc", "sub/in.adoc", "sub/../über uns.txt", "page.html",
    // names that are easily mistaken for something else
    "draft-", "./-", "sub/-", ".hidden", "a.b-", "v1.2/in.d-c", "UP.ADOC", "notes.", "data.json", "old.docx",
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Output {
    Default,
    Stdout,
    File(usize),
    Full(usize),
    NoDirectory,
}

const OUTPUTS: [&str; 9] = ["out.html", "sub/out", "o u t.json", "./stale.txt", "-o.docx", "out-", "./-", "sub/x.-", "htmlbook"];
const BACKENDS: [Option<&str>; 5] = [None, Some("htmlbook"), Some("json"), Some("docx"), Some("pdf")];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    doc: Doc,
    extra: usize,
    input: Input,
    output: Output,
    backend: usize,
    count: bool,
    unresolved: bool,
    /// long options, options with "=", the order of options
    long: bool,
    equals: bool,
    order: u8,
}

/// what is added to the document: local files and problems
const EXTRAS: [&str; 7] = [
    "",
    "image::pic.png[]",
    "See image:gone.png[it].",
    "include::part.adoc[]",
    "include::gone.adoc[]",
    "====== too deep",
    "include::more.adoc[]",
];

fn case() -> BoxedStrategy<Value> {
    let c = Bcfg { text: Icfg { img: 0, ..Icfg::rich() }, image: 0, max: 3, depth: 1, ..Bcfg::all() };
    let input = prop_oneof![
        2 => Just(Input::Stdin),
        6 => (0..INPUTS.len()).prop_map(Input::File),
        1 => (0..INPUTS.len()).prop_map(Input::Full),
        1 => prop_oneof![Just(Input::Missing), Just(Input::Directory), Just(Input::NotText)],
    ];
    let output = prop_oneof![
        4 => Just(Output::Default),
        2 => Just(Output::Stdout),
        4 => (0..OUTPUTS.len()).prop_map(Output::File),
        1 => (0..OUTPUTS.len()).prop_map(Output::Full),
        1 => Just(Output::NoDirectory),
    ];
    let extra = prop_oneof![4 => Just(0usize), 3 => 1..EXTRAS.len()];
    let backend = prop_oneof![3 => Just(0usize), 2 => Just(1usize), 4 => Just(2usize), 3 => Just(3usize), 1 => Just(4usize)];
    typed(
        (document(&c, 2), extra, input, output, backend, (any::<bool>(), proptest::bool::weighted(0.4)), (any::<bool>(), any::<bool>(), any::<u8>())).prop_map(
            |(doc, extra, input, output, backend, (count, unresolved), (long, equals, order))| Case { doc, extra, input, output, backend, count, unresolved, long, equals, order },
        ),
    )
}

fn tree(d: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            tree(&p, out);
        } else {
            out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
}

struct Ran {
    code: i32,
    out: String,
    err: String,
}

fn program() -> PathBuf {
    let p = PathBuf::from(std::env::var("VH_CLI").unwrap_or_else(|_| format!("{}/target/cli/debug/asciidocr", std::env::var("VERIF_DIR").unwrap_or_default())));
    if !p.exists() {
        die(&format!("no program at {}", p.display()));
    }
    p
}

fn run(args: &[String], cwd: &Path, stdin: Option<&str>) -> Ran {
    let mut c = Command::new(program());
    c.args(args).current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap_or_else(|e| die(&format!("spawn: {e}")));
    let mut pipe = child.stdin.take().expect("stdin");
    let text = stdin.unwrap_or("").to_string();
    let feed = std::thread::spawn(move || {
        let _ = pipe.write_all(text.as_bytes());
    });
    let o = child.wait_with_output().unwrap_or_else(|e| die(&format!("wait: {e}")));
    let _ = feed.join();
    if let Some(s) = o.status.signal() {
        die(&format!("the program was killed by signal {s}"));
    }
    Ran { code: o.status.code().unwrap_or(-1), out: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}

/// What the program is to do
enum Want {
    Refuse(&'static str),
    /// the text goes to standard output or a file
    Text(String, Option<PathBuf>),
    Json(Value, Option<PathBuf>),
    Docx(PathBuf),
}

fn same_json(text: &str, want: &Value) -> bool {
    serde_json::from_str::<Value>(text).is_ok_and(|v| v == *want)
}

/// (paragraph ids are numbered across documents)
fn without_ids(x: &[u8]) -> String {
    let s = String::from_utf8_lossy(x);
    let mut out = String::new();
    let mut rest = s.as_ref();
    while let Some(i) = rest.find(" w14:paraId=\"") {
        out.push_str(&rest[..i]);
        rest = &rest[i + 13..];
        rest = &rest[rest.find('"').map_or(rest.len(), |j| j + 1)..];
    }
    out + rest
}

fn eval(v: &Value) -> Verdict {
    let c: Case = serde_json::from_value(v.clone()).expect("case");
    let dir = Dir::new();
    let root = dir.path().to_path_buf();
    let mut w = W::new();
    w.exact = false;
    w.doc(&c.doc);
    let mut src = w.s;
    if c.extra > 0 {
        src = format!("{}\n\n{}\n", src.trim_end_matches('\n'), EXTRAS[c.extra]);
    }
    // the files there are
    let name = match c.input {
        Input::File(n) | Input::Full(n) => INPUTS[n],
        _ => "doc.adoc",
    };
    let home = match name.rfind('/') {
        Some(i) if !name.starts_with('.') && !name.contains("..") => &name[..=i],
        _ => "",
    };
    for (n, t) in [("pic.png", "no real image"), ("part.adoc", "An included paragraph.\n"), ("more.adoc", "image::none.png[]\n"), ("stale.txt", &"stale\n".repeat(5000))] {
        dir.write(&format!("{}{n}", if n == "stale.txt" { "" } else { home }), t);
    }
    dir.write("sub/keep.txt", "keep\n");
    dir.write("binary", "");
    std::fs::write(root.join("binary"), [0xff, 0xfe, 0x41]).unwrap_or_else(|e| die(&e.to_string()));
    dir.write(name, &src);

    // the command line
    let file = match c.input {
        Input::Stdin => "-".to_string(),
        Input::File(_) => name.to_string(),
        Input::Full(_) => root.join(name).display().to_string(),
        Input::Missing => "none.adoc".into(),
        Input::Directory => "sub".into(),
        Input::NotText => "binary".into(),
    };
    let out = match c.output {
        Output::Default => None,
        Output::Stdout => Some("-".to_string()),
        Output::File(n) => Some(OUTPUTS[n].to_string()),
        Output::Full(n) => Some(root.join(OUTPUTS[n]).display().to_string()),
        Output::NoDirectory => Some("nowhere/out".into()),
    };
    let mut groups: Vec<Vec<String>> = vec![vec![file.clone()]];
    let mut option = |short: &str, long: &str, value: &str| {
        groups.push(match (c.long, c.equals) {
            (true, true) => vec![format!("{long}={value}")],
            (true, false) => vec![long.to_string(), value.to_string()],
            (false, true) => vec![format!("{short}{value}")],
            (false, false) => vec![short.to_string(), value.to_string()],
        })
    };
    if let Some(o) = &out {
        // (a value that looks like an option)
        let o = if o.starts_with("-o") { format!("./{o}") } else { o.clone() };
        option("-o", "--out-file", &o);
    }
    if let Some(b) = BACKENDS[c.backend] {
        option("-b", "--backend", b);
    }
    if c.count {
        groups.push(vec![if c.long { "--count-words" } else { "-c" }.to_string()]);
    }
    if c.unresolved {
        groups.push(vec![if c.long { "--allow-unresolved-targets" } else { "-x" }.to_string()]);
    }
    let k = c.order as usize % groups.len();
    groups.rotate_left(k);
    if c.order & 0x80 != 0 {
        groups.reverse();
    }
    let args: Vec<String> = groups.concat();

    // what the library makes of it
    let readable = !matches!(c.input, Input::Missing | Input::Directory | Input::NotText);
    let docx = c.backend == 3;
    let target = match (&out, c.input) {
        (Some(o), _) if o == "-" => None,
        (Some(o), _) => Some(root.join(o)),
        (None, Input::Stdin) => None,
        (None, _) => Some(root.join(&file).with_extension(["html", "html", "json", "docx", ""][c.backend])),
    };
    let mut count = String::new();
    let want = if c.backend == 4 {
        Want::Refuse("no such backend")
    } else if !readable {
        Want::Refuse("input")
    } else {
        match sut::parse_at(&src, &root.join(&file), !c.unresolved) {
            Err(sut::Fault::Panic(..)) => return Verdict::ok(false).label("library panics"),
            Err(_) => Want::Refuse("document"),
            Ok(asg) => {
                if c.count {
                    match sut::words(&asg) {
                        Ok(n) => count = format!("{n} words in {file}\n"),
                        Err(_) => return Verdict::ok(false).label("library panics"),
                    }
                }
                let same = |t: &Path| std::fs::canonicalize(t).is_ok_and(|t| std::fs::canonicalize(root.join(&file)).is_ok_and(|f| f == t));
                if docx && (c.unresolved || target.is_none()) {
                    Want::Refuse("docx")
                } else if c.output == Output::NoDirectory {
                    Want::Refuse("output")
                } else if c.input != Input::Stdin && target.as_ref().is_some_and(|t| same(t)) {
                    Want::Refuse("output is input")
                } else if docx {
                    let p = scratch_root().join(format!("lib-{}.docx", std::process::id()));
                    match sut::docx(&asg, &p) {
                        Err(sut::Fault::Panic(..)) => return Verdict::ok(false).label("library panics"),
                        Err(_) => Want::Refuse("conversion"),
                        Ok(()) => Want::Docx(target.clone().expect("output")),
                    }
                } else if c.backend == 2 {
                    match sut::json(&asg) {
                        Err(_) => return Verdict::ok(false).label("library panics"),
                        Ok(j) => Want::Json(j, target.clone()),
                    }
                } else {
                    match sut::html(&asg) {
                        Err(sut::Fault::Panic(..)) => return Verdict::ok(false).label("library panics"),
                        Err(_) => Want::Refuse("conversion"),
                        Ok(h) => Want::Text(h, target.clone()),
                    }
                }
            }
        }
    };

    let mut before = BTreeMap::new();
    tree(&root, &mut before);
    let ran = run(&args, &root, (c.input == Input::Stdin).then_some(&src));
    let mut after = BTreeMap::new();
    tree(&root, &mut after);
    let shown = |m: &str| format!("{m}\n--- command\nasciidocr {}\n--- exit {}\n--- stdout\n{}\n--- stderr\n{}\n--- source\n{src}", args.join(" "), ran.code, head(&ran.out), head(&ran.err));

    // files: nothing but the output
    let norm = |p: &Path| std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
    let output = match &want {
        Want::Refuse(_) => None,
        Want::Text(_, p) | Want::Json(_, p) => p.clone(),
        Want::Docx(p) => Some(p.clone()),
    };
    let output = output.map(|p| norm(&p));
    for p in before.keys().chain(after.keys()) {
        if before.get(p) != after.get(p) && Some(norm(p)) != output {
            // (an output that can't be finished is another matter)
            if matches!(want, Want::Refuse("conversion")) {
                continue;
            }
            return Verdict::fail("other file", shown(&format!("{} changed", p.strip_prefix(&root).unwrap_or(p).display())));
        }
    }
    let label = match &want {
        Want::Refuse(why) => {
            if ran.code == 0 {
                return Verdict::fail("not refused", shown(&format!("expected an error: {why}")));
            }
            if ran.err.trim().is_empty() {
                return Verdict::fail("silent", shown("fails without a word"));
            }
            if !ran.out.is_empty() && ran.out != count {
                return Verdict::fail("output of an error", shown("fails, but writes to standard output"));
            }
            return Verdict::ok(true).label(format!("refused: {why}"));
        }
        _ if ran.code != 0 => return Verdict::fail("refused", shown("expected to succeed")),
        Want::Text(..) => "htmlbook",
        Want::Json(..) => "json",
        Want::Docx(_) => "docx",
    };
    let read = |p: &Path| std::fs::read_to_string(p).ok();
    let Some(rest) = ran.out.strip_prefix(count.as_str()) else {
        return Verdict::fail("word count", shown(&format!("expected {count:?}")));
    };
    let to_stdout = output.is_none();
    if !to_stdout && !rest.is_empty() {
        return Verdict::fail("standard output", shown("writes to standard output, besides the file"));
    }
    match &want {
        Want::Text(t, p) => {
            let got = if let Some(p) = p { read(p) } else { Some(rest.to_string()) };
            if got.as_deref().map(str::trim_end) != Some(t.trim_end()) {
                return Verdict::fail("HTML", shown(&format!("expected\n{t}\n--- got\n{got:?}")));
            }
        }
        Want::Json(j, p) => {
            let got = if let Some(p) = p { read(p) } else { Some(rest.to_string()) };
            if !got.as_deref().is_some_and(|g| same_json(g, j)) {
                return Verdict::fail("JSON", shown(&format!("expected\n{j}\n--- got\n{got:?}")));
            }
        }
        Want::Docx(p) => {
            let lib = scratch_root().join(format!("lib-{}.docx", std::process::id()));
            let (a, b) = (Package::open(&lib), Package::open(p));
            let _ = std::fs::remove_file(&lib);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    if a.files.keys().ne(b.files.keys()) || without_ids(&a.files["word/document.xml"]) != without_ids(&b.files["word/document.xml"]) {
                        return Verdict::fail("DOCX", shown("not what the library gives"));
                    }
                }
                (Ok(_), Err(e)) => return Verdict::fail("DOCX", shown(&format!("unreadable: {e}"))),
                (Err(e), _) => die(&format!("library's DOCX: {e}")),
            }
        }
        Want::Refuse(_) => {}
    }
    let mut v = Verdict::ok(true).label(label).label(if to_stdout { "to standard output" } else { "to a file" });
    if c.count {
        v = v.label("word count");
    }
    v
}

fn head(s: &str) -> String {
    s.chars().take(600).collect()
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "the program was run, and the library gives an answer for its input",
        assumptions: &["what is left of an output file when the conversion fails half way is not judged"],
        parts: vec![Part { name: "runs", quick: 8000, thorough: 100000, strategy: case, eval }],
        known_inputs: no_known,
    }
}
