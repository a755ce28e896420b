#!/usr/bin/env python3
"""Writes the 'fixed:' lines of known-findings.jsonl from /repo's history (development aid)."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# words of the subject -> property
RULES = [
 ("scanning forever", "C01"), ("index past the end", "C01"), ("equals signs followed", "C06"), ("never close on their line", "C06"),
 ("non-ASCII text", "C01"), ("swallowing later text", "C03"), ("unclosed inline markup", "C06"), ("tag directives", "C14"),
 ("malformed attribute lists", "C01"), ("combined element metadata", "C24"), ("position of attributes", "C24"),
 ("usable cols", "C10"), ("words of adjacent blocks apart", "C22"), ("number footnotes", "C17"), ("resolve cross references", "C15"),
 ("delimiters at the end of the source", "C09"), ("end paragraphs, lists, titles", "C03"), ("multi-line image macros", "C18"),
 ("relative level offsets", "C26"), ("endlessly recursive includes", "C01"), ("included source code", "C13"),
 ("last row of docx", "C20"), ("docx formatting of nested", "C20"), ("errors reading input", "C21"), ("log to stderr", "C21"),
 ("styles of docx blocks", "C20"), ("numberings that docx", "C20"), ("docx links", "C20"), ("docx listings", "C20"),
 ("titles of blocks in sections", "C24"), ("admonition labels at the start", "C06"), ("inline styles to their spans", "C05"),
 ("colons in attribute values", "C12"), ("replace symbols", "C25"), ("part of urls", "C05"), ("markup in document titles", "C05"),
 ("first attributes", "C24"), ("open block delimiter that ends", "C09"), ("keep sections out", "C04"), ("admonition paragraphs together", "C09"),
 ("paragraphs inside of delimited", "C09"), ("subsections out", "C04"), ("annotated source blocks", "C09"), ("description list terms that directly", "C08"),
 ("in verses", "C09"), ("attached to list items", "C09"),
]
EXTRA = os.path.join(ROOT, "tools", "fixed_rules.txt")
if os.path.exists(EXTRA):
    RULES = [tuple(l.rstrip("\n").split("\t")) for l in open(EXTRA) if "\t" in l] + RULES
out = []
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H%x09%s", "9b16686..HEAD"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split("\t")
    if not s.startswith("fix:"):
        continue
    p = [p for w, p in RULES if w in s]
    assert p, s
    out.append(f"fixed: property={p[0]} {h[:12]} {s[5:]}")
path = os.path.join(ROOT, "known-findings.jsonl")
keep = [l for l in open(path).read().splitlines() if l.startswith("{")] if os.path.exists(path) else []
open(path, "w").write("\n".join(keep + out) + "\n")
print(len(out))
