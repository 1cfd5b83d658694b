#!/usr/bin/env python3
"""Rebuilds the "fixed" list of known_findings.json from the fix: commits of /repo (FIXMAP names the property); findings are kept."""
import subprocess, json, os
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json")
FIXMAP = [  # (text in the commit subject, property, what failed)
 ("unquote: do not read", "P08", "unescaping a string that ends inside an escape read past its end"),
 ("quote: keep the escaped", "P08", "the bounded escaper wrote past its buffer"),
 ("base64 decode", "P09", "decoding bytes above 127, trailing blanks or padding split by blanks read outside the table or text"),
 ("C quote", "P11", "carriage returns were lost and the space of escapes miscounted, overflowing the buffer"),
 ("html_quote_dup", "P10", "text that needs no quoting came back as NULL"),
 ("JSON unquote", "P12", "an unterminated string was read past its end"),
 ("dict remove: with repeated", "P13", "removing a repeated key removed another node and lost pairs"),
 ("dict remove: tell", "P13", "removal did not report whether the key was there"),
 ("dict hard dup", "P14", "a hard copy lost the letter case rule"),
 ("dict from JSON", "P12", "a key without quotes read past the end of the text"),
 ("dict get_dict", "P13", "looking up a nested dictionary in a missing one dereferenced NULL"),
 ("ptr_list remove", "P16", "removal only looked at the head and leaked"),
 ("ptr_list filter", "P16", "dropped elements were not released with the allocator"),
]
try:
    import fixmap2; FIXMAP += fixmap2.M
except ImportError:
    pass
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().splitlines()
d = json.load(open(F)) if os.path.exists(F) else {"findings": []}
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    m = [x for x in FIXMAP if s[5:].startswith(x[0])]
    if len(m) < 1: print("unmapped:", l); continue
    fixed.append("fixed: property=%s %s %s" % (m[0][1], h, m[0][2]))
d["fixed"] = fixed
json.dump(d, open(F, "w"), indent=1)
