#!/usr/bin/env python3
"""Write known_findings.json: repaired defects (taken from /repo's fix commits) and recorded ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # start of the fix commit's subject -> property it broke
    ("map unindented", "C02"), ("check_glob read", "C05"), ("check_glob ignored", "C05"),
    ("pretty printing a document", "C06"), ("pretty printer could", "C06"), ("escaping a non-ascii", "C07"),
    ("URI escaping", "C07"), ("html generation rejected", "C08"), ("reading an attribute", "C08"),
    ("--output-dir was always", "C31"), ("chunked html aborted", "C31"), ("html generation used an invalid", "C11"),
    ("footnotes in titles", "C11"), ("html for a callout", "C11"), ("no next link", "C09"),
    ("absolute links were", "C09"), ("html generation dereferenced", "C31"), ("the directory was lost", "C14"),
    ("simple markup could", "C20"), ("time to parse", "C20"), ("a less indented list", "C21"),
    ("unbalanced sections in a nested", "C19"), ("pretty printing failed on a code", "C19"),
    ("identifiers with special", "C19"), ("a template calling itself", "C24"),
    ("a file including itself", "C25"), ("a file included with two", "C25"), ("the error for an empty path", "C30"), ("the exit status was", "C30"),
    ("a comment straight after", "C26"), ("long hexadecimal", "C26"), ("a code snippet ended", "C27"),
    ("redefining an empty code", "C27"), ("a quickbook comment after a code", "C27"),
    ("redefining a template was", "C30"), ("the line number of a mismatched", "C30"), ("markup in variable list", "C28"),
    ("failing to write", "C31"), ("--no-output", "C31"), ("the alternative text", "C10"), ("file urls", "C14"), ("text still in the stream", "C15"),
    ("the identifier given", "C18"), ("anchors at the end of an imported", "C36"), ("document attributes in any order", "C30"), ("anchors at the end", "C34"), ("style sheets and graphics", "C35"), ("links to pages named", "C35"), ("relative links within", "C09"), ("initialise the block grammar", "C38"), ("sections of a document included", "C22"), ("unbalanced sections in an imported", "C22"),
    ("assigning to a tree", "C12"), ("an unclosed size", "C33"), ("image attributes", "C33"), ("unicode escapes in attributes", "C33"), ("unicode escapes of characters", "C19"),
]
EXTRA = os.path.join(V, "lib", "recorded_findings.json")
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
out = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [b for a, b in PROP if s.startswith(a)]
    assert p, s
    out.append({"status": "fixed", "property": p[0], "commit": h, "what": s,
                "line": "fixed: property=%s %s %s" % (p[0], h, s)})
if os.path.exists(EXTRA):
    out += json.load(open(EXTRA))
json.dump(out, open(V + "/known_findings.json", "w"), indent=1)
print(len(out), "entries")
