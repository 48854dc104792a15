#!/usr/bin/env python3
"""Rewrites known_findings.jsonl: repaired defects from /repo's fix: commits, and the recorded ones listed here. Development tool."""
import subprocess, json
log = subprocess.run("git -C /repo log --reverse --format='%h|%s' cd68172..HEAD", shell=True, capture_output=True, text=True).stdout.strip().splitlines()
RULES = [("absolute path with dots","C18"),("package in gopath","C18"),("any type called time.time","C15"),("too long for implicit","C03"),("verbatim tag is","C28"),("markers of documents","C25"),("redefined anchors","C09"),("shorthand tag","C28"),("verbatim tags","C28"),("checkpointing accessor","C20"),("hexadecimal unsigned","C22"),("package name","C18"),("generat","C15"),("inlin","C16"),("embedded fields","C16"),("unknown fields","C16"),("comparator","C24"),("builders report","C11"),("insertraw","C11"),
    ("merging","C09"),("raw ","C10"),("skipped subtrees","C09"),("alias","C09"),("nil error","C08"),("fatal error","C08"),("empty tree","C08"),("collectionstate","C05"),
    ("encoded timestamps","C01"),("timestamps with","C07"),("decimal integers","C07"),("escape non","C03"),("unescaping","C04"),("decodes escape","C04"),("write ","C01"),("do not write","C01"),
    ("polynomial","C05"),("could not parse","C06"),("repeated commas","C06"),("unsigned denies","C07"),("denied null","C08"),("errdenied","C08"),("not shorthands","C10"),("nounsafe","C26")]
KNOWN = [("C01","fixed:invalid-utf8","binary-text","yayamls writes a string which is no valid UTF-8 (\\xff) with replacement characters, so it is read back as another string"),
         ("C02","fixed:invalid-utf8","binary-text","goyaml writes a string which is no valid UTF-8 (\\xff) as !!binary and reads the base64 text back instead of the string"),
         ("C06","fixed:reserved-indicator","malformed-accepted","yayamls reads a plain scalar that starts with a reserved indicator (a: @x) instead of reporting it"),
         ("C06","fixed:indicator-in-flow","malformed-accepted","yayamls reads a block indicator inside of a flow collection ([- x], [| x]) as text instead of reporting it"),
         ("C09","fixed:alias-in-reused-collection","late-binding","yayamls resolves an alias inside of an aliased collection anew: - &a one / - &c [*a] / - &a two / - *c gives [two] for the last item"),
         ("C09","fixed:anchor-in-reused-collection","late-binding","yayamls binds the anchors inside of an aliased collection anew: - &c [&a one] / - &a two / - *c / - *a gives one for the last item")]
with open("/verif/known_findings.jsonl", "w") as f:
    for l in log:
        h, s = l.split("|", 1)
        if not s.startswith("fix: "): continue
        p = next((v for k, v in RULES if k in s.lower()), "C04"); w = s[5:]
        f.write(json.dumps({"property": p, "status": "fixed", "commit": h, "what": w, "line": f"fixed: property={p} {h} {w}"}) + "\n")
    for p, c, sig, w in KNOWN:
        f.write(json.dumps({"property": p, "status": "known", "case": c, "signature": sig, "what": w}) + "\n")
