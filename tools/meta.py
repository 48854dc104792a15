#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing the table."""
import json, os, sys
VD = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

YR = "engines/yayamls/decode/"
YW = "engines/yayamls/encode/"
YP = "engines/yayamls/parser/"
YL = "engines/yayamls/lexer/"
GR = "engines/goyaml/decode/"
GW = "engines/goyaml/encode/"

def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

PROPS = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": mech, "hook_needed": None}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    PROPS.append(dict(p={"id": id, "title": title, "statement": statement,
                         "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                      technique=technique, level=level, note=note))

prop("C01", "A value encoded by yayamls is read back unchanged",
     "Whatever tree of nulls, booleans, integers, unsigned integers, floats, strings, timestamps, sequences and mappings a program inserts through the yayamls encoder, reading the produced bytes with the yayamls decoder yields exactly the same tree: same shape, order, sizes and bit-exact scalar values. This holds for every string content, for scalar and collection mapping keys, for both string-quoting modes and for raw fragments inserted alongside.",
     ["inputs"], "all finite value trees x both quoting modes x insertion of any subtree as raw YAML or raw text",
     "the tests round-trip a few dozen hand-written trees; string contents, float bit patterns, nesting and their combinations are unbounded",
     [YW+"builder.go", YW+"writer.go", YR+"reader.go", YR+"any.go", "engines/yayamls/schema/", "engines/yayamls/yamlchar/"],
     m(("ASTBuilder route of nodes", YW+"builder.go"), ("ASTWriter indentation and quoting", YW+"writer.go"), ("schema From*/To*", "engines/yayamls/schema/")),
     "runtime monitor: reference value model vs recorded reads of the real decoder over PRNG workloads",
     "exploration: each generated tree is executed through the real encoder and decoder and every read is compared with the model; trusts the Go runtime and the model (about 400 lines)")
prop("C02", "A value encoded by goyaml is read back unchanged",
     "Whatever tree of nulls, booleans, integers, unsigned integers, floats, strings, timestamps, sequences and mappings a program inserts through the goyaml encoder, reading the produced bytes with the goyaml decoder yields exactly the same tree: same shape, order, sizes and bit-exact scalar values, raw fragments included.",
     ["inputs"], "all finite value trees x insertion of any subtree as raw YAML or raw text",
     "the tests round-trip a few dozen hand-written trees; the value space is unbounded",
     [GW+"builder.go", GW+"writer.go", GR+"reader.go", "engines/goyaml/schema/"],
     m(("ASTBuilder", GW+"builder.go"), ("ASTReader route", GR+"reader.go"), ("schema From*/To*", "engines/goyaml/schema/")),
     "runtime monitor: reference value model vs recorded reads of the real decoder over PRNG workloads",
     "exploration: as C01 for the goyaml engine; trusts gopkg.in/yaml.v3 as the engine's parser")
prop("C03", "Emitted documents mean the same to every YAML reader",
     "The bytes produced by either encoder are a single valid YAML document whose structure, resolved types and values are the ones inserted, as judged by an independent YAML implementation, and the other yamly engine reads the same values from them. In particular text is never emitted so that it reads as a number, boolean, null or structure in the default quoting mode.",
     ["inputs"], "all finite value trees x {yayamls quoted, yayamls unquoted, goyaml} encoders",
     "no test feeds emitted bytes to a foreign parser; a reader and writer of one engine can agree on a wrong syntax",
     [YW+"writer.go", YW+"builder.go", GW+"builder.go", "engines/yayamls/yamlchar/chars.go"],
     m(("quoting decision", YW+"builder.go"), ("block writer", YW+"writer.go"), ("yaml.v3 marshalling", GW+"writer.go")),
     "runtime differential monitor: emitted bytes observed by yaml.v3 and the other engine vs the value model",
     "exploration: trusts yaml.v3 as the independent YAML reader")
prop("C04", "The meaning of a document does not depend on its presentation",
     "However a value is written in YAML - block, flow or compact collections, plain, quoted, literal or folded scalars, any consistent indentation, comments, explicit keys, anchors and aliases, tags, document markers, byte order mark, either line break convention - both engines read exactly that value. Reads through the typed decoder calls never differ between presentations of one value.",
     ["inputs"], "all value trees x all valid presentations of them",
     "the tests hold a fixed set of documents; presentations combine multiplicatively (style x indentation x nesting x comments)",
     [YL+"tokenizer.go", YL+"context.go", YP+"block.go", YP+"flow.go", YP+"documents.go", YP+"indents.go", YR+"reader.go", GR+"reader.go"],
     m(("recursive descent over the YAML productions", YP), ("lexer contexts", YL+"context.go"), ("route of visited nodes", YR+"reader.go")),
     "runtime differential monitor: random presentations of a known value read by both engines, generator confirmed by yaml.v3",
     "exploration: a document is judged only when yaml.v3 confirms that it means the intended value; productions with recorded defects are outside the generator and listed in known_findings.jsonl")
exec(open(os.path.join(VD, "tools", "meta_more.py")).read())

IMPL = sys.argv[1].split(",") if len(sys.argv) > 1 else [x["p"]["id"] for x in PROPS]

with open(os.path.join(VD, "properties.jsonl"), "w") as f:
    for x in PROPS:
        if x["p"]["id"] in IMPL:
            f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
       "checks": [{"property": x["p"]["id"], "quick_cmd": f"bash /verif/run.sh {x['p']['id']} quick",
                   "thorough_cmd": f"bash /verif/run.sh {x['p']['id']} thorough",
                   "technique": x["technique"], "level": x["level"], "level_note": x["note"]}
                  for x in PROPS if x["p"]["id"] in IMPL],
       "not_applicable": []}
json.dump(man, open(os.path.join(VD, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(VD, "MANIFEST.json"), "a").write("\n")
print(len(IMPL), "properties")
