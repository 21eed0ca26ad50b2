#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = "property-based testing: "
T = {
 "C01": GEN + "round-trip of enumerated and random text through the lexer",
 "C02": GEN + "differential against a reference lexer on enumerated and random text",
 "C03": GEN + "enumerated and random programs, soups and API call sequences under a token fuel and a watchdog",
 "C04": GEN + "programs generated along with their model; near misses against a reference parser",
 "C05": GEN + "programs generated along with their model; near misses against a reference parser",
 "C06": GEN + "programs generated along with their model; near misses against a reference parser",
 "C07": GEN + "programs generated along with their model; near misses against a reference parser",
 "C08": GEN + "programs generated along with their model; near misses against a reference parser",
 "C09": GEN + "programs generated along with their model; near misses against a reference parser",
 "C10": GEN + "programs generated along with their model; near misses against a reference parser",
 "C11": GEN + "metamorphic: the same contents within backticks, parentheses and on their own; generated models; reference parser",
 "C12": GEN + "programs generated along with their model; near misses against a reference parser",
 "C13": GEN + "generated expression trees printed with minimal and redundant parentheses; reference parser",
 "C14": GEN + "generated comments tracked through the model; metamorphic removal of comments",
 "C15": GEN + "metamorphic: one model printed in two layouts, blanks replaced",
 "C16": GEN + "metamorphic: concatenation and embedding of programs against their separate parses",
 "C17": GEN + "metamorphic: garbage after a prefix, instrumented sources, interleaved parsers",
 "C18": GEN + "stateful: parsers and iterators over instrumented sources driven beyond their end",
 "C19": GEN + "exact positions from an independent count and a reference parser",
 "C20": GEN + "positions and tokens of errors against the source text and a reference parser",
 "C31": GEN + "differential: generated programs and programs written out from their trees, run by bash and dash; models and a reference parser",
 "C21": GEN + "verdict and error of a reference parser on enumerated and mutated programs",
 "C22": GEN + "programs cut off at random places",
 "C23": GEN + "log of all builder callbacks against the one derived from the model",
 "C24": GEN + "differential between builders",
 "C25": GEN + "fault injection at every builder callback of generated programs",
 "C26": GEN + "text forms against independently stated ones and re-parsing",
 "C27": GEN + "arbitrary token sequences against a reference parser; split tokens",
 "C28": GEN + "default builder's tree against the one derived from the model, normal form invariant",
 "C30": GEN + "builder calls derived from generated models against the tree derived from them; equality laws on pairs of trees",
 "C29": GEN + "stateful: sequences of public method calls against a reference parser",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
commit = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=conch_verif cfg flag"],
                        capture_output=True, text=True).stdout.split()
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": T[i],
        "level": "fault_enumeration" if i == "C25" else "exploration",
        "level_note": "generated inputs only, within the sizes given in DESIGN.md; "
                      "small alphabets are enumerated completely up to a length",
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh setup quick",
    "hooks": {
        "guard": "conch_verif",
        "enable": "RUSTFLAGS='--cfg conch_verif' cargo build (see check.sh)",
        "source_commits": commit,
    },
    "checks": checks,
    "not_applicable": [],
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
