#!/usr/bin/env python3
"""Regenerates MANIFEST.json: python3 tools/manifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C": ("TLA+ specification of the combinators (spec/Comb.tla: small-step machine refining a denotational semantics), model checked with TLC; its behaviours replayed into the real parser, and traces recorded from the real parser validated by TLC against the specification",
       "bounded grammars, inputs and offsets exhaustively (spec/CombFamilies.tla); random recorded traces beyond them"),
 "K": ("TLA+ specification of cron expressions, evaluation and iteration (spec/Cron*.tla), model checked with TLC; its behaviours replayed into the real crate and runs recorded from the real crate validated by TLC",
       "bounded expressions and calendars exhaustively; random recorded runs beyond them"),
 "U": ("TLA+ specification of the URI grammar and model (spec/Uri*.tla), model checked with TLC; its behaviours replayed into the real crate and recorded parses validated by TLC",
       "bounded component alphabets exhaustively; random recorded parses beyond them"),
 "H": ("TLA+ specification of configuration documents (spec/Hocon*.tla), model checked with TLC; its behaviours replayed into the real crate and recorded loads validated by TLC",
       "bounded documents exhaustively; random recorded loads beyond them"),
 "T": ("TLA+ specification of the toy language (spec/Toys*.tla), model checked with TLC; its behaviours replayed into the real interpreter and recorded runs validated by TLC",
       "bounded programs exhaustively; random recorded runs beyond them"),
}
MOD = {"C": "parser_checks", "K": "cron_checks", "U": "uri_checks", "H": "hocon_checks", "T": "toys_checks"}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "lib", MOD[p[0]] + ".py")):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": T[p[0]][0], "level": "model_checking", "level_note": T[p[0]][1]})
    else:
        na.append({"property": p, "reason": "its specification is not written yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
