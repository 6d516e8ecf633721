#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
TL = "TLA+ specification checked with TLC (JsLex tokenizer machine); TLC's behaviours replayed into the real tokenizer, its recorded traces validated by TLC"
TP = "TLA+ specification checked with TLC (JsParse/JsPull parsing machine, composed with JsLex on whole texts); TLC's state graph replayed into the real parser, its recorded token requests validated by TLC"
NL = "Exhaustive on the specification within per-property alphabets and depths (tools/props.py); the implementation is bound by replaying every explored behaviour, all texts over those alphabets to a greater length, random texts, and validated traces. Bounded, not a proof."
NP = "Exhaustive on the specification within per-property alphabets, prefixes and depths (tools/props.py); the implementation is bound by replaying every explored edge as programs, random programs and corruptions judged by the specification's tables, and validated traces. Bounded, not a proof. Early errors and unsupported syntax are not judged."
m = dict(version=1, setup_cmd="python3 tools/setup.py",
  hooks=dict(guard="cfg(jsparse_verif)", enable='RUSTFLAGS="--cfg jsparse_verif" cargo build in /verif/harness (path dependency on /repo)', source_commits=["2539e06c4a7ca487e301754f7f01a8640c2f2ace"]),
  checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py " + p, technique=TL if p in props.LEX else TP,
    level="model_checking", level_note=NL if p in props.LEX else NP) for p in props.ALL],
  not_applicable=[dict(property="A01", reason="src/ast is not compiled (commented out in src/lib.rs, 280 compile errors), so there is no running code to bind a specification to")])
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
