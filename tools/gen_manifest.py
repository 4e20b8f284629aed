#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
LEX="explicit-state exploration of the real tokenizer (all texts over an alphabet up to a length x all hint histories) in lockstep with a reference lexer"
PAR="explicit-state model checking: a reference LR automaton of the grammar is explored to all its configurations and every move is replayed on the real parser"
CLI="exhaustive enumeration of files and read fragmentations against the real binary"
LN="Holds for every case within the bounds listed in the evidence file (coverage.spaces), each executed on the code of /repo's working tree. Trusted: the reference lexer written from the ECMAScript lexical grammar (mc/src/lexref.rs)."
PN="Holds for every token sequence within the bounds listed in the evidence file (coverage.spaces), each executed on the code of /repo's working tree. Trusted: the reference grammar (mc/src/grammar.txt), the reference lexer, and the GLR engine that steps them."
CN="Holds for every file and fragmentation within the bounds in the evidence file, each run through the real binary. Trusted: the reference grammar and lexer."
checks=[]
for p in props:
    i=p["id"]
    if i=="C27": continue
    n=int(i[1:])
    t,l=(LEX,LN) if n<=11 else (CLI,CN) if i=="C26" else (PAR,PN)
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":"model_checking","level_note":l})
m={"version":1,"setup_cmd":"./build.sh",
"hooks":{"guard":"jsparse_verif","enable":"RUSTFLAGS=--cfg jsparse_verif (set by mc/.cargo/config.toml)","source_commits":["f0cd2df"]},
"checks":checks,
"not_applicable":[{"property":"C27","reason":"src/ast is not part of the crate (lib.rs does not declare it) and does not compile against it, so there is no code of this repository to execute; a model of it could not be bound to anything."}],
"notes":"Every check rebuilds mc/ against /repo's working tree. See DESIGN.md."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
