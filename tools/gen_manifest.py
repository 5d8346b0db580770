#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules present and the properties listed."""
import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
 "C30": "Soundness and zero knowledge of the proof system quantify over all provers of an interactive argument and over distributions of transcripts; they rest on cryptographic assumptions and on halo2 and its gadgets, not on this source. What this source decides, that the constraints of the circuit imply the action statement, is claimed under C25; how instances and witnesses are mapped, under C04 and C19; the constants, under C23.",
 "C31": "Completeness (an honestly built bundle always proves and verifies) depends on the runtime behaviour of halo2's prover and of field arithmetic; the static part, that the witnesses given to the circuit are those of the action, is claimed under C19.",
 "C32": "Indistinguishability is a statement about probability distributions of ciphertexts, commitments and proofs; no static analysis bounds it. The static part, that every secret random value is fresh and used once, is claimed under C16.",
}
TECH = "static value-flow analysis of rustc MIR: interprocedural gated normal forms with loop summaries, compared with the relation the property requires"
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(H, "rules", pid.lower() + ".py")
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
    elif os.path.exists(f):
        m = importlib.import_module("rules." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
            "technique": getattr(m, "TECHNIQUE", TECH),
            "level": "other",
            "level_note": getattr(m, "NOTE", "Sound for all inputs relative to the MIR semantics in oflow/ and the models of external crates; "
                          "external cryptographic operations (curve, hash, cipher, proof system) are uninterpreted functions of their arguments. "
                          "A construct the engine cannot normalise is reported as UNDECIDED, not as an alarm."),
        })
    else:
        na.append({"property": pid, "reason": "Not claimed: no check has been built for it yet."})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q oflow rules check.py", "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
