#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS
TECH = {
 "C01": "property-based testing: round trips and an independent implementation of the format as oracle",
 "C02": "property-based mutation testing of ciphertexts in histories, with an output-buffer invariant",
 "C03": "property-based testing of histories: freshness, width and independence invariants over all drawn values",
 "C04": "property-based differential testing against independent BLAKE2b/SHA-512 on guard-paged buffers",
 "C05": "property-based differential testing against an independent RFC 2104 HMAC",
 "C06": "property-based differential testing against an independent PRF reference",
 "C07": "property-based differential testing against an independent ChaCha20 stream, all interfaces",
 "C08": "property-based testing: inversion, bijectivity and an independent AEZ implementation",
 "C09": "stateful model-based testing against an independent multiset-hash model",
 "C10": "property-based differential testing against an independent GGM-tree model",
 "C11": "stateful property-based testing of constraint chains against a tree model",
 "C12": "property-based negative testing with an exception oracle and no-effect checks",
 "C13": "property-based round-trip testing over generated objects, with an independent decoder of the format",
 "C14": "property-based mutation and cross-type testing of wrapped blobs",
 "C15": "property-based differential testing against GMP RSA arithmetic",
 "C16": "stateful property-based testing of key histories against GMP and an independent key decoder",
 "C17": "structure-aware fuzzing of key import under sanitizers, with a consistency oracle",
 "C18": "stateful property-based testing with a census of secure memory, page protections and the heap",
 "C19": "stateful property-based testing mixing valid and invalid calls, with unchanged-state oracles",
 "C20": "property-based differential testing against GMP, all aliasings",
 "C21": "property-based round-trip and mutation testing against independent codecs",
 "C22": "property-based differential testing against a naive search on guard-paged buffers",
 "C23": "differential property-based testing: same generated programs in several builds, transcripts compared",
 "C24": "stateful property-based testing of the real code over a stand-in for RELIC (groups by discrete logarithm), against a model that computes every share and ciphertext from the master key",
 "C25": "property-based concurrency testing: generated per-thread programs against single-threaded results, under a race detector",
 "C26": "fault-injection property-based testing: a generated call with its k-th allocation or protection change failing",
 "C27": "stateful property-based testing: generated programs with initialisations and cleanups between calls against the same programs without; Prp histories on a CPU with and without AES",
}
NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        cfg = ", ".join(r["config"] for r in PROPS[i]["runs"])
        note = ("Randomised search over generated inputs and histories in the builds %s, decided by the oracle described in DESIGN.md; shows the absence of violations only on what was generated. "
                "Trusts the harness's reference implementations (cross-checked against GMP, OpenSSL or published vectors) and libsodium." % cfg)
        if i == "C26": note = "Enumerates single failure points (all when few, a sample when many) of generated calls in the builds %s; failures are single, allocators otherwise behave. Trusts the interposed allocators." % cfg
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH[i], "level": "fault_enumeration" if i == "C26" else "exploration", "level_note": note})
    elif i not in NA:
        NA[i] = "check not built yet"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks are compiled into /repo: the harnesses observe the library from outside, by interposing allocation and protection calls at link time. check.py --replay FILE re-runs a recorded failure."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NA), "not applicable")
