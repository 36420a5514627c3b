#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and jobs.py (developer tool, not run by checks)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
L = "lib/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Emulation prevention is lossless and SEI payloads never contain a start code",
  "With emulation prevention on, what is written for any payload never contains 00 00 00, 00 00 01 or 00 00 02, and reading it back gives exactly the payload; an escape byte is inserted only where it is needed, also across the border between parts written at different times. With emulation prevention off the payload is written unchanged.",
  ["inputs", "histories"], "every payload byte sequence, every state of the writer when writing is resumed",
  "Payloads hold hashes and signatures: the tests see the few byte patterns their keys and streams give, hardly ever two zeros followed by a small byte at a field border.",
  [L + "signed_video_tlv.c"], ["write_byte", "read_byte", "write_byte_many", "encode_*"], observe="bytes of a generated SEI")
p("C02", "What the signer encodes in a SEI the validator decodes to the same values",
  "For every value the signer can put in a SEI (GOP counter, number of NAL units, version, timestamp, linked hash, GOP hash, hash list, signature, public key, product information, arbitrary data, hash algorithm) the announced size equals the encoded size without escapes, multi-byte numbers are big-endian, and decoding gives back exactly the same value. Asking for the size has no side effects, the GOP counter increases by one per encoded SEI, and optional information is encoded only when it is due.",
  ["inputs", "configurations"], "every value of every field, all hash sizes, with and without timestamp, all format versions the decoder supports",
  "Tests use one product, short strings, a handful of counters and one or two keys; values at the borders of length fields and large counters are never reached.",
  [L + "signed_video_tlv.c"], ["tlv_list_encode_or_get_size", "tlv_decode", "tlv_find_tag", "tlv_find_and_decode_optional_tags", "read_64bits and friends"])
p("C03", "Decoding any SEI payload is memory safe and leaves consistent state",
  "Decoding any bytes found in a SEI, however malformed or hostile, never reads or writes outside the payload or the memory of the session, never loops forever, and is refused when a size field points outside the data. Afterwards the stored signature, hash list, key and arbitrary data are within their memory.",
  ["inputs"], "every payload, every size, every state left by earlier SEIs",
  "The tests decode SEIs the library itself produced; a validator has to accept bytes from an attacker.",
  [L + "signed_video_tlv.c", L + "legacy/legacy_tlv.c", "lib/vendors/axis-communications/sv_vendor_axis_communications.c"], ["tlv_decode", "decode_*", "tlv_find_tag", "tlv_find_and_decode_optional_tags"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read()) if os.path.exists("props.py") else None

NOTE = jobs.NOTES
claimed = {q for j in jobs.JOBS for q in j.props}
out = [x for x in P if x["id"] in claimed or x["id"] in jobs.NA]
with open("properties.jsonl", "w") as f:
    for x in out:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
checks = []
for x in out:
    if x["id"] in jobs.NA: continue
    js = [j for j in jobs.JOBS if x["id"] in j.props]
    b = [j for j in js if j.kind == "bounded"]
    lvl = jobs.LEVEL.get(x["id"], "proof")
    checks.append({"property": x["id"], "quick_cmd": "python3 run.py check %s --tier quick" % x["id"], "thorough_cmd": "python3 run.py check %s --tier thorough" % x["id"],
        "technique": "contract-based deductive verification of the real C code: contracts (pre/postconditions, frames, ghost state) on the functions, discharged per function by CBMC/goto-instrument (SAT), callees replaced by their contracts" + ("" if lvl == "proof" else "; lengths of payloads and lists bounded as stated"),
        "level": lvl, "level_note": ("%d contract jobs on the real sources, %d of them with a stated bound on a size or a list length (labelled bounded in the evidence, not counted as proved). " % (len(js), len(b)) + NOTE.get(x["id"], ""))[:1500]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in jobs.NA.items()]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
missing = claimed - {x["id"] for x in P}
print(len(checks), "claimed;", "jobs without property text:", sorted(missing))
