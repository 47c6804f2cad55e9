#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development helper; the outputs are committed)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import vf
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), note="", level="proof", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe), state=list(state), note=note, level=level, na=na))
MOSTLY_BOUNDED = {"C12", "C13", "C14", "C18", "C19", "C20", "C21"}
def scan():
    """harnesses per property with their bounds, from the evidence of the last runs (quick) and the sources (thorough)"""
    out = {}
    for hf in vf.harness_files():
        src = open(os.path.join(V, "harness", hf.stem + ".cpp")).read()
        for p in hf.props: out.setdefault(p, {"thorough": []})["thorough"] += re.findall(r"// OPT: (\w+) tier=thorough", src)
    for p in out:
        out[p]["runs"] = []
        fn = os.path.join(V, "evidence", p + ".json")
        if os.path.exists(fn):
            seen = set()
            for x in json.load(open(fn))["coverage"]["harnesses"]:
                if x["harness"] not in seen: out[p]["runs"].append((x["harness"], x.get("bounded"))); seen.add(x["harness"])
    return out
def note_of(id, o):
    pr = [h for h, b in o["runs"] if not b]
    bo = {}
    for h, b in o["runs"]:
        if b: bo.setdefault("; ".join(b), []).append(h)
    n = ("Proved for every input, schedule and iteration the harness quantifies over: %s. " % ", ".join(pr)) if pr else ""
    if bo: n += "Bounded, not counted as proved: %s. " % "; ".join("%s (%s)" % (", ".join(h), b) for b, h in bo.items())
    if o["thorough"]: n += "Larger bounds in the thorough tier: %s. " % ", ".join(sorted(set(o["thorough"])))
    return n + "Trusts the VC generator, clang and z3; see evidence for the assumed contracts."
exec(open(os.path.join(V, "tools/props.py")).read())

def main():
    claimed = set(); hs = scan()
    for f in vf.harness_files(): claimed |= set(f.props)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            d = {"id": x["id"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["text"]},
                 "why_tests_cant": x["why"], "anchors": {"files": x["files"], "mechanism": [{"name": m.split("@")[0].strip(), "where": m.split("@")[1].strip()} for m in x["mech"]]}}
            if x["state"]: d["anchors"]["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in x["state"]]
            if x["observe"]: d["anchors"]["observe_at"] = x["observe"]
            assert len(x["title"]) <= 80, x["id"]
            for fn in x["files"]: assert os.path.exists("/repo/" + fn), (x["id"], fn)
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for x in P:
        if x["na"] or x["id"] not in claimed:
            na.append({"property": x["id"], "reason": x["na"] or "contracts for this property are not built yet"})
            continue
        checks.append({"property": x["id"], "quick_cmd": "python3 vf.py check %s --tier quick" % x["id"], "thorough_cmd": "python3 vf.py check %s --tier thorough" % x["id"],
                       "evidence_file": "evidence/%s.json" % x["id"], "technique": "contract-based deductive verification of the compiled source (LLVM IR VCs, z3)",
                       "level": "other" if x["id"] in MOSTLY_BOUNDED else x["level"], "level_note": (x["note"] + " " if x["note"] else "") + note_of(x["id"], hs[x["id"]])})
    m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: /repo is compiled as it is (clang, -fno-access-control lets contracts name private state). KNOWN_FINDINGS.txt lists recorded defects and repairs."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print("claimed", len(checks), "not applicable", [n["property"] for n in na])
main()
