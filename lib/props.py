"""Source of properties.jsonl and MANIFEST.json:  python3-vt lib/props.py  rewrites both."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe, thorough=thorough))


from props_data import fill  # noqa: E402

fill(prop)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py")):
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3-vt run.py %s" % p["id"],
                       "thorough_cmd": "env VERIF_TIER=thorough python3-vt run.py %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    na = [{"property": p["id"], "reason": "check not built yet"} for p in P
          if not os.path.exists(os.path.join(VERIF, "checks", p["id"].lower() + ".py"))]
    m = {"version": 1, "setup_cmd": "python3-vt lib/build.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the harnesses drive the public interfaces. Every check rebuilds the bridge programs it "
                  "needs from /repo's working tree (objects cached by content hash in /verif/build). VERIF_TIER picks "
                  "the case counts, VERIF_SEED every random choice; a saved failure replays with "
                  "'python3-vt run.py --replay FILE'."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
