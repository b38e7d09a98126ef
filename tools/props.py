"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run `python3 tools/props.py`)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, check=None, na=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, _check=check, _na=na))

def chk(bin, technique, level, note, thorough=True):
    return dict(bin=bin, technique=technique, level=level, note=note, thorough=thorough)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())

def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        c = p["_check"]
        if c is None:
            na.append({"property": p["id"], "reason": p["_na"] or "not built yet"})
            continue
        d = {"property": p["id"], "quick_cmd": f"./check.sh {c['bin']} {p['id']}"}
        if c["thorough"]:
            d["thorough_cmd"] = f"./check.sh {c['bin']} {p['id']}"
        d.update(technique=c["technique"], level=c["level"], level_note=c["note"], evidence_file=f"evidence/{p['id']}.json")
        checks.append(d)
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Every check explores a bounded space of executions of the real code exhaustively and compares each with a reference model; see DESIGN.md."}
    if HOOKS: m["hooks"] = HOOKS
    json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")
main()
