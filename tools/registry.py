"""Single source for properties.jsonl and MANIFEST.json (python3 tools/registry.py)."""
import json, os, re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP, CL, CT = "pyclibrary/c_parser.py", "pyclibrary/c_library.py", "pyclibrary/backends/ctypes.py"
UT, IN, TP = "pyclibrary/utils.py", "pyclibrary/init.py", "pyclibrary/thirdparty/find_library.py"


def line(repo_file, needle):
    """file:line of the first line containing needle (so that anchors follow the tree)."""
    try:
        for i, l in enumerate(open(os.path.join("/repo", repo_file), encoding="utf-8"), 1):
            if needle in l:
                return "%s:%d" % (repo_file, i)
    except OSError:
        pass
    return repo_file


P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, level="model_checking",
         technique="", note="", claimed=True, state=()):
    assert len(title) <= 80, title
    assert len(re.findall(r"[.;](?:\s|$)", statement)) <= 6, id
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext},
        why_tests_cant=why,
        anchors={"files": files,
                 "state": [dict(name=n, meaning=m, where=line(f, k)) for n, m, f, k in state],
                 "mechanism": [dict(name=n, where=line(f, k)) for n, f, k in mech],
                 "observe_at": observe, "hook_needed": None},
        _level=level, _technique=technique, _note=note, _claimed=claimed))


exec(open(os.path.join(ROOT, "tools", "props.py"), encoding="utf-8").read())

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
    for p in P:
        if not os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py")):
            man["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
            continue
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["_technique"], "level": p["_level"], "level_note": p["_note"]})
    man["notes"] = ("No hooks in /repo are needed: all checks drive the public API of the working tree. "
                    "See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
