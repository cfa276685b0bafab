"""Source of properties.jsonl and MANIFEST.json: python3 tools/text.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
T = []


def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **(dict(observe_at=observe) if observe else {})),
                  _t=technique, _n=note))


exec(open(os.path.join(V, "tools", "entries.py")).read())

NA = []
if __name__ == "__main__":
    import props
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for t in T:
            f.write(json.dumps({k: v for k, v in t.items() if k[0] != "_"}) + "\n")
    ids = [t["id"] for t in T]
    assert sorted(ids) == sorted(props.PROPS), (set(ids) ^ set(props.PROPS))
    for i in ids:
        assert len(props.PROPS[i]["rule"]) > 5, i
    m = dict(version=1, setup_cmd="python3 check.py --setup",
             hooks=dict(guard="RK_VERIFY_HOOKS", enable="-DRK_VERIFY_HOOKS=1", source_commits=[]),
             checks=[dict(property=t["id"], quick_cmd="python3 check.py %s --tier quick" % t["id"], thorough_cmd="python3 check.py %s --tier thorough" % t["id"],
                          technique=t["_t"], level="exploration", level_note=t["_n"]) for t in T],
             not_applicable=NA,
             notes="Sanitized builds of /repo's sources, driven by seeded workloads; oracles compare what they observe with models written from the definitions. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
