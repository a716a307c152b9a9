"""Single source of properties.jsonl and MANIFEST.json:  python3 meta.py"""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
P = []          # properties
NA = {}         # id -> reason
LEVEL = {}      # id -> (technique, note)


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f"src/pycba/{f}.py" for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))
    if na:
        NA[pid] = na
    else:
        LEVEL[pid] = (technique or VALUE, note or NOTE)


VALUE = "abstract interpretation (gated value numbering, polynomial-equality domain)"
NOTE = ("Equalities of value-graph normal forms computed from the source by abstract interpretation: exact "
        "real arithmetic, all magnitudes/lengths/positions symbolic, joins at merges, nothing executed. "
        "Floating-point rounding is out of scope; constructs the domain cannot express are listed as undecided "
        "in the evidence and never counted as held.")

exec(open(os.path.join(ROOT, "meta_props.py")).read())

if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    man = dict(version=1, setup_cmd="python3 check.py --selftest",
               checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                            thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                            technique=LEVEL[p["id"]][0], level="other", level_note=LEVEL[p["id"]][1])
                       for p in P if p["id"] in LEVEL],
               not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
