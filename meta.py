#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []   # (id, reason)
TESTS = "The test suite runs the example programs with a few fixed sizes and process counts; "


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), na=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
    P[-1]["_na"] = na
    P[-1]["_note"] = note


exec(open(os.path.join(V, "props.py")).read())


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    import queries
    checks, na = [], []
    for p in P:
        i = p["id"]
        if p["_na"] or not queries.PROPS.get(i):
            na.append(dict(property=i, reason=p["_na"] or "no check built yet"))
            continue
        eng = sorted(set(q.engine for q in queries.PROPS[i]))
        tech = {"symex": "bounded symbolic execution of the real code (LLVM IR, path by path, Z3), counterexamples replayed natively",
                "cbmc": "bounded model checking of the real code (CBMC, SAT), counterexamples replayed natively"}
        checks.append(dict(
            property=i, quick_cmd=f"python3 verif.py check {i}", thorough_cmd=f"VERIF_TIER=thorough python3 verif.py check {i}",
            evidence_file=f"evidence/{i}.json", technique="; ".join(tech[e] for e in eng), level="model_checking",
            level_note=(p["_note"] or "") + (" " if p["_note"] else "") +
            "Solver verdict for all values within the bounds listed per query in the evidence file; nothing is claimed beyond them. "
            "Trusted: clang/CBMC front ends, the engine in symex/, Z3, the libc models in harness/libc.c; spot-checked by replaying explored paths on a sanitizer build."))
    m = dict(version=1, setup_cmd="python3 verif.py setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo. known-findings.txt lists repaired and recorded defects. Counterexample replay: python3 verif.py replay <file>.")
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
    d = open(f"{V}/DESIGN.md").read().split("<!-- QUERIES -->")[0] + "<!-- QUERIES -->\n"
    for p in P:
        qs = queries.PROPS.get(p["id"], [])
        if not qs:
            continue
        d += f"\n### {p['id']} {p['title']}\n\n"
        for q in qs:
            d += f"* `{q.name}`{' (thorough)' if q.tier != 'quick' else ''}{' [CBMC]' if q.engine == 'cbmc' else ''}: {q.what}; {q.bounds}\n"
    open(f"{V}/DESIGN.md", "w").write(d)
    print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable/claimed")


main()
