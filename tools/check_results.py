"""C01: the collection of findings against spec/Results.tla."""
import json
import os
import random
import sys

import vlib

# rule|prio|path|sl|sc|el|ec|msg: the first, then one field different each
TABLE = ["a|1|f|3|4|5|6|m", "b|2|f|3|4|5|6|m", "a|1|g|3|4|5|6|m", "a|1|f|2|4|5|6|m", "a|1|f|3|3|5|6|m", "a|1|f|3|4|6|6|m", "a|1|f|3|4|5|7|m", "a|1|f|3|4|5|6|n"]
CFG = "CONSTANTS MaxLen=%d\nVs={%s}\nDs={%s}\nINIT Init\nNEXT Next\nINVARIANT Emit Inv\n"


def tab(table):
    return [{"prio": int(x.split("|")[1]), "path": x.split("|")[2]} for x in table]


def record(c, jobs):
    """jobs: [(table, how, ops)] -> trace lines"""
    text, cur = [], None
    for table, how, ops in jobs:
        if table is not cur:
            text.append("X")
            text += ["D " + x for x in table]
            cur = table
        text.append("R %d %s" % (how, " ".join("S" if o[0] == "S" else "%s%d" % (o[0], o[1]) for o in ops)))
    r = c.run([os.path.join(c.b["out"], "results_main")], input=("\n".join(text) + "\n").encode("latin-1"), timeout=600)
    outs = r.stdout.decode().split("\n")[:-1]
    if len(outs) != len(jobs):
        c.violation("crash", "the collection ended with status %d after %d of %d histories\n%s" % (r.returncode, len(outs), len(jobs), r.stderr.decode()[-800:]),
                    {"table": jobs[len(outs)][0], "ops": jobs[len(outs)][2]})
    return [{"tab": tab(j[0]), "ops": [list(o) for o in j[2]], "obs": json.loads(o)} for j, o in zip(jobs, outs)]


def rand_table(rng):
    """violations that collide in many ways: equal sums, shifted numbers, swapped fields"""
    rows = set()
    for _ in range(rng.choice([2, 5, 12, 40])):
        base = [rng.choice("abc"), rng.choice(["f", "g", "f/g", "a b", "F"])] + [rng.choice([0, 1, 2, 4, 8, 16, 100000]) for _ in range(4)] + [rng.choice(["", "m", "M", "m ", "mm"])]
        rows.add(tuple(base))
        for _ in range(rng.randint(0, 3)):
            v = list(base)
            i = rng.randrange(2, 6)
            if rng.random() < .5:
                v[i] ^= 1 << rng.randrange(10)
            else:
                j = rng.randrange(2, 6)
                v[i], v[j] = v[j], v[i]
            rows.add(tuple(v))
    prio = {"a": 1, "b": 2, "c": 3}
    rows = sorted(rows)
    rng.shuffle(rows)
    # diagnostics carry no rule: entries must differ elsewhere to be told apart
    return ["|".join([r[0], str(prio[r[0]])] + [str(x) for x in r[1:]]) for r in rows]


def check(c):
    c.build(harness=("results_main",), exe=False)
    jobs, seen = [], set()
    runs = [(4, "1,2,3,8", "1,8"), (6, "1,2", "1"), (4, "1,4,5,6,7", "")]
    if c.thorough:
        runs = [(5, "1,2,3,8", "1,8"), (6, "1,2", "1"), (5, "1,4,5,6,7", "1"), (5, "1,2,3,4,5,6,7,8", "")]
    for n, vs, ds in runs:
        for ops in c.model("GenResults", CFG % (n, vs, ds)):
            k = json.dumps(ops)
            if k not in seen:
                seen.add(k)
                jobs.append((TABLE, len(jobs) % 4, ops))
    n = len(jobs)
    rng = random.Random("C01-%d" % c.seed)
    for _ in range(4000 if c.thorough else 400):
        t = rand_table(rng)
        plain = [i for i in range(1, len(t) + 1) if all(t[j - 1].split("|")[2:] != t[i - 1].split("|")[2:] for j in range(1, i))]
        ops, opened = [], False
        for _ in range(rng.choice([3, 10, 40, 120])):
            k = rng.choice("Svvvvvvewb")
            if k == "S":
                ops.append(("S", 0))
                opened = True
            elif k == "v":
                if opened:
                    ops.append(("v", rng.randint(1, len(t))))
            else:
                ops.append((k, rng.choice(plain)))
        jobs.append((t, rng.randrange(4), ops))
    lines = record(c, jobs)
    bad = c.validate("ResultsTrace", lines)
    c.traces += len(lines)
    for i in (n // 2, n - 1, len(lines) - 1):
        if i < len(lines):
            c.sample({"ops": str(lines[i]["ops"])[:200], "views": str(lines[i]["obs"])[:300]})
    for i, e in sorted(bad.items()):
        c.violation("h%d" % i, "history %s over %s\nanswered %s\nspecified %s" % (lines[i]["ops"], jobs[i][0], json.dumps(lines[i]["obs"]), json.dumps(e)),
                    {"table": jobs[i][0], "history": lines[i]["ops"], "observed": lines[i]["obs"], "expected": e})
    c.extra.update({"histories_enumerated": n, "histories_random": len(jobs) - n, "max_length": max(len(j[2]) for j in jobs)})
    c.assumptions.append("the whole path from a rule's report to the views is also covered by the whole-run traces of C02-C05")


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
