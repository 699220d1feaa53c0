"""C02-C05, C23: whole runs of oclint against spec/Run.tla."""
import random
import sys
import runlib
import vlib

FAMS = {"C02": ("exit", "exitfull"), "C03": ("config", "configfull"), "C04": ("select", "selectfull"),
        "C05": ("process", "processfull"), "C23": ("plug", "plug")}


def check(c):
    c.build(plugins=("verifrep_plugin", "script_plugin"))
    fam = FAMS[c.pid][1 if c.thorough else 0]
    scs, seen = [], set()
    for s in c.model("GenRun", runlib.GENCFG % fam, timeout=3000 if c.thorough else 600):
        scs.append(s)
    scs.sort(key=lambda s: repr(s))
    c.log("%d scenarios" % len(scs))
    n = len(scs)
    rng = random.Random("%s-%d" % (c.pid, c.seed))
    scs += [runlib.random_scenario(rng) for _ in range(3000 if c.thorough else 150)]
    lines, runs = runlib.run_all(c, scs, "s")
    c.log("runs done")
    for i in (0, len(lines) // 2, len(lines) - 1):
        c.sample({"command": " ".join(runs[i].cmd)[-300:], "events": lines[i]["ev"][:4], "outcome": str(lines[i]["fin"])[:300]})
    runlib.validate(c, lines, runs, fam)
    codes = {}
    for l in lines:
        codes[l["fin"]["rc"]] = codes.get(l["fin"]["rc"], 0) + 1
    c.extra.update({"scenarios_enumerated": n, "scenarios_random": len(scs) - n, "events": sum(len(l["ev"]) for l in lines), "exit_codes": {str(k): v for k, v in sorted(codes.items())}})


if __name__ == "__main__":
    vlib.main(sys.argv[1], check)
