#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] | --replay FILE | --list"""
import os, sys, json, time, random, shutil, tempfile, argparse, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import vf
from vf import log, VERIF

def known_findings(prop):
    """[(id, description)] of findings listed (not fixed) for a property."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) script=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--drv")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    base = os.path.join(vf.BUILD, "work")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run", dir=base)
    try:
        drv = a.drv or vf.build()
        if a.setup:
            log("library and driver built: " + drv)
            return 0
        if a.replay:
            L = [l.rstrip("\n") for l in open(a.replay)]
            sid = [l for l in L if l.startswith("# ")][0][2:]
            body = [l for l in L if not l.startswith("#") and l.strip()]
            v = vf.judge(drv, [(sid, body)], work)
            for i, r in v.rejects.items(): log("rejected at event %d (%s): %s" % r)
            return 1 if v.rejects else 0
        import props
        P = props.PROPS[a.prop]
        rng = random.Random("%s/%s/%d" % (a.prop, a.tier, seed))
        scripts, states, trans, samples, known = [], 0, 0, [], dict(known_findings(a.prop))
        info = {}
        for m in P.models(a.tier):
            ms, gen, dist = vf.run_model(m["module"], m["cfg"], m.get("workers", 1 if a.tier == "quick" else 6))
            states += dist; trans += gen
            info.setdefault("models", []).append({"module": m["module"], "cfg": m["cfg"], "states": dist, "transitions": gen})
            ms = m.get("select", lambda x, r: x)(ms, rng)
            for i, s in enumerate(ms):
                scripts.append(("%s.%d" % (m["cfg"].replace(".cfg", ""), i), m.get("head", ["obs ea"]) + s + m.get("tail", [])))
        t1 = time.time()
        nm = len(scripts)
        for i, s in enumerate(P.scripts(a.tier, rng)):
            name, lines = s if isinstance(s, tuple) else ("%s.g%d" % (a.prop, i), s)
            scripts.append((name, lines))
        if os.environ.get("VF_VERBOSE"): log("  %d scripts from models, %d generated, %.1fs" % (nm, len(scripts) - nm, time.time() - t0))
        v = vf.judge(drv, scripts, work, P.timeout)
        viol = {}
        by = dict(scripts)
        for i, r in v.rejects.items():
            if i in known: continue
            viol[i] = r
        for i in known:
            if i in by: log("KNOWN-FINDING: property=%s %s" % (a.prop, known[i]) if i in v.rejects else "note: finding %s no longer shows" % i)
        rc = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, r in viol.items():
            rp = os.path.join(VERIF, "replays", "%s_%s.txt" % (a.prop, re.sub(r"\W", "_", i)))
            with open(rp, "w") as f:
                f.write("# %s\n#: rejected at event %d (%s)\n#: %s\n%s\n" % (i, r[0], r[1], r[2], "\n".join(by[i])))
            log("VIOLATION property=%s replay=%s" % (a.prop, rp))
            log("  event %d (%s): %s" % (r[0], r[1], r[2][:400]))
            rc = 1
        for k in list(range(0, nm, max(1, nm // 2)))[:2] + list(range(nm, len(scripts), max(1, (len(scripts) - nm) // 3)))[:3]:
            samples.append("; ".join(scripts[k][1])[:600])
        ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
              "coverage": dict({"states": states + v.states, "transitions": trans + v.events, "traces_validated_against_impl": v.accepted, "samples": samples,
                           "model_states": states, "model_transitions": trans, "trace_states": v.states, "events_validated": v.events,
                           "scripts_from_models": nm, "scripts_generated": len(scripts) - nm}, **info),
              "assumptions": P.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        log("%s %s: %d traces, %d events, %d model states, %.1fs: %s" % (a.prop, a.tier, v.accepted, v.events, states, time.time() - t0, "VIOLATED" if rc else "held"))
        return rc
    except vf.Broken as e:
        log("check broken: %s" % e)
        return 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: log("work kept in " + work)

sys.exit(main())
