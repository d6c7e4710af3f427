#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo by static analysis of its current source.

The crate is compiled (type checked only, nothing is run) in every supported feature configuration
with a compiler driver that writes its MIR; the abstract interpreter in tmfcheck/ then discharges the
obligations of the property. Exit 0: held on everything decided; 1: a VIOLATION line was printed."""
import fcntl
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TMF_REPO", "/repo")
WORK = os.environ.get("TMF_WORK", os.path.join(HERE, ".work"))
CONFIGS = {"default": [], "full": ["--features", "triangulation,fast_trig,byte_rw,tokio_runtime"]}
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    tgt = os.path.join(WORK, "driver")
    exe = os.path.join(tgt, "debug", "tmf-mir-dump")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTUP_TOOLCHAIN", None)
    rc, out = sh(["cargo", "build", "--offline", "-q"], os.path.join(HERE, "driver"), env)
    if rc or not os.path.exists(exe):
        print(out)
        sys.exit("cannot build the MIR driver")
    return exe


def dump(exe):
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"], HERE)
    res = {}
    for name, feats in CONFIGS.items():
        out = os.path.join(WORK, f"mir_{name}.json")
        if os.path.exists(out):
            os.remove(out)
        tgt = os.path.join(WORK, "target_" + name)
        # cargo's freshness cache would skip the driver
        for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "tmf-*")) + glob.glob(os.path.join(tgt, "debug", "build", "tmf")):
            shutil.rmtree(d)
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, TMF_MIR_OUT=out,
                   RUSTUP_TOOLCHAIN="nightly", LD_LIBRARY_PATH=root.strip() + "/lib")
        rc, txt = sh(["cargo", "check", "--lib", "--offline", "-q"] + feats, REPO, env)
        if rc or not os.path.exists(out):
            print(rc, txt[-3000:])
            sys.exit(f"cannot analyse the crate in configuration {name}")
        res[name] = out
    return res


def known(pid):
    """known findings of this property: key -> text"""
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                key, _, text = line.split(" ", 2)[2].partition(" :: ")
                res[key.strip()] = text.strip()
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.environ.get("TMF_DUMPS"):
            dumps = {k: os.environ["TMF_DUMPS"] % k for k in CONFIGS}
        else:
            dumps = dump(build_driver())
        from tmfcheck import base, mir, props
        t1 = time.time()
        for k, p in dumps.items():
            base.CRATES[k] = mir.Crate(p)
    gen = props.generator(pid)
    if os.environ.get("TMF_CFG"):
        for k in list(base.CRATES):
            if k not in os.environ["TMF_CFG"].split(","):
                del base.CRATES[k]
    tasks = gen(tier)
    flt = os.environ.get("TMF_TASK")
    if flt:
        tasks = [t for t in tasks if flt in t.name]
    base.DEADLINE = t0 + float(os.environ.get("TMF_DEADLINE", 640 if tier == "quick" else 3000))
    outs = base.run_tasks(tasks)
    total = base.Out()
    for o in outs:
        total.merge(o)
    bad, und = {}, {}
    for rule, key, where, msg in total.bad:
        bad.setdefault((rule, key), (where, msg))
    for rule, key, where, msg in total.und:
        und.setdefault((rule, key), (where, msg))
    kn = known(pid)
    new = {k: v for k, v in bad.items() if f"{k[0]}|{k[1]}" not in kn}
    for k in bad:
        kk = f"{k[0]}|{k[1]}"
        if kk in kn:
            print(f"KNOWN-FINDING: property={pid} {kk} {kn[kk]}")
    discharged = sum(total.ok.values())
    nund, nbad = len(total.und), len(total.bad)
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    level = props.LEVEL.get(pid, "other")
    cov = {
        "explanation": props.EXPLAIN.get(pid, props.EXPLAIN["*"]),
        "obligations": discharged + nund + nbad,
        "discharged": discharged,
        "undecided": nund,
        "violated": nbad,
        "rules": total.ok,
        "undecided_list": [{"rule": k[0], "key": k[1], "where": v[0], "why": v[1]} for k, v in sorted(und.items())][:60],
        "abstract_runs": len(outs),
        "configurations": sorted(base.CRATES),
        "analysed": total.info,
        "functions_in_crate": {k: sum(1 for i in c.insts if i and i.get("body")) for k, c in base.CRATES.items()},
        "samples": total.samples[:12],
        "checker_cmd": f"python3 check.py {pid}",
        "trusted_base": ["rustc type checker and MIR construction", "driver/ (MIR dump)", "tmfcheck/ abstract interpreter, its models of std/core and its term and inequality reasoning"],
        "slowest": sorted(((round(o.wall, 2), o.task) for o in outs), reverse=True)[:5],
    }
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": props.ASSUME.get(pid, []) + props.ASSUME["*"],
               "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(ev_dir, pid + ".json"), "w"), indent=1)
    if os.environ.get("TMF_VERBOSE"):
        for (rule, key), (where, msg) in sorted(und.items()):
            print(f"undecided: {rule} | {key} | {where} | {msg}"[:int(os.environ.get("TMF_COLS", "200"))])
        for n in total.notes[:int(os.environ["TMF_VERBOSE"]) - 1]:
            print(n)
        print("rules", total.ok)
        print("slowest", cov["slowest"])
    print(f"{pid}: {len(outs)} abstract runs, {discharged + nund + nbad} obligations, {discharged} discharged, {nund} undecided, "
          f"{nbad} violated ({len(new)} distinct), load {t1 - t0:.1f}s, total {time.time() - t0:.1f}s")
    if not discharged and not new:
        if not nund:
            sys.exit("nothing was analysed: the anchors of this property were not found")
        print(f"{pid}: nothing could be decided on this tree (see coverage.undecided_list)")
    if new:
        rp = os.path.join(ev_dir, pid + ".violation.json")
        json.dump([{"property": pid, "rule": k[0], "key": k[1], "where": v[0], "message": v[1]} for k, v in sorted(new.items())],
                  open(rp, "w"), indent=1)
        for k, v in sorted(new.items())[:20]:
            print(f"  {k[0]}: {v[0]}: {v[1]}")
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
