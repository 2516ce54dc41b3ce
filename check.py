#!/usr/bin/env python3
"""Decide one property: discharge its contracts on /repo's current tree.

  check.py C02          quick or thorough by VERIF_TIER
  check.py C02 FILTER   only these contracts (development; no evidence is written)
Exit 0: every obligation discharged. Exit 1: a VIOLATION line. Exit 2: undecided / machinery error.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, signal

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
REPLAY = os.path.join(HERE, "replay")
PROP = sys.argv[1]
MOD = PROP.lower()
ONLY = sys.argv[2] if len(sys.argv) > 2 else None
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
# The whole check has 900 s in the quick tier.
BUDGET = float(os.environ.get("VERIF_BUDGET", "840" if TIER == "quick" else "14400"))
JOBS = os.cpu_count() or 8
TARGET = os.path.join(os.environ.get("VERIF_TARGET") or os.path.join(HARNESS, "target"), "kani")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
RELEASE = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}
# Categories of checks that are about memory safety: never excused, whatever the contract.
MEM = {"pointer_dereference", "pointer_primitives", "array_bounds", "safety_check", "NaN",
       "memory-leak", "pointer_arithmetic", "undefined-behavior"}
OK = ("Success", "Unreachable", "Satisfied", "Unsatisfiable", "Covered")


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, env=None, cwd=HARNESS):
    """Run in its own process group; kill all of it on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


# CBMC is called through this wrapper. Without traces it is faster and does not run out of memory
# while printing them; and an answer that stops half-way (which Kani takes for success) is noticed.
WRAPPER = """#!/bin/bash
real=%s
ulimit -v 11000000
a=(); o=none
for x in "$@"; do
  case "$x" in
    --trace) [ -n "$DV_TRACE" ] && a+=("$x");;
    *.out) o=$(basename "$x"); a+=("$x");;
    *) a+=("$x");;
  esac
done
[ $o = none ] && exec "$real" "${a[@]}"
exec "$real" "${a[@]}" > >(exec tee >(exec tail -c 300 > "$DV_TAILS/$o"))
"""


def kani_home():
    """A KANI_HOME of symbolic links to the installed one, with CBMC behind the wrapper."""
    real = os.environ.get("KANI_HOME") or os.path.expanduser("~/.kani")
    home = os.path.join(os.environ.get("VERIF_TARGET") or os.path.join(HARNESS, "target"), "kanihome")
    shutil.rmtree(home, ignore_errors=True)
    os.makedirs(home)
    for v in os.listdir(real):
        if not v.startswith("kani-"):
            continue
        os.mkdir(os.path.join(home, v))
        for e in os.listdir(os.path.join(real, v)):
            if e != "bin":
                os.symlink(os.path.join(real, v, e), os.path.join(home, v, e))
        os.mkdir(os.path.join(home, v, "bin"))
        for e in os.listdir(os.path.join(real, v, "bin")):
            if e != "cbmc":
                os.symlink(os.path.join(real, v, "bin", e), os.path.join(home, v, "bin", e))
        w = os.path.join(home, v, "bin", "cbmc")
        with open(w, "w") as f:
            f.write(WRAPPER % os.path.join(real, v, "bin", "cbmc"))
        os.chmod(w, 0o755)
    return home


def mangled(h):
    """The tail of the v0-mangled name of a harness."""
    return "".join("%d%s%s" % (len(p), "_" if p[0] in "_0123456789" else "", p) for p in h.split("::"))


def kani(filters, features, release, per_harness, exact=False, extra=(), jobs=JOBS, trace=False):
    """Returns (results by harness | None, raw output)."""
    js = tempfile.NamedTemporaryFile(prefix="kani", suffix=".json", delete=False).name
    tgt = TARGET + ("-rel" if release else "") + ("-" + "-".join(features) if features else "")
    cmd = ["cargo", "kani", "--target-dir", tgt, "-Z", "unstable-options", "-Z", "stubbing",
           "--harness-timeout", "%ds" % per_harness, "--no-assertion-reach-checks", "--export-json", js]
    for f in filters:
        cmd += ["--harness", f]
    if exact:
        cmd += ["--exact"]
    if features:
        cmd += ["--features", ",".join(features)]
    if jobs > 1:
        cmd += ["-j", str(jobs), "--output-format", "terse"]
    if release:
        cmd += ["--no-overflow-checks"]
    cmd += list(extra)
    env = dict(ENV)
    if release:
        env.update(RELEASE)
    home, tails = kani_home(), tempfile.mkdtemp(prefix="tails")
    env.update(KANI_HOME=home, DV_TAILS=tails)
    if trace:
        env["DV_TRACE"] = "1"
    rc, out = run(cmd, left(), env)
    res = None
    try:
        with open(js) as f:
            d = json.load(f)
        res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
    except Exception:
        pass
    for h, r in (res or {}).items():
        ends = [f for f in os.listdir(tails) if f.endswith(mangled(h) + ".out")]
        # "error" instead: out of memory, say.
        if not ends or not any(re.search(r'"cProverStatus": "(success|failure)"', open(os.path.join(tails, f)).read()) for f in ends):
            r["incomplete"] = True
        if any(c["status"] == "Error" for c in r["checks"]):
            r["incomplete"] = True
    shutil.rmtree(tails)
    os.unlink(js)
    return res, out, " ".join(cmd)


def judge(h, r, release=False):
    """-> (verdict, failing checks, undecided reasons); verdict in ok / violated / undecided / broken."""
    checks = r["checks"]
    if not checks:
        return "undecided", [], ["no answer within the time limit"]
    if r.get("incomplete"):
        return "undecided", [], ["the answer of the back end is incomplete"]
    must = any("CHECK MUST:" in c["description"] for c in checks)
    bad, und, broken = [], [], []
    covers = []
    gap = []
    for c in checks:
        d, st, cat = c["description"].strip('"'), c["status"], c.get("category", "")
        if cat == "cover" or d.startswith("REACHED"):
            if d.startswith("REACHED"):
                covers.append(st in ("Satisfied", "Success"))
            continue
        if st in OK:
            continue
        if d.startswith("GHOST"):
            if st == "Failure":
                broken.append(d)
            continue
        if d.startswith("ABSTRACTION"):
            gap.append("an assumed contract does not apply: " + d)
        elif cat == "unwind" or "unwinding assertion" in d or "recursion" in d:
            und.append("loop bound: " + d)
        elif cat == "unsupported_construct" or "not currently supported" in d:
            und.append(d)
        elif st == "Undetermined":
            und.append("undetermined: " + d)
        elif must and release and "with overflow" in d and "repo/src/" in str(c.get("location")):
            # Kani keeps overflow checks on whatever the flags; a release build would wrap here.
            bad.append(dict(c, description="CHECK no arithmetic wraps in a release build (%s)" % d))
        elif must and not d.startswith("CHECK") and cat not in MEM:
            continue                       # the required panic
        else:
            bad.append(c)
    # A failed loop bound or an unsupported construct cuts paths off; a real failure still counts.
    if broken:
        return "broken", [], broken
    if gap:
        return "undecided", [], gap
    if bad:
        return "violated", bad, und
    und = [u for u in und]
    if und:
        return "undecided", [], und
    if not covers or not all(covers):
        return "vacuous", [], ["%d of %d ends of the contract are reachable" % (sum(covers), len(covers))]
    return "ok", [], []


def playback(h, features, release):
    """Counterexample values of a failing harness: list of (description, [[bytes]])."""
    _, out, _ = kani([h], features, release, min(400, max(30, left() - 60)), exact=True,
                     extra=["-Z", "concrete-playback", "--concrete-playback", "print"], jobs=1, trace=True)
    tests = []
    for m in re.finditer(r"```\n(.*?)```", out, re.S):
        t = m.group(1)
        d = re.search(r"Check for `([^`]*)`: \"(.*?)\"", t, re.S)
        vals = []
        i = t.find("concrete_vals")
        for v in re.finditer(r"vec!\[([0-9, \n]*)\]", t[i:]):
            b = v.group(1).strip().rstrip(",")
            vals.append([int(x) for x in b.replace("\n", " ").split(",")] if b else [])
        cat = d.group(1) if d else ""
        if cat == "cover":
            continue
        tests.append((d.group(2) if d else "", vals))
    return tests


NATIVE = {}


def native(h, valfile, features, mode):
    """Replay natively. -> (reproduced, text)."""
    base = os.environ.get("VERIF_TARGET") or os.path.join(HARNESS, "target")
    env = dict(ENV)
    feat = ["--features", ",".join(features)] if features else []
    if mode == "miri":
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows"
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", os.path.join(base, "miri")] + feat + ["--", h, valfile]
        rc, out = run(cmd, min(200, left()), env, REPLAY)
        if rc is None:
            return False, "miri: no answer in time"
        if "Undefined Behavior" in out or "REPRODUCED" in out.replace("NOT-REPRODUCED", ""):
            return True, out[-3000:]
        return False, out[-1500:]
    prof = ["--release"] if mode == "release" else []
    tgt = os.path.join(base, "native-" + "-".join(features))
    key = (mode, tuple(features))
    if key not in NATIVE:
        rc, out = run(["cargo", "build", "-q", "--offline", "--target-dir", tgt] + prof + feat, min(200, left()), env, REPLAY)
        NATIVE[key] = rc == 0
        if rc != 0:
            log(out[-2000:])
    if not NATIVE[key]:
        return False, "native build failed"
    exe = os.path.join(tgt, "release" if mode == "release" else "debug", "replay")
    rc, out = run(["bash", "-c", "ulimit -v 8000000; exec \"$@\"", "x", exe, h, valfile], min(30, left()), env)
    if rc is None:
        return False, "no answer in time"
    if rc in (0, 77, 78):
        return False, out[-1500:]
    return True, out[-3000:] + "\nexit %d" % rc


def replay(h, features, release, bad):
    """Try to show the violation on the real code. -> dict for the replay file."""
    info = {"property": PROP, "contract": h, "features": features,
            "configuration": "release" if release else "debug",
            "failed_obligations": [{k: c.get(k) for k in ("description", "category", "function", "location")} for c in bad],
            "reproduced": False}
    variants = [["bounded"] + [f for f in features if f != "bounded"], features] if "bounded" not in features else [features]
    for feats in variants:
        if left() < 60:
            break
        for desc, vals in playback(h, feats, release)[:4]:
            vf = tempfile.NamedTemporaryFile("w", prefix="vals", delete=False)
            vf.write("".join(" ".join(map(str, v)) + "\n" for v in vals))
            vf.close()
            for mode in (["release", "debug", "miri"] if release else ["debug", "release", "miri"]):
                if left() < 20:
                    break
                okk, text = native(h, vf.name, feats, mode)
                info.setdefault("attempts", []).append({"mode": mode, "features": feats, "check": desc, "reproduced": okk, "output": text})
                if okk:
                    info.update(reproduced=True, mode=mode, features=feats, values=vals, output=text,
                                how="cd replay && cargo run --features %s -- %s <values, one per line>" % (",".join(feats), h))
                    os.unlink(vf.name)
                    return info
            os.unlink(vf.name)
    return info


def known():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) contract=(\S+) check=(.*)", l)
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    feats = ["thorough"] if TIER == "thorough" else []
    feats += [f for f in os.environ.get("VERIF_FEATS", "").split(",") if f]     # development
    per = 200 if TIER == "quick" else 1800
    state = {}                 # harness/config -> record
    cmds = []
    configs = [False]
    if os.path.exists(os.path.join(HARNESS, "src", MOD + ".rs")) and \
       "must_panic!" in open(os.path.join(HARNESS, "src", MOD + ".rs")).read():
        configs = [False, True]
    for release in configs:
        flt = [MOD + "::" + (ONLY or "")]
        if release and ONLY and not ONLY.startswith("mp_"):
            continue
        if len(configs) > 1 and not ONLY:
            # Release semantics matter for the contracts that demand a panic: whatever returns in a
            # debug build returns in a release build too. Debug builds are sampled in the quick tier.
            src = open(os.path.join(HERE, "harness", "src", MOD + ".rs")).read()
            names = re.findall(r"^    (\w+) \[", src[src.index("cases! {"):], re.M)
            mp = [n for n in names if n.startswith("mp_")]
            if TIER == "thorough":
                flt = ["%s::mp_" % MOD] if release else flt
            elif release:
                flt = ["%s::%s::%s" % (MOD, n, t) for n in mp for t in ("a3u8", "u32_")]
            else:
                flt = ["%s::%s::" % (MOD, n) for n in names if n not in mp] + ["%s::%s::u8_" % (MOD, n) for n in mp]
        res, out, cmd = kani(flt, feats, release, per)
        cmds.append(cmd)
        if not res:
            log(out[-6000:])
            log("ERROR: no verification results" + (" (compilation failed)" if "error" in out else ""))
            return finish(2, state, cmds)
        redo = []
        for h, r in sorted(res.items()):
            v, bad, und = judge(h, r, release)
            state[(h, release)] = dict(h=h, release=release, verdict=v, bad=bad, und=und, bounded=[],
                                       ms=r["duration_ms"], checks=r["checks"])
            if v in ("undecided",):
                redo.append(h)
            log("%-10s %7.1fs %s%s" % (v, r["duration_ms"] / 1000.0, h, " [release]" if release else ""))
        # First with short lengths, then also with more room for loops. Contracts that choose their
        # lengths themselves are the same with short lengths.
        again, redo = redo, []
        for more in (["bounded"], ["bounded", "wide"]):
            now = redo + [h for h in again if (h.split("::")[1] in flat_contracts()) == ("wide" in more)]
            if not now:
                continue
            if left() < 60:
                break
            log("undecided, trying with a bound:", now)
            res, out, cmd = kani(now, feats + more, release, min(per, max(60, left() / 2)), exact=True)
            cmds.append(cmd)
            if not res:
                log(out[-3000:])
            redo = []
            for h, r in sorted((res or {}).items()):
                v, bad, und = judge(h, r, release)
                first = state[(h, release)]["und"]
                state[(h, release)] = dict(h=h, release=release, verdict=v, bad=bad, und=und, bounded=more,
                                           why=first, ms=r["duration_ms"], checks=r["checks"])
                if v == "undecided" and any(u.startswith("loop bound") for u in und):
                    redo.append(h)
                log("%-10s %7.1fs %s (%s)%s" % (v, r["duration_ms"] / 1000.0, h, "+".join(more), " [release]" if release else ""))
    kf = known()
    viol, found = [], []
    for s in state.values():
        if s["verdict"] != "violated":
            continue
        rest = [c for c in s["bad"] if (s["h"], c["description"]) not in kf]
        for c in s["bad"]:
            if (s["h"], c["description"]) in kf:
                found.append("%s: %s" % (s["h"], c["description"]))
        if rest:
            viol.append((s, rest))
        else:
            s["verdict"] = "known"
    for f in sorted(set(found)):
        print("KNOWN-FINDING: property=%s %s" % (PROP, f))
    if viol:
        # Cheapest first; one reproduction is enough.
        viol.sort(key=lambda x: x[0]["ms"])
        best = None
        for s, bad in viol[:4]:
            f = feats + (s["bounded"] or [])
            info = replay(s["h"], f, s["release"], bad)
            if best is None or info["reproduced"]:
                best = info
            if info["reproduced"] or left() < 100:
                break
        best["all_failing"] = [{"contract": s["h"], "release": s["release"], "checks": sorted({c["description"] for c in b})} for s, b in viol]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (PROP, best["contract"].replace("::", "-")))
        with open(path, "w") as fh:
            json.dump(best, fh, indent=1)
        for s, b in viol:
            for c in sorted({c["description"] for c in b}):
                log("FAILED", s["h"], "|", c)
        print("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if best["reproduced"] else " no-failing-input-found"))
        return finish(1, state, cmds, len(viol))
    rest = [s for s in state.values() if s["verdict"] not in ("ok", "known")]
    if rest:
        for s in rest:
            log("UNDECIDED" if s["verdict"] == "undecided" else s["verdict"].upper(), s["h"], s["und"][:4])
        return finish(2, state, cmds)
    return finish(0, state, cmds)


def finish(rc, state, cmds, violations=0):
    obl = dis = bobl = bdis = 0
    fns = set()
    per_fn = []
    bounded = []
    src = os.path.join(HARNESS, "src", MOD + ".rs")
    looped = bounded_contracts(src)
    solver_s = 0.0
    for s in state.values():
        n = [c for c in s["checks"] if c.get("category") != "cover"]
        con = s["h"].split("::")[1]
        b = bool(s["bounded"]) or con in looped
        # A contract that demands a panic is discharged with it failing.
        d = len(n) if s["verdict"] in ("ok", "known") and not s["bad"] else len([c for c in n if c["status"] in OK])
        if b:
            bobl, bdis = bobl + len(n), bdis + d
        else:
            obl, dis = obl + len(n), dis + d
        solver_s += s["ms"] / 1000.0
        for c in n:
            f = c.get("function") or ""
            loc = str((c.get("location") or {}).get("file", ""))
            if "/repo/src" in loc or "repo/src" in loc:
                fns.add(f)
        if b:
            bounded.append({"contract": s["h"], "bound": looped.get(con, "six combinations of lengths up to 3 and spare capacities up to 8")})
        per_fn.append({"contract": s["h"] + (" [release]" if s["release"] else ""), "verdict": s["verdict"],
                       "obligations": len(n), "postconditions": len([c for c in n if c["description"].startswith("CHECK")]),
                       "bounded": b, "seconds": round(s["ms"] / 1000.0, 1)})
    ev = {
        "property": PROP, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obl, "discharged": dis,
            "bounded_obligations": bobl, "bounded_obligations_passed": bdis,
            "checker_cmd": "; ".join(cmds),
            "trusted_base": TRUSTED,
            "contracts": len(state), "proved_without_bound": len([p for p in per_fn if not p["bounded"] and p["verdict"] == "ok"]),
            "bounded_contracts": bounded,
            "functions_reached": sorted(fns),
            "back_end": "Kani 0.68.0 (MIR -> CBMC 6.x, CaDiCaL)",
            "solver_seconds": round(solver_s, 1),
            "per_contract": per_fn,
        },
        "assumptions": assumptions(),
        "wall_s": round(time.time() - T0, 1),
        "violations": violations,
    }
    log("%d contracts; without bound: %d obligations, %d discharged; bounded: %d, %d passed; %.0f s"
        % (len(state), obl, dis, bobl, bdis, time.time() - T0))
    if ONLY:
        return rc
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


def flat_contracts():
    """Contracts that choose their (concrete) lengths themselves."""
    src = open(os.path.join(HARNESS, "src", MOD + ".rs")).read()
    return set(re.findall(r"^    (\w+) \[.*flat;", src[src.index("cases! {"):], re.M))


def bounded_contracts(src):
    """Contracts whose doc comment says `Bounded: ...`."""
    out, doc = {}, []
    if not os.path.exists(src):
        return out
    for l in open(src):
        if l.startswith("///"):
            doc.append(l[3:].strip())
        else:
            m = re.match(r"pub fn (\w+)", l)
            if m:
                d = " ".join(doc)
                b = re.search(r"Bounded: (.*)", d)
                if b:
                    out[m.group(1)] = b.group(1)
            doc = []
    return out


TRUSTED = [
    "rustc's lowering of /repo's source to MIR; Kani's translation of MIR; CBMC; CaDiCaL",
    "Kani's models of the allocator and of the compiler intrinsics",
    "the standard library: verified together with dync as compiled, its own contracts are not assumed except as listed under assumptions",
    "generic code is checked at the listed element types (one per layout class), not for all types",
    "harness/src/ghost.rs: core::intrinsics::type_id_eq replaced by word-wise equality",
]
ASSUMED = {
    "heap": "the allocator replaced by the same C allocator with a ledger of layouts",
    "layout": "the allocator replaced by the same C allocator with a ledger of layouts; grown blocks have arbitrary contents (over-approximation)",
    "havoc": "grown blocks have arbitrary contents (over-approximation of realloc)",
    "rotate": "assumed contract: core::slice::rotate::ptr_rotate rotates the range (exact at one arbitrary byte)",
    "swap": "assumed contract: core::ptr::swap_nonoverlapping exchanges the two ranges (exact at one arbitrary byte)",
}
ASSUMPTIONS = [
    "lengths and capacities up to 2^40 where a contract is unbounded; contracts marked bounded say their bound",
    "no allocation failure; no unwinding out of Drop or Clone; one thread; no zero-sized elements",
    "padding bytes are not observed",
]


def assumptions():
    src = open(os.path.join(HARNESS, "src", MOD + ".rs")).read()
    kinds = set(re.findall(r"^    \w+ \[.* (\w+);$", src[src.index("cases! {"):], re.M))
    return ASSUMPTIONS + [ASSUMED[k] for k in sorted(kinds) if k in ASSUMED]


if __name__ == "__main__":
    sys.exit(main())
