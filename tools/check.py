#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

The deciding step is Kani (CBMC) accepting every obligation of the property's
contract harnesses, compiled with the real crate in /repo.  See DESIGN.md.
exit 0  every obligation discharged
exit 1  an obligation failed (VIOLATION line)
exit 2  no answer (tool limit, lost anchor, timeout)
"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HOOKS = json.load(open(os.path.join(VERIF, "tools", "hooks.json")))
T0 = time.time()
DEADLINE = 840.0


def left():
    return DEADLINE - (time.time() - T0)


def say(*a):
    print(*a, flush=True)


def stage(prop, tier, scale=1):
    """contracts/<prop>/*.rs -> build/stage/<prop>, empty file for every other
    hook, so that a property depends only on its own anchors."""
    src = os.path.join(VERIF, "contracts", prop)
    dst = os.path.join(BUILD, "stage", prop)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    harnesses = {}
    for stem, path in HOOKS.items():
        text = ""
        for suffix in [".rs"] + ([".thorough.rs"] if tier == "thorough" else []):
            f = os.path.join(src, stem + suffix)
            if os.path.exists(f):
                text += open(f).read()
        if text:
            # shared spec text: `//@use name` splices contracts/common/name.rs
            def splice(m):
                return open(os.path.join(VERIF, "contracts", "common", m.group(1) + ".rs")).read()
            text = re.sub(r"^//@use (\w+)\s*$", splice, text, flags=re.M)
            text = "use crate::verif::prelude::*;\n" + text
            if scale > 1:
                text = re.sub(r"kani::unwind\((\d+)\)", lambda m: "kani::unwind(%d)" % (int(m.group(1)) * scale + 2), text)
        code = re.sub(r"//.*", "", text)
        names = sorted(set(re.findall(r"(?:\bfn\s+|\w!\(\s*|^[ \t]+)(h_\w+)(?=[\s(,])", code, flags=re.M)))
        for n in names:
            harnesses[path + "::" + n] = stem
        with open(os.path.join(dst, stem + ".rs"), "w") as o:
            o.write("#[allow(unused_imports, dead_code, unused_macros, unused_variables, unused_mut)]\npub(crate) mod body {\nuse super::super::*;\n" + text + "".join(
                "\n#[cfg(not(kani))] #[no_mangle] pub(crate) fn verif__%s() { %s() }" % (n, n) for n in names) + "\n}\n" if text else "")
    for f in os.listdir(src):
        if f.endswith(".rs"):
            assert f.split(".")[0] in HOOKS, "no hook for " + f
    with open(os.path.join(dst, "lib.rs"), "w") as o:
        for f in ("lib.rs", "bits.rs"):
            o.write(open(os.path.join(VERIF, "contracts", "common", f)).read())
    full = {h.rsplit("::", 1)[0] + "::body::" + h.rsplit("::", 1)[1]: s for h, s in harnesses.items()}
    with open(os.path.join(dst, "registry.rs"), "w") as o:
        o.write('{\nextern "Rust" {\n')
        for h in full:
            o.write("  fn verif__%s();\n" % h.rsplit("::", 1)[1])
        o.write("}\nunsafe { match name {\n")
        for h in full:
            n = h.rsplit("::", 1)[1]
            o.write('  "%s" => verif__%s(),\n' % (n, n))
        o.write('  _ => panic!("unknown harness"),\n} }\n}\n')
    return dst, full


def env_for(stage_dir, extra=None):
    e = dict(os.environ)
    e["RAV1E_VERIF_DIR"] = stage_dir
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(extra or {})
    return e


KFLAGS = ["-Z", "function-contracts", "-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks"]


def kani(stage_dir, log, args, timeout, meta):
    cmd = ["cargo", "kani", "--lib", "--no-default-features", "--target-dir",
           os.path.join(BUILD, "kani")] + KFLAGS + meta.get("kani_flags", []) + args
    if meta.get("cbmc_args"):
        cmd += ["--cbmc-args"] + meta["cbmc_args"]
    with open(log, "w") as o:
        try:
            p = subprocess.Popen(cmd, cwd=REPO, env=env_for(stage_dir), stdout=o,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = -9
    return rc, cmd, open(log, errors="replace").read()


def blocks(text):
    """text output -> {harness: [failed check descriptions]}"""
    res, cur, thread = {}, None, {}
    for line in text.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", line)
        if m:
            thread[m.group(1)] = m.group(2)
            cur = m.group(2)
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            cur = thread.get(m.group(1), cur)
            continue
        m = re.match(r"Failed Checks: (.*)", line)
        if m and cur:
            res.setdefault(cur, []).append(m.group(1))
    return res


TOOL = re.compile(r"unwinding assertion|not currently supported|unsupported|"
                  r"recursion unwinding|is not supported")


def replay_bin(stage_dir):
    env = env_for(stage_dir, {"RUSTFLAGS": "--cfg rav1e_verif",
                              "CARGO_TARGET_DIR": os.path.join(BUILD, "replay")})
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "replay", "Cargo.lock"))
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "replay"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = os.path.join(BUILD, "replay", "debug", "verif-replay")
    return (b if p.returncode == 0 else None), p.stdout


def rand_run(b, name, secs, seed, out):
    try:
        p = subprocess.run([b, "random", name, str(secs), str(seed), out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=secs + 60)
        return p.returncode, p.stdout[-2000:]
    except subprocess.TimeoutExpired:
        return 2, "timeout"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    global DEADLINE
    if tier == "thorough":
        DEADLINE = 7200.0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    global T0
    T0 = time.time()
    meta = json.load(open(os.path.join(VERIF, "contracts", prop, "meta.json")))
    stage_dir, expected = stage(prop, tier)
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    outdir = os.path.join(BUILD, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    hto = meta.get("harness_timeout", 400) if tier == "quick" else 3000
    js = os.path.join(outdir, "kani.json")
    args = ["-j", "8", "--output-format=terse", "--harness-timeout", "%ds" % hto, "--export-json", js]
    for o in only:
        args += ["--harness", o]
    def collect():
        if not os.path.exists(js):
            return False
        d = json.load(open(js))
        for e in d.get("error_details", []):
            results[e["harness_id"]] = e
        for e in d.get("property_details", []):
            details[e["harness_id"]] = e["property_details"]
        for e in d.get("cbmc", []):
            stats[e["harness_id"]] = e.get("cbmc_stats") or {}
        return True
    rc, cmd, text = kani(stage_dir, os.path.join(outdir, "kani.log"), args, left() - 60, meta)
    results, details, stats = {}, {}, {}
    if not collect():
        # killed or failed before reporting; salvage what the log says
        m = re.search(r"error(\[E\d+\])?:.*", text)
        if m and "Checking harness" not in text:
            say("\n".join(re.findall(r"^error.*\n(?:.*\n){0,8}", text, flags=re.M))[:5000])
            say("ERROR: %s: the annotated crate does not build (%s)" % (prop, m.group(0)[:200]))
            return 2
    fails = blocks(text)
    # a loop that now runs longer than the unwinding: prove it again with more
    again = [h for h in expected if h in fails and fails[h] and
             all("unwinding assertion" in x for x in fails[h])]
    if again and left() > 200:
        say("note: unwinding too small for %s; proving again with more" % ", ".join(h.rsplit("::", 1)[1] for h in again))
        stage_dir, _ = stage(prop, tier, 3)
        os.remove(js)
        a2 = ["-j", "8", "--output-format=terse", "--harness-timeout", "%ds" % hto, "--export-json", js, "--exact"]
        for h in again:
            a2 += ["--harness", h]
        rc, cmd, text = kani(stage_dir, os.path.join(outdir, "kani2.log"), a2, left() - 60, meta)
        collect()
        f2 = blocks(text)
        for h in again:
            fails.pop(h)
            if h in f2:
                fails[h] = f2[h]
    if only:
        expected = {h: s for h, s in expected.items() if any(o in h for o in only)}
    stray = [h for h in results if h not in expected]
    if stray:
        say("ERROR: contracts not registered: " + ", ".join(stray))
        return 2
    bad, tool, vac = [], [], []
    obligations = discharged = covers = 0
    solver_s = symex_s = 0.0
    per = {}
    for h in expected:
        r = results.get(h)
        pd = details.get(h) or {}
        n = lambda k: pd.get(k) or 0
        obl = n("total_properties") - n("satisfied") - n("unsatisfiable")
        obligations += obl
        discharged += n("passed") + n("unreachable")
        covers += n("satisfied")
        st = stats.get(h) or {}
        s = st.get("runtime_decision_procedure_s") or 0
        solver_s += s
        symex_s += st.get("runtime_symex_s") or 0
        per[h.rsplit("::", 1)[1]] = {"obligations": obl, "discharged": n("passed") + n("unreachable"),
                  "covers_satisfied": n("satisfied"), "solver_s": round(s, 2),
                  "vccs": st.get("vccs_generated")}
        if r is None:
            tool.append((h, "no result"))
            if h in fails and any(not TOOL.search(x) for x in fails[h]):
                tool.pop()
                bad.append(h)
        elif r.get("has_errors"):
            fl = fails.get(h, [])
            real = [x for x in fl if not TOOL.search(x)]
            if r.get("exit_status") == "properties_failed" and (real or not fl):
                bad.append(h)
            else:
                tool.append((h, (r.get("exit_status") or "?") + " " + "; ".join(fl)[:300]))
        else:
            if n("unsatisfiable") or not n("satisfied") or obl <= 0 or n("undetermined"):
                vac.append(h)
    # A harness whose only failures are unwinding assertions may be masking
    # real failures; they stay "tool".
    violations = []
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"]
    bin_ = None
    def get_bin():
        nonlocal bin_
        if bin_ is None:
            bin_ = replay_bin(stage_dir)
            if not bin_[0]:
                say("note: native replay crate does not build:\n" + bin_[1][-1500:])
        return bin_[0]
    confirmed = 0
    for h in bad:
        name = h.rsplit("::", 1)[1]
        rep = os.path.join(outdir, name + ".replay.txt")
        say("FAILED obligation(s) in %s:" % name)
        for x in fails.get(h, [])[:12]:
            say("   ", x)
        msg = fails.get(h, [])
        kn = [k for k in known if k["harness"] == name and all(any(re.search(p, x) for p in k["checks"]) for x in msg)]
        if kn:
            say("KNOWN-FINDING: property=%s %s" % (prop, kn[0]["what"]))
            continue
        found = None
        extra = ""
        if confirmed < 2 and left() > 150:
            bytes_file = os.path.join(outdir, name + ".bytes")
            b = get_bin()
            if b:
                rr, out = rand_run(b, name, meta.get("random_s", 3), seed, bytes_file)
                if rr == 1:
                    found = out
            if not found and left() > 120 and meta.get("playback", True):
                rc2, _, t2 = kani(stage_dir, os.path.join(outdir, name + ".playback.log"),
                                  ["-Z", "concrete-playback", "--concrete-playback=print", "--exact",
                                   "--harness", h, "--harness-timeout", "%ds" % int(max(30, min(200, left() - 60)))],
                                  max(60, min(260, left() - 40)), meta)
                for tst in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", t2, flags=re.S):
                    vals = re.findall(r"^\s*vec!\[([\d, ]*)\]", tst, flags=re.M)
                    with open(bytes_file, "w") as o:
                        o.write(" ".join(v.strip() for vv in vals for v in vv.split(",") if v.strip()))
                    if b:
                        try:
                            p = subprocess.run([b, "replay", name, bytes_file], stdout=subprocess.PIPE,
                                               stderr=subprocess.STDOUT, text=True, timeout=60)
                            extra = p.stdout[-3000:]
                            if p.returncode not in (0, 3, 2):
                                found = extra or "killed by signal %d" % -p.returncode
                                break
                        except subprocess.TimeoutExpired:
                            extra = "replay timed out"
            if found:
                confirmed += 1
        with open(rep, "w") as o:
            o.write("property: %s\nharness (contract): %s\nfailed obligations:\n" % (prop, h))
            for x in msg:
                o.write("  %s\n" % x)
            if found:
                o.write("\nfailing input (bytes of the symbolic inputs, in order): %s\n"
                        % open(os.path.join(outdir, name + ".bytes")).read())
                o.write("native replay on the real code:\n%s\n" % found)
            else:
                o.write("\nno failing input found by replay%s\n" % (": " + extra if extra else ""))
            o.write("\nverifier command: RAV1E_VERIF_DIR=%s %s\n" % (stage_dir, " ".join(cmd)))
            o.write("\nverifier output:\n" + text[-20000:])
        violations.append((name, rep, bool(found)))
    # obligations the verifier gave no answer for: look for a failing input of the
    # same contract natively (a bounded search, never counted as proof)
    if tool and not violations:
        b = get_bin() if left() > 60 else None
        for h, why in tool:
            name = h.rsplit("::", 1)[1]
            say("UNDECIDED %s: %s" % (name, why))
            if b and left() > 40:
                bf = os.path.join(outdir, name + ".bytes")
                rr, out = rand_run(b, name, 8, seed, bf)
                if rr == 1:
                    rep = os.path.join(outdir, name + ".replay.txt")
                    with open(rep, "w") as o:
                        o.write("property: %s\nharness (contract): %s\nverifier: %s\nfailing input found natively, bytes: %s\n%s\n"
                                % (prop, h, why, open(bf).read(), out))
                    violations.append((name, rep, True))
    lemmas = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", prop, "*.verus"))):
        p = subprocess.run(["verus", "--crate-name", "lemma", "--crate-type", "lib", f], cwd=outdir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        m = re.search(r"(\d+) verified, (\d+) errors", p.stdout)
        nv = int(m.group(1)) if m and p.returncode == 0 and m.group(2) == "0" else 0
        lemmas[os.path.basename(f)] = nv
        obligations += nv
        discharged += nv
        if not nv:
            say(p.stdout[-3000:])
            tool.append((os.path.basename(f), "lemma not verified"))
    wall = time.time() - T0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "RAV1E_VERIF_DIR=%s %s" % (stage_dir, " ".join(cmd)),
            "trusted_base": meta["trusted_base"] + [
                "Kani 0.68 / CBMC 6.11 (MIR to GOTO translation, bit-blasting) and the SAT solver",
                "termination is not proved by Kani"],
            "back_end": "Kani 0.68 -> CBMC 6.11 -> cadical/kissat",
            "contracts": len(expected), "contracts_discharged": sum(
                1 for h in expected if results.get(h) and not results[h].get("has_errors")),
            "vacuity_covers_satisfied": covers,
            "functions_under_contract": meta["functions"],
            "bounded_contracts": meta.get("bounded", {}),
            "solver_time_s": round(solver_s, 2), "symex_time_s": round(symex_s, 2),
            "per_contract": per,
            "lemmas_verus": lemmas,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 1), "violations": len(violations),
    }
    if meta["level"] == "other":
        ev["coverage"]["explanation"] = meta.get("explanation", "")
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    slow = sorted(per.items(), key=lambda kv: -kv[1]["solver_s"])[:3]
    say("%s: %d contracts, %d/%d obligations discharged, %d covers, solver %.1fs, wall %.1fs; slowest %s" % (
        prop, len(expected), discharged, obligations, covers, solver_s, wall,
        ", ".join("%s %.1fs" % (k, v["solver_s"]) for k, v in slow)))
    for name, rep, f in violations:
        say("VIOLATION property=%s replay=%s%s" % (prop, rep, "" if f else " no-failing-input-found"))
    if violations:
        return 1
    if tool:
        say("ERROR: %d contract(s) undecided" % len(tool))
        return 2
    if vac:
        say("ERROR: vacuous contract(s): %s" % ", ".join(vac))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
