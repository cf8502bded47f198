#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property with Kani (CBMC).

Exit 0: every harness of the property was verified and every situation it has
to reach is reachable. Exit 1, with a VIOLATION line: the solver found a
counterexample, and it fails against the natively compiled crate too. Exit 2:
no answer.
"""
import argparse, json, os, re, resource, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(ROOT, "out")
FLAGS = ["-Z", "unstable-options", "--no-memory-safety-checks", "--no-overflow-checks",
         "--no-undefined-function-checks", "--no-assertion-reach-checks"]
NATIVE, NATIVE_LOCK = {}, threading.Lock()
# Exit codes of the native replay.
PANIC, HOLDS, NOT_REPRODUCED, LIMIT = 101, 0, 3, 4

from conf import CONF  # noqa: E402


def log(*a):
    print(*a, flush=True)


def env_kani(extra):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR")}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    # CBMC allocates a lot of small objects.
    e["GLIBC_TUNABLES"] = ("glibc.malloc.tcache_count=60000:glibc.malloc.top_pad=200000000:"
                           "glibc.malloc.mmap_max=0:glibc.malloc.trim_threshold=4000000000")
    # Inlining spares the symbolic execution of many moves of structs.
    e["RUSTFLAGS"] = "-Zmir-opt-level=3 -Zinline-mir=yes -Copt-level=3"
    e.update(extra)
    return e


def limit_mem(gb=14):
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))


def run(cmd, timeout, **kw):
    """Runs cmd, killing its whole group after timeout; (rc or None, stdout+stderr)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


class Run:
    """One configuration (crate, environment) of the harnesses of a property."""

    def __init__(self, pid, crate, pats, env, unwind=None):
        self.pid, self.crate, self.pats, self.env, self.unwind = pid, crate, pats, env, unwind
        self.dir = os.path.join(ROOT, crate)

    def limit(self):
        limit_mem(CONF["crates"][self.crate].get("memory_gb", 14))

    def kani_env(self):
        e = env_kani(self.env)
        e["RUSTFLAGS"] = (e["RUSTFLAGS"] + " " + CONF["crates"][self.crate].get("rustflags", "")).strip()
        return e

    def cmd(self, pats, exact=False):
        c = ["cargo", "kani", "--lib"]
        for p in pats:
            c += ["--harness", p]
        if exact:
            c.append("--exact")
        return c + FLAGS + (CONF["crates"][self.crate].get("flags", []))

    def verify(self, pats, exact, timeout, total, unwind=None):
        os.makedirs(OUT, exist_ok=True)
        js = os.path.join(OUT, f"{self.pid}.json")
        if os.path.exists(js):
            os.remove(js)
        c = self.cmd(pats, exact) + ["--export-json", js, "-j", "8", "--output-format", "terse",
                                     "--harness-timeout", f"{timeout}s"]
        if unwind:
            c += ["--unwind", str(unwind)]
        rc, out = run(c, total, cwd=self.dir, env=self.kani_env(), preexec_fn=self.limit)
        if not os.path.exists(js):
            return None, out
        return json.load(open(js)), out

    def playback(self, harness, timeout, unwind=None):
        """Models of the failed checks, and of the reached covers, of one harness."""
        c = self.cmd([harness], True) + ["-Z", "concrete-playback", "--concrete-playback=print",
                                         "--harness-timeout", f"{timeout}s"]
        if unwind:
            c += ["--unwind", str(unwind)]
        rc, out = run(c, timeout + 120, cwd=self.dir, env=self.kani_env(), preexec_fn=self.limit)
        res = []
        for m in re.finditer(r"/// Check for `([^`]+)`: \"(.*?)\"\n.*?let concrete_vals: Vec<Vec<u8>> = vec!\[\n(.*?)\n?    \];",
                             out, re.S):
            vals = re.findall(r"^\s*vec!\[(.*?)\],?$", m[3], re.M)
            res.append((m[1], m[2], vals))
        return res, out

    def native(self, profile):
        """Builds the native replay of the harnesses; its path."""
        key = (self.crate, tuple(sorted(self.env.items())), profile)
        with NATIVE_LOCK:
            if key not in NATIVE:
                NATIVE[key] = self.build_native(profile)
            return NATIVE[key]

    def build_native(self, profile):
        e = env_kani(self.env)
        del e["GLIBC_TUNABLES"], e["RUSTFLAGS"]
        e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
        d = "target-native" + "".join(f"-{v}" for v in self.env.values())
        e["CARGO_TARGET_DIR"] = os.path.join(self.dir, d)
        c = ["cargo", "build", "--offline", "--bin", "replay"] + (["--release"] if profile == "release" else [])
        rc, out = run(c, 600, cwd=self.dir, env=e)
        if rc != 0:
            log(out[-3000:])
            return None
        return os.path.join(self.dir, d, "release" if profile == "release" else "debug", "replay")

    def replay(self, exe, harness, path):
        rc, out = run([exe, harness.split("::")[-1], path], 120, cwd=self.dir)
        return rc, out


def write_model(path, vals):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("".join(v.replace(" ", "") + "\n" for v in vals))


def functions(meta, crate_dir):
    """Functions of /repo in the goto binaries of the harnesses."""
    fns = set()
    gi = shutil.which("goto-instrument") or "/root/.kani/kani-0.68.0/bin/goto-instrument"
    for h in meta:
        f = h.get("goto_file", "").replace(".symtab.out", ".out")
        if not os.path.exists(f):
            continue
        rc, out = run([gi, "--show-symbol-table", f], 120)
        pretty, value = "", False
        for l in out.splitlines():
            if l.startswith("Pretty name.:"):
                pretty = l[13:].strip()
            elif l.startswith("Value......."):
                value = "compiled" in l
            elif l.startswith("Location....") and value and "file /repo/src" in l and pretty:
                src = re.search(r"file (/repo/src\S*)", l)[1]
                fns.add(short(pretty) + "  [" + src[6:] + "]")
    return sorted(fns)


def short(name):
    """Drops generic arguments."""
    while True:
        n = re.sub(r"(?:::)?<[^<>]*>", "", name.replace("->", "=>").replace("=>", "~"))
        if n == name:
            return n or "?"
        name = n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = CONF["properties"][pid]
    runs = []
    for crate in conf["crates"]:
        for script in CONF["crates"][crate].get("prepare", []):
            subprocess.run([sys.executable, os.path.join(ROOT, script)], check=True)
        n = pid[1:]
        envs = conf.get("env", {}).get(tier) or CONF["crates"][crate].get("env", {}).get(tier) or [{}]
        for i, env in enumerate(envs):
            pats = [f"c{n}_"] + ([f"t{n}_"] if tier == "thorough" else [])
            runs.append(Run(pid, crate, pats, env))
    quick = tier == "quick"
    deadline = t0 + (820 if quick else 5 * 3600)
    per = 420 if quick else 3600
    problems, stats, meta_fns, samples, reached = [], [], set(), [], 0
    violation = None
    validated = 0
    nviol = 0

    for r in runs:
        threading.Thread(target=r.native, args=("release",), daemon=True).start()
        d, out = r.verify(r.pats, False, per, max(60, min(600 if quick else 4 * 3600, deadline - time.time())))
        if d is None:
            problems.append("Kani gave no result: " + out[-2500:])
            continue
        st = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d["cbmc"]}
        meta_fns |= set(functions(d["harness_metadata"], r.dir))
        results = d["verification_results"]["results"]
        want = {h["pretty_name"] for h in d["harness_metadata"]}
        have = {x["harness_id"] for x in results}
        for h in sorted(want - have):
            problems.append(f"{h}: no result")
        if not results:
            problems.append("no harness was run: " + out[-1500:])
        failing = []
        for x in results:
            cov = covers(x["checks"])
            asserts = [c for c in x["checks"] if not is_cover(c)]
            failed = [c for c in asserts if c["status"] == "Failure"]
            nsat = sum(cov.values())
            s = st.get(x["harness_id"], {})
            stats.append({
                "harness": x["harness_id"], "env": r.env, "status": x["status"],
                "checks": len(asserts), "checks_proved": sum(c["status"] in ("Success", "Unreachable") for c in asserts),
                "covers": len(cov), "covers_reached": nsat,
                "wall_s": x["duration_ms"] / 1000,
                "symbolic_execution_s": s.get("runtime_symex_s"),
                "program_steps": s.get("size_program_expression"),
                "vccs": s.get("vccs_generated"), "vccs_to_solver": s.get("vccs_remaining"),
                "solver_s": s.get("runtime_decision_procedure_s"),
            })
            log(f"{r.env.get('VK_Q', '')} {x['harness_id']}: {x['status']} {x['duration_ms'] / 1000:.1f}s, "
                f"{len(asserts)} checks, {nsat}/{len(cov)} covers")
            if x["status"] == "Success" and not failed:
                reached += nsat
                bad = [d for d, sat in cov.items() if not sat]
                if bad:
                    problems.append(f"{x['harness_id']}: not reachable: {bad}")
                elif not cov:
                    problems.append(f"{x['harness_id']}: has no reachability check")
            else:
                failing.append((x["duration_ms"], x["harness_id"], failed))
        # Counterexamples, cheapest harness first.
        failing.sort(key=lambda t: (not t[2], t[0]))
        for ms, h, failed in failing:
            if violation:
                break
            if not failed:
                problems.append(f"{h}: no verdict (time or memory)")
                continue
            desc = [f'{c["description"]} ({os.path.basename(c["location"].get("file") or "?")}:{c["location"].get("line")})' for c in failed]
            log(f"{h}: failed checks: {desc[:6]}")
            only_unwind = all(is_unwind(c) for c in failed)
            left = deadline - time.time()
            if left < 20:
                problems.append(f"{h}: failed, no time left to replay")
                continue
            tries = [None] if not only_unwind else [None, 40, 300]
            for uw in tries:
                if uw:
                    # The loops of the changed code are longer than before.
                    d2, _ = r.verify([h], True, max(10, int(min(per, deadline - time.time()))), max(20, deadline - time.time()), uw)
                    x = d2 and d2["verification_results"]["results"][0]
                    if not x:
                        problems.append(f"{h}: no verdict with unwinding {uw}")
                        break
                    f2 = [c for c in x["checks"] if not is_cover(c) and c["status"] == "Failure"]
                    log(f"{h}: unwinding {uw}: {x['status']}")
                    if x["status"] == "Success":
                        bad = [d for d, sat in covers(x["checks"]).items() if not sat]
                        if bad:
                            problems.append(f"{h}: not reachable: {bad}")
                        break
                    if not f2:
                        problems.append(f"{h}: no verdict with unwinding {uw} (time or memory)")
                        break
                models, pout = r.playback(h, max(20, int(min(per, deadline - time.time()))), uw)
                models = [m for m in models if m[0] != "cover"]
                exes = [e for e in (r.native("debug"), r.native("release")) if e]
                if not exes:
                    problems.append("the native replay does not build")
                for i, (kind, what, vals) in enumerate(models):
                    path = os.path.join(OUT, "replay", pid, f"{h.split('::')[-1]}.{i}.model")
                    write_model(path, vals)
                    for exe in exes:
                        rc, ro = r.replay(exe, h, path)
                        log(f"{h}: model of '{what[:80]}': native replay ({exe.split('/')[-2]}): exit {rc}")
                        if rc in (HOLDS, NOT_REPRODUCED, LIMIT):
                            continue
                        sh = path.replace(".model", ".sh")
                        with open(sh, "w") as f:
                            f.write("#!/bin/sh\n# %s: %s\n" % (h, what.replace("\n", " ")) +
                                    "".join(f"export {k}={v}\n" for k, v in r.env.items()) +
                                    f"cd {r.dir} && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR={os.path.dirname(os.path.dirname(exe))} "
                                    f"cargo build -q --offline --bin replay{' --release' if '/release/' in exe else ''} && exec {exe} {h.split('::')[-1]} {path}\n")
                        os.chmod(sh, 0o755)
                        violation = (h, what, sh, ro.strip().splitlines()[-6:] if rc is not None else ["hangs"])
                        break
                    if violation:
                        break
                if violation:
                    break
                if not only_unwind or (uw and not all(is_unwind(c) for c in f2)):
                    problems.append(f"{h}: the solver's counterexample does not fail natively ({len(models)} models)")
                    break
            else:
                problems.append(f"{h}: loops too long for the bounds")
        # Witnesses of the reachability checks, run natively.
        if not violation and not problems:
            hs = sorted(s["harness"] for s in stats if s["env"] == r.env)
            if quick:
                # The cheapest one will do.
                s = min((s for s in stats if s["env"] == r.env), key=lambda s: s["wall_s"])
                hs = [s["harness"]] if s["wall_s"] < 20 else []
            exe = hs and r.native("release")
            for h in hs:
                if deadline - time.time() < 60:
                    break
                models, _ = r.playback(h, max(20, int(min(per, deadline - time.time()))))
                for i, (kind, what, vals) in enumerate(models):
                    path = os.path.join(OUT, "witness", pid, f"{h.split('::')[-1]}.{i}.model")
                    write_model(path, vals)
                    rc, ro = r.replay(exe, h, path)
                    if rc == HOLDS and f"REACHED {what}" in ro:
                        validated += 1
                        if len(samples) < 12:
                            samples.append({"harness": h, "reached": what, "solver_model": [list(map(int, filter(None, v.replace(' ', '').split(',')))) for v in vals[:80]]})
                    elif rc != NOT_REPRODUCED:
                        problems.append(f"{h}: the witness of '{what}' behaves otherwise natively (exit {rc})")

    nviol = 1 if violation else 0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": conf.get("level", "model_checking"),
        "coverage": {
            "states": sum(s["program_steps"] or 0 for s in stats),
            "transitions": sum(s["vccs"] or 0 for s in stats),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"harness": s["harness"], "status": s["status"]} for s in stats[:3]],
            "explanation": "Bounded model checking of the compiled code (Kani/CBMC, SAT solver CaDiCaL): 'states' counts the steps of the "
                           "symbolic execution (each stands for all values of the symbolic inputs), 'transitions' the verification "
                           "conditions generated from them; 'traces_validated_against_impl' the solver-made witnesses of reachability "
                           "checks that were run on the natively compiled crate with the same outcome.",
            "bounds": conf["bounds"],
            "outside": conf.get("outside", ""),
            "harnesses": len(stats),
            "checks": sum(s["checks"] for s in stats),
            "checks_proved": sum(s["checks_proved"] for s in stats),
            "covers_reached": reached,
            "solver_s": round(sum(s["solver_s"] or 0 for s in stats), 2),
            "symbolic_execution_s": round(sum(s["symbolic_execution_s"] or 0 for s in stats), 2),
            "per_harness": stats,
            "functions_encoded": sorted(meta_fns),
            "problems": problems,
        },
        "assumptions": conf.get("assumptions", CONF["assumptions"]),
        "wall_s": round(time.time() - t0, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        h, what, sh, tail = violation
        log(f"{h}: {what}")
        for l in tail:
            log("  | " + l[:300])
        log(f"VIOLATION property={pid} replay={sh}")
        return 1
    if problems:
        for p in problems:
            log("no answer: " + p)
        return 2
    log(f"{pid}: held; {len(stats)} harnesses, {ev['coverage']['checks']} checks, {reached} covers, {ev['wall_s']} s")
    return 0


def is_cover(c):
    return c["category"] == "cover"


def covers(checks):
    """The situations to reach, and whether each is (in an instance of a generic function)."""
    r = {}
    for c in checks:
        if is_cover(c):
            r[c["description"]] = r.get(c["description"], False) or c["status"] == "Satisfied"
    return r


def is_unwind(c):
    return "unwinding assertion" in c["description"] or "recursion unwinding" in c["description"]


if __name__ == "__main__":
    sys.exit(main())
