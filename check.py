#!/usr/bin/env python3
"""Runs the check of one property: check.py <PROPERTY> [--tier quick|thorough]

Builds the harness binaries from /repo's current working tree, lets them explore the real code
symbolically (every branch and assertion decided by an SMT solver), replays counterexamples natively,
writes /verif/evidence/<PROPERTY>.json.  exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TARGET_DIR=os.path.join(V, "target"), CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
PROPS = json.load(open(os.path.join(V, "props.json")))


def build(bins):
    for b in bins:  # one cargo feature per group of harnesses, so a check only compiles what it needs
        cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(V, "symx/Cargo.toml"),
               "--bin", b, "--features", b[3:]]
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("ERROR: the harness does not build")
            sys.exit(2)


def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        build(sorted({b for p in PROPS.values() for b in p.get("bins", [])}))
        print("built")
        return
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    spec = PROPS[prop]
    t0 = time.time()
    out_dir = os.path.join(V, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    rep_dir = os.path.join(out_dir, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    hs = []
    if spec.get("bins"):
        build(spec["bins"])
    t_build = time.time() - t0
    for b in spec.get("bins", []):
        tmp = os.path.join(out_dir, f".{prop}.{b}.json")
        cmd = [os.path.join(V, "target/debug", b), "check", prop, "--tier", tier, "--out", tmp]
        budget = spec.get("budget", {}).get(tier)
        if budget:
            cmd += ["--budget", str(budget)]
        r = subprocess.run(cmd, env=ENV)
        if r.returncode != 0 or not os.path.exists(tmp):
            print("ERROR: harness driver failed")
            sys.exit(2)
        for h in json.load(open(tmp))["harnesses"]:
            h["bin"] = b
            hs.append(h)
        os.remove(tmp)

    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    violations, errors, knowns, incomplete, unanswered = [], [], [], [], []
    for h in hs:
        for v in h.get("violations", []):
            hit = None
            for k in kf:
                if k["harness"] == h["harness"] and k["check"] == v["check"] and \
                        all(p in v.get("native", [""])[0] for p in k.get("native_contains", [])):
                    hit = k
            if hit:
                knowns.append(hit)
                continue
            path = os.path.join(rep_dir, f"{prop}-{h['harness']}.json")
            json.dump(dict(property=prop, harness=h["harness"], check=v["check"], values=v["values"],
                           choices=v["choices"], native=v["native"], solver_model=v.get("solver_model"),
                           replay_cmd=f"/verif/target/debug/{h['bin']} replay {path}"),
                      open(path, "w"), indent=1)
            violations.append((path, h["harness"], v["check"], v["native"][:2]))
        for e in h.get("errors", []):
            (unanswered if e == "harness timed out" else errors).append(f"{h['harness']}: {e}")
        if h.get("normal_form_solver_disagrees"):
            errors.append(f"{h['harness']}: encoder normal form and solver disagree")
        for e in h.get("undecided", []):
            incomplete.append(f"{h['harness']}: undecided within the solver limits: {e}")
        for e in h.get("incomplete", []):
            incomplete.append(f"{h['harness']}: {e}")
        if not h.get("paths") and not h.get("violations"):
            unanswered.append(f"{h['harness']}: no path was completed")
        for e in h.get("unreproduced", []):
            unanswered.append(f"{h['harness']}: a solver model does not reproduce on the real code, so neither holds nor "
                              f"violated is claimed: {e.get('check')} {e.get('detail')}")

    # A harness without an answer is reported as not explored; a property of which nothing, or less than half, was
    # explored has no answer at all.
    answered = sum(1 for h in hs if h.get("paths") and not h.get("errors"))
    if unanswered and 2 * answered < len(hs):
        errors += unanswered
    else:
        incomplete += unanswered

    def s(key):
        return sum(int(h.get(key, 0) or 0) for h in hs)

    samples = []
    for h in hs:
        for x in h.get("samples", [])[:1]:
            samples.append(f"{h['harness']}: {x}")
    for h in hs:
        if len(samples) < 12:
            samples.append({"harness": h["harness"], "checks": h.get("by_name"), "paths": h.get("paths")})
    cov = {
        "states": s("paths"),
        "transitions": s("forks") + s("paths") + s("checks_distinct"),
        "traces_validated_against_impl": s("traces_validated"),
        "samples": samples[:24],
        "functions_encoded": spec.get("functions", []),
        "bounds": spec.get("bounds", ""),
        "outside": spec.get("outside", ""),
        "symbolic_paths": s("paths"),
        "paths_cut_infeasible": s("infeasible"),
        "assertions_reached": s("checks"),
        "assertions_closed_by_encoder_normal_form": s("by_normal_form"),
        "normal_form_equalities_given_to_solver_unexpanded": s("normal_form_given_to_solver"),
        "normal_form_equalities_confirmed_by_solver": s("normal_form_confirmed_by_solver"),
        "normal_form_solver_disagreements": s("normal_form_solver_disagrees"),
        "assertions_closed_by_solver": s("by_solver"),
        "assertions_closed_to_tolerance": s("by_tolerance"),
        "boolean_assertions_on_explored_paths": s("bool_checks"),
        "divisor_or_root_preconditions_assumed": s("div_assumed"),
        "queries": s("queries"), "queries_unsat": s("unsat"), "queries_sat": s("sat"), "queries_unknown": s("unknown"),
        "solver_time_s": round(sum(h.get("solver_s", 0) or 0 for h in hs), 2),
        "traces_diverged_by_rounding": s("traces_diverged"),
        "undecided": incomplete, "errors": errors,
        "harnesses": [{k: h.get(k) for k in ("harness", "about", "paths", "checks", "by_normal_form", "by_solver",
                                              "by_tolerance", "queries", "solver_s", "wall_s", "n_vars", "traces_validated",
                                              "traces_diverged", "div_assumed", "unknown_feasibility")} for h in hs],
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []) + COMMON,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(out_dir, f"{prop}.json"), "w"), indent=1)

    done = set()
    for k in knowns:
        if k["id"] not in done:
            done.add(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, hn, chk, nat in violations:
        print(f"  {hn}: {chk}: {nat}")
        print(f"VIOLATION property={prop} replay={path}")
    if violations:
        sys.exit(1)
    if errors:
        for e in errors[:40]:
            print("NO ANSWER:", e)
        sys.exit(2)
    for e in incomplete[:40]:
        print("NOT EXPLORED:", e)
    print(f"OK {prop} ({tier}): {cov['symbolic_paths']} paths, {cov['assertions_reached']} assertions, "
          f"{cov['queries']} queries, solver {cov['solver_time_s']} s, wall {ev['wall_s']} s")


COMMON = [
    "scalars are exact real numbers while exploring (no rounding, overflow or NaN); floating-point constants in the "
    "source are read as the exact double or as the simple fraction they round from",
    "every counterexample is replayed on the same code compiled for f64 and only reported if it fails there too",
]

if __name__ == "__main__":
    main()
