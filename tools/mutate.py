#!/usr/bin/env python3
"""mutate.py LAB SEED COUNT [path regex] [--props P01,P02]: random small changes of the source in a lab, and which checks notice them (development tool)."""
import json, os, random, re, subprocess, sys, time
V = "/verif"
LAB, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
RX = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
L = f"/tmp/lab/{LAB}"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
by_file = {}
for p in props:
    for f in p["anchors"]["files"]:
        by_file.setdefault(f, []).append(p["id"])
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\[i\]", "[0]"), (r"\(i, j\)", "(j, i)"), (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\.z\b", ".y"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "3.0"), (r"\b1\.0\b", "2.0"),
       (r"T::one\(\)", "T::zero()"), (r"T::zero\(\)", "T::one()"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\b0\.\.", "1.."), (r" \+= ", " = "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bbreak;", "continue;"), (r"\.abs\(\)", ""), (r"\.transpose\(\)", ""), (r"\.rev\(\)", ""), (r"\bif ", "if !("), (r" -([a-z(])", r" \1"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\breturn None", "panic!()"), (r"\.is_empty\(\)", ".len() == 1"),
       (r"\bSome\((\w+)\) =>", None), (r"^(\s*)([a-z_\.\[\]]+(\([^;]*\))+;)$", r"\1"), (r"\b2\b", "3"), (r"\b1\b", "0"), (r"\b3\b", "2"), (r"\.row\(", ".column("), (r"\.dot\(&?(\w+)\)", r".norm()"), (r"\.sqrt\(\)", ""), (r"\.push\(", ".insert(0, ")]


def lines(path):
    """(line number, text) of code outside tests and comments"""
    s = open(path).read().split("\n")
    out, skip = [], False
    for i, l in enumerate(s):
        t = l.strip()
        if t.startswith("#[cfg(test)]"):
            break
        if not t or t.startswith(("//", "#[", "use ", "pub use", "pub fn", "fn ", "impl", "where", "pub struct", "pub trait", "type ", "mod ", "pub mod", "*", "/*", "assert", "debug_assert")) or t.startswith("DefaultAllocator") or t.endswith("where"):
            continue
        if re.match(r"^[-+0-9.e, \[\]vec!]+$", t) and random.random() < 0.97:
            continue
        out.append(i)
    return s, out


def mutants(path):
    s, ls = lines(path)
    out = []
    for i in ls:
        code = s[i].split("//")[0]
        for a, b in OPS:
            if b is None:
                continue
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if a == r"\bif ":
                    k = new.rfind(" {")
                    if k < 0 or " let " in new:
                        continue
                    new = new[:k] + ")" + new[k:]
                out.append((i, s[i], new))
    return s, out


def run(cmd, t=600):
    return subprocess.run(["bash", f"{V}/tools/inlab.sh", LAB, "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def main():
    random.seed(SEED)
    files = [f for f in by_file if RX.search(f) and os.path.exists(f"{L}/repo/{f}")]
    pool = {f: mutants(f"{L}/repo/{f}") for f in files}
    w = [min(len(pool[f][1]), 400) ** 0.7 for f in files]
    done = 0
    while done < COUNT:
        f = random.choices(files, w)[0]
        s, ms = pool[f]
        if not ms:
            continue
        i, old, new = random.choice(ms)
        path = f"{L}/repo/{f}"
        t = s[:]
        t[i] = new
        open(path, "w").write("\n".join(t))
        t0 = time.time()
        res, caught = [], None
        try:
            ps = by_file[f][:]
            random.shuffle(ps)
            for p in ps:
                try:
                    r = run(f"VERIF_TIER=quick python3 check.py {p} --tier quick")
                except subprocess.TimeoutExpired:
                    res.append((p, "timeout"))
                    continue
                if r.returncode == 2 and "does not build" in r.stdout:
                    caught = "BUILD"
                    break
                res.append((p, r.returncode))
                if r.returncode == 1:
                    caught = p
                    break
        finally:
            open(path, "w").write("\n".join(s))
        if caught == "BUILD":
            continue
        done += 1
        print(f"{'caught ' + caught if caught else 'MISSED ' + str(res)} {f}:{i+1} [{time.time()-t0:.0f} s]\n    - {old.strip()}\n    + {new.strip()}", flush=True)


main()
