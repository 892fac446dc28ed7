#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--only SCENARIO] [--replay FILE]

Builds the harness of a property from /repo's current working tree, explores
it and writes evidence/<PROPERTY>.json. See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
from registry import PROPS  # noqa: E402

REPO = os.environ.get("BCL_REPO", "/repo")
CXX = "g++"
BASE = ["-std=gnu++17", "-O1", "-g", "-fno-omit-frame-pointer", "-w", "-pthread",
        "-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
# What the repository's own header check includes from outside.
PRE = ["-include", "cstdint", "-include", "cstdio", "-include", "cstdlib",
       "-include", "type_traits", "-include", "utility", "-include", "iterator"]


def known(prop):
    """Signatures of findings which are recorded and not repaired."""
    res = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) sig=(\S+)", line)
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res


def config(dst, defs):
    """bcl-config.h as CMake generates it, from the template of the tree."""
    src = os.path.join(REPO, "include/bcl/bcl-config.h.in")
    text = open(src).read() if os.path.exists(src) else ""
    out = []
    for line in text.splitlines():
        m = re.match(r"\s*#\s*cmakedefine(?:01)?\s+(\w+)", line)
        if m:
            line = "#define %s 1" % m.group(1) if m.group(1) in defs else ""
        out.append(re.sub(r"@\w+@", "1", line))
    os.makedirs(os.path.join(dst, "bcl"), exist_ok=True)
    for name in ("bcl/bcl-config.h", "bcl-config.h"):
        with open(os.path.join(dst, name), "w") as f:
            f.write("\n".join(out) + "\n")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, errors="replace", **kw)


def build_node(spec, bdir):
    """Compiles an addon of Node.js. Returns (command, error text)."""
    config(bdir, [])
    cc = os.environ.get("CXX", CXX)
    inc = ["-I/usr/include/node", "-I" + os.path.join(REPO, "include"), "-I" + bdir]
    base = BASE + ["-fPIC", "-shared"]
    src = [os.path.join(VERIF, "harness", s) for s in spec["src"]] + \
        [os.path.join(REPO, s) for s in spec["repo_src"]]
    ctl = subprocess.Popen([cc] + base + inc + [os.path.join(VERIF, "harness", spec["ctl"]), "-o",
                           os.path.join(bdir, "n04_ctl.node"), "-ldl"])
    # The allocation functions are the harness's; nothing else is shared with node.
    p = run([cc] + base + SAN + ["-fno-sanitize=vptr", "-DNODE_GYP_MODULE_NAME=bclSocket"] + inc + PRE + src +
            ["-o", os.path.join(bdir, "bclSocket.node"), "-static-libstdc++",
             "-Wl,-Bsymbolic", "-Wl,--exclude-libs,ALL"])
    if ctl.wait():
        sys.exit(2)
    if p.returncode:
        return None, p.stdout[:20000]
    return ["node", "--expose-gc", os.path.join(VERIF, "harness", spec["driver"]), "--addon", bdir], ""


def build(prop, spec, bdir):
    """Compiles a harness. Returns (command, error text)."""
    if "driver" in spec:
        return build_node(spec, bdir)
    config(bdir, spec.get("config", []))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + bdir,
           "-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "harness"),
           "-I" + REPO]
    san = spec.get("san", SAN)
    libsan = spec.get("libsan", san)
    cc = os.environ.get("CXX", CXX)
    jobs, objs = [], []
    for gen in spec.get("gen", []):
        gen(REPO, bdir)
    srcs = [(os.path.join(VERIF, "lib", s), False)
            for s in ["mc.cpp"] + spec.get("lib", [])]
    srcs += [(os.path.join(VERIF, "harness", s), True) for s in spec["src"]]
    srcs += [(os.path.join(bdir, s), True) for s in spec.get("gensrc", [])]
    srcs += [(os.path.join(REPO, s), True) for s in spec.get("repo_src", [])]
    err = ""
    for src, uses in srcs:
        obj = os.path.join(bdir, os.path.basename(src) + ".o")
        objs.append(obj)
        flags = BASE + (san if uses else libsan) + inc + (PRE + spec.get("flags", []) if uses else [])
        if os.path.dirname(src) == bdir:
            flags += spec.get("genflags", [])
        jobs.append((src, uses, subprocess.Popen(
            [cc] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")))
    for src, uses, p in jobs:
        out, _ = p.communicate()
        if p.returncode:
            err += "%s:\n%s\n" % (src, out[:20000])
            if not uses:
                print(err)
                sys.exit(2)
    if err:
        return None, err
    exe = os.path.join(bdir, "harness")
    p = run([cc] + BASE + san + objs + ["-o", exe] + spec.get("ldflags", []) + ["-ldl"])
    if p.returncode:
        return None, p.stdout[:20000]
    return [exe], ""


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = args[1] if len(args) > 1 and args[1] in ("quick", "thorough") else \
        os.environ.get("VERIF_TIER", "quick")
    extra = []
    if "--only" in sys.argv:
        extra += ["--only", sys.argv[sys.argv.index("--only") + 1]]
    if "--replay" in sys.argv:
        extra += ["--replay", os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])]
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, "build"))
    rc, stats = 2, []
    try:
        for part in spec["parts"]:
            pdir = os.path.join(bdir, part["name"])
            os.makedirs(pdir)
            exe, err = build(prop, part, pdir)
            if exe is None:
                # The framework itself compiles, the harness, which only uses
                # the public interface, does not: try once more, alone.
                exe, err = build(prop, part, pdir)
            if exe is None:
                path = os.path.join(replays, "%s-%s-compile.replay" % (prop, part["name"]))
                with open(path, "w") as f:
                    f.write("property: %s\nthe public interface which the property "
                            "is about does not compile any more:\n%s\n" % (prop, err))
                print(err[:4000])
                print("VIOLATION property=%s replay=%s" % (prop, path))
                rc = 1
                break
            out = os.path.join(pdir, "stats.json")
            cmd = exe + ["--property", prop, "--out", out, "--tmp", pdir,
                   "--replay-dir", replays, "--jobs", str(part.get("jobs", min(16, os.cpu_count() or 8)))]
            for k in known(prop):
                cmd += ["--known", k]
            if tier == "thorough":
                cmd += ["--thorough"]
            cap = part.get("cap", {"quick": 600, "thorough": 6 * 3600})[tier]
            cmd += ["--cap", str(cap)] + extra
            env = dict(os.environ)
            for v in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "LSAN_OPTIONS", "TSAN_OPTIONS"):
                env.pop(v, None)
            env.update(part.get("env", {}))
            if "driver" in part:
                env["LD_PRELOAD"] = " ".join(run([CXX, "-print-file-name=lib%s.so" % s]).stdout.strip() for s in ("asan", "ubsan"))
                env["ASAN_OPTIONS"] = "detect_leaks=0"
            p = subprocess.run(cmd, env=env)
            if "--replay" in sys.argv:
                if p.returncode != 2:
                    rc = p.returncode
                    break
                continue
            if os.path.exists(out):
                s = json.load(open(out))
                s["part"] = part["name"]
                stats.append(s)
            rc = p.returncode
            if rc not in (0, 1):
                rc = 2
                if "--only" in sys.argv and not os.path.exists(out):
                    continue  # another part has this scenario
            if rc:
                break
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    if "--replay" in sys.argv:
        sys.exit(rc)
    tot = lambda k: sum(s[k] for s in stats)
    samples = [x for s in stats for x in s["samples"]][:12] or ["no execution"]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": spec.get("level", "model_checking"),
        "coverage": {
            "states": tot("states"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("validated"),
            "executions": tot("executions"), "distinct_outcomes": tot("outcomes"),
            "pruned_by_state_cache": tot("pruned"), "outside_of_alphabet": tot("discards"),
            "exhaustive": bool(stats) and rc == 0 and not any(s["capped"] for s in stats) and "--only" not in sys.argv,
            "scenarios": [s["part"] + "/" + n for s in stats for n in s["scenarios"]],
            "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", {})),
            "samples": samples,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if rc == 1 else 0,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    sys.exit(rc)


if __name__ == "__main__":
    main()
