#!/usr/bin/env python3
"""Builds a check (or everything) from /repo's current working tree.

Objects are cached in /verif/build by a hash of their inputs (all repository and harness headers,
the source and the flags), so a run that finds nothing cached rebuilds everything it needs and a
run on a changed tree never uses a stale object.
"""
import concurrent.futures, glob, hashlib, json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "clang++"
INC = ["-include", "cstdint", "-I/opt/vp/deps/rapidjson-shim", "-I" + VERIF + "/shims",
       "-I" + REPO + "/source"] + ["-I" + d for d in sorted(glob.glob(REPO + "/source/*/include"))] + \
      ["-I" + VERIF + "/engine", "-I" + VERIF + "/common"]
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        '-DJSON_SCHEMA_PATH="/nonexistent/"', "-DREPO_SRC=\"" + REPO + "/source\""]
SAN = ["-fsanitize=address", "-fsanitize=integer-divide-by-zero,null,bounds,return,unreachable,vla-bound",
       "-fno-sanitize-recover=all"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            if "/_build" in root:
                continue
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + rd(p) + b"\0")
    return h.hexdigest()


def repo_sources(meta):
    out = [f"{REPO}/{s}" for s in meta.get("repo_sources", [])]
    for m in meta["modules"]:
        for f in sorted(glob.glob(f"{REPO}/source/{m}/src/**/*.cpp", recursive=True)):
            if os.path.basename(f) != "main.cpp":
                out.append(f)
    return out


def tool_wrapper(main):
    """A source that holds a tool's main() in a namespace of its own, as <Tool>_main."""
    tool = main.split("/")[-3]
    includes = "".join(l for l in rd(main).decode("utf-8", "replace").splitlines(True)
                       if l.lstrip().startswith("#") and "include" in l)
    text = (f'{includes}\nnamespace {tool}_tool {{\n#include "{main}"\n}}\n'
            f'int {tool}_main(int n, char **v) {{ return {tool}_tool::main(n, v); }}\n')
    os.makedirs(OUT + "/gen", exist_ok=True)
    p = f"{OUT}/gen/{tool}.{sha(text)[:16]}.cpp"
    if not os.path.exists(p):
        tmp = "%s.%d" % (p, os.getpid())
        with open(tmp, "w") as f:
            f.write(text)
        os.rename(tmp, p)
    return p


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    for _ in range(3):
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode in (0, 1):
            break  # anything else is the compiler crashing or being killed
    if r.returncode != 0:
        return f"{src}:\n{r.stderr}"
    os.rename(tmp, obj)
    return None


def jobs_for(check, flavor):
    meta = CHECKS[check]
    flags = BASE + SAN + INC
    if flavor == "fuzz":
        flags = flags + ["-fsanitize=fuzzer-no-link", "-DPBT_LIBFUZZER"]
    rh = header_hash([REPO + "/source", VERIF + "/shims"])
    vh = header_hash([VERIF + "/engine", VERIF + "/common", VERIF + "/checks"])
    fk = " ".join(flags)
    jobs = []
    for s in repo_sources(meta):
        k = sha(fk, rh, s, rd(s))
        if s.endswith("/main.cpp"):
            s = tool_wrapper(s)
        jobs.append((s, f"{OUT}/obj/{os.path.basename(s)}.{k[:24]}.o", flags))
    mine = [VERIF + "/engine/pbt.cpp"] + [VERIF + "/" + s for s in meta["sources"]]
    for s in mine:
        k = sha(fk, rh, vh, s, rd(s))
        jobs.append((s, f"{OUT}/obj/{os.path.basename(s)}.{k[:24]}.o", flags))
    return jobs


CHECKS = json.load(open(VERIF + "/tools/checks.json"))


def build(checks, flavor="pbt"):
    os.makedirs(OUT + "/obj", exist_ok=True)
    os.makedirs(OUT + "/bin", exist_ok=True)
    per = {c: jobs_for(c, flavor) for c in checks}
    todo = {}
    for js in per.values():
        for j in js:
            todo[j[1]] = j
    # big files first
    order = sorted(todo.values(), key=lambda j: -os.path.getsize(j[0]))
    errs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for e in ex.map(compile_one, order):
            if e:
                errs.append(e)
    if errs:
        sys.stderr.write("\n".join(errs)[:8000] + "\n")
        return None
    bins = {}

    def link(c):
        objs = [j[1] for j in per[c]]
        key = sha(*objs)[:24]
        b = f"{OUT}/bin/{c}.{flavor}.{key}"
        bins[c] = b
        if os.path.exists(b):
            return None
        # repository objects go in an archive so that only what is used is linked
        nrepo = len(repo_sources(CHECKS[c]))
        ar = f"{b}.a"
        if os.path.exists(ar):
            os.remove(ar)
        if nrepo:
            r = subprocess.run(["ar", "rcs", ar] + objs[:nrepo], capture_output=True, text=True)
            if r.returncode:
                return r.stderr
        cmd = [CXX] + SAN + (["-fsanitize=fuzzer"] if flavor == "fuzz" else []) + objs[nrepo:] + \
            ([ar] if nrepo else []) + ["-lpugixml", "-lpthread", "-o", b + ".tmp"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if nrepo:
            os.remove(ar)
        if r.returncode:
            return r.stderr
        os.rename(b + ".tmp", b)
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for e in ex.map(link, checks):
            if e:
                errs.append(e)
    if errs:
        sys.stderr.write("\n".join(errs)[:8000] + "\n")
        return None
    return bins


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(c for c in CHECKS if "script" not in CHECKS[c])
    r = build(names, "fuzz" if "--fuzz" in sys.argv else "pbt")
    if r is None:
        sys.exit(2)
    for k in sorted(r):
        print(k, r[k])
