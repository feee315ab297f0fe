#!/usr/bin/env python3
"""C30: the scripts that evaluate a coding measure what they say and run what they are told to.

Hypothesis draws the cases; the scripts are run from the repository's tree as they are, with stand-ins
for what is not installed here (soundfile, matplotlib) and for the processes they start.
"""
import argparse, contextlib, csv, hashlib, io, json, math, multiprocessing, os, re, runpy, shlex, shutil, sys, tempfile
import time, types
import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hseed, settings, strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SUBMISSION = REPO + "/scripts/RM_submission/submission_process.py"
CONFORMANCE = REPO + "/scripts/RM_submission/conformance_check.py"
PSNR = REPO + "/scripts/test/psnr.py"
BITRATE = REPO + "/scripts/test/bitrate.py"
METRICS = REPO + "/scripts/tools/csv_to_metrics.py"
DATA = REPO + "/scripts/tools/check_data.py"
KNOWN_BITRATE = "bytes counted as bits by scripts/test/bitrate.py"


class Broken(Exception):
    def __init__(self, tag, text):
        super().__init__(f"{tag}: {text}")


def require(ok, tag, text=""):
    if not ok:
        raise Broken(tag, text)


# ---- stand-ins ---------------------------------------------------------------------------------
SOUNDS = {}  # path -> samples, rate
WRITTEN = {}  # path -> samples, rate, arguments
RUNS = []  # commands
RUNNER = [None]


def sf_read(path, *a, **k):
    data, rate = SOUNDS[os.path.abspath(path)]
    return np.array(data), rate


def sf_write(path, data, rate, *a, **k):
    WRITTEN[os.path.abspath(path)] = (np.array(data), rate, k)
    SOUNDS[os.path.abspath(path)] = (np.array(data), rate)


def process(cmd, *a, **k):
    """subprocess.run on a system without a shell between"""
    if isinstance(cmd, (list, tuple)):
        args = [str(x) for x in cmd]
    elif k.get("shell"):
        args = shlex.split(cmd)
    else:
        args = [cmd]  # the whole string names the program
    return RUNNER[0](args, k)


def install():
    sf = types.ModuleType("soundfile")
    sf.read, sf.write = sf_read, sf_write
    plot = types.ModuleType("matplotlib.pyplot")
    for n in ("plot", "xlabel", "ylabel", "legend", "title", "savefig", "close"):
        setattr(plot, n, lambda *a, **k: None)
    plt = types.ModuleType("matplotlib")
    plt.pyplot = plot
    sys.modules.update({"soundfile": sf, "matplotlib": plt, "matplotlib.pyplot": plot})
    import subprocess
    subprocess.run = process


def functions(path):
    return types.SimpleNamespace(**runpy.run_path(path, run_name="script"))


class Outcome:
    def __init__(self):
        self.code, self.out, self.error = 0, "", None


def run_script(path, args):
    """the script as a program: exit code and what it prints"""
    o = Outcome()
    text = io.StringIO()
    old = sys.argv
    sys.argv = [path] + list(args)
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
            try:
                runpy.run_path(path, run_name="__main__")
            except SystemExit as e:
                o.code = 0 if e.code in (None, 0) else 1
            except Exception as e:
                o.code, o.error = 1, f"{type(e).__name__}: {e}"
    finally:
        sys.argv = old
    o.out = text.getvalue()
    return o


class Folder:
    def __enter__(self):
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="c30.", dir=SCRATCH[0])
        os.chdir(self.dir)
        SOUNDS.clear(), WRITTEN.clear(), RUNS.clear()
        return self.dir

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.dir)


SCRATCH = [None]


def sound(name, data, rate):
    p = os.path.abspath(name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "wb").close()
    SOUNDS[p] = (np.array(data, dtype=float), rate)
    return name


def close(a, b, eps=1e-9):
    return math.isclose(a, b, rel_tol=eps, abs_tol=eps)


# ---- references --------------------------------------------------------------------------------
def rows_of(data):
    return [list(r) if isinstance(r, list) else [r] for r in data]


def ref_psnr(x, y):
    x, y = rows_of(x), rows_of(y)
    n, w = max(len(x), len(y)), len((x or y)[0])
    x, y = x + [[0.0] * w] * (n - len(x)), y + [[0.0] * w] * (n - len(y))
    total = math.fsum((a - b) ** 2 for r, q in zip(x, y) for a, b in zip(r, q))
    return 100.0 if total == 0 else 10 * math.log10(4 * n * w / total)


def ref_rate(size, samples, rate, channels):
    return size * 8 * rate / samples / channels / 1000


def ref_fit(xs, ys):
    """value at x of the parabola of least squares, in a basis of its own"""
    mid, span = sum(xs) / len(xs), max(xs) - min(xs)
    t = (np.array(xs) - mid) / span
    c = np.linalg.lstsq(np.stack([np.ones_like(t), t, t * t], 1), np.array(ys), rcond=None)[0]
    return lambda x: c[0] + c[1] * ((x - mid) / span) + c[2] * ((x - mid) / span) ** 2


def ref_mean(f, a, b):  # of a parabola: Gauss, two points
    h, m = (b - a) / 2, (a + b) / 2
    return (f(m - h / math.sqrt(3)) + f(m + h / math.sqrt(3))) / 2


def ref_bjontegaard(r0, p0, r1, p1):
    l0, l1 = [math.log(x) for x in r0], [math.log(x) for x in r1]
    a, b = max(min(l0), min(l1)), min(max(l0), max(l1))
    d = ref_mean(ref_fit(l1, p1), a, b) - ref_mean(ref_fit(l0, p0), a, b)
    a, b = max(min(p0), min(p1)), min(max(p0), max(p1))
    e = ref_mean(ref_fit(p1, l1), a, b) - ref_mean(ref_fit(p0, l0), a, b)
    return d, (math.exp(e) - 1) * 100


# ---- generators --------------------------------------------------------------------------------
sample = st.one_of(st.integers(-32768, 32767).map(lambda v: v / 32768), st.sampled_from([0.0, -1.0, 0.5]))


@st.composite
def sounds(draw, channels, most=12):
    n = draw(st.integers(1, most))
    one = sample if channels == 1 else st.lists(sample, min_size=channels, max_size=channels)
    return draw(st.lists(one, min_size=n, max_size=n))


rates = st.sampled_from([8000, 44100, 1000, 48000])


@st.composite
def psnr_case(draw):
    ch = draw(st.sampled_from([1, 1, 2, 3]))
    x = draw(sounds(ch))
    kind = draw(st.sampled_from(["same", "near", "other", "other", "longer", "channels", "rate"]))
    y = x
    if kind == "near":
        y = [v for v in x]
        i = draw(st.integers(0, len(x) - 1))
        y[i] = draw(sounds(ch, 1))[0]
    elif kind in ("other", "longer"):
        y = draw(sounds(ch, 12 if kind == "other" else 30))
    elif kind == "channels":
        y = draw(sounds(draw(st.sampled_from([c for c in (1, 2, 3) if c != ch]))))
    r = draw(rates)
    return {"x": x, "y": y, "rate": r, "rate2": draw(rates) if kind == "rate" else r, "autopad": draw(st.booleans()),
            "swap": draw(st.booleans())}


def psnr_check(k):
    x, y = (k["y"], k["x"]) if k["swap"] else (k["x"], k["y"])
    width = [len(rows_of(v)[0]) for v in (x, y)]
    fits = k["rate"] == k["rate2"] and width[0] == width[1] and (len(x) == len(y) or k["autopad"])
    labels = ["comparable" if fits else "not comparable"] + (["padded"] if fits and len(x) != len(y) else [])
    with Folder():
        a, b = sound("a.wav", x, k["rate"]), sound("b.wav", y, k["rate2"])
        want = ref_psnr(x, y) if fits else None
        for script in (SUBMISSION, PSNR):
            got, refused = None, False
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got = functions(script).psnr_two_files(a, b, k["autopad"])
            except SystemExit as e:
                refused = e.code not in (None, 0)
            name = os.path.basename(script)
            if fits:
                require(got is not None and close(got, want), "psnr", f"{name}: {got}, expected {want}")
            else:
                require(refused, "psnr-refused", f"{name}: {got} of recordings that cannot be compared")
        o = run_script(PSNR, [a, b] + (["--autopad"] if k["autopad"] else []))
        m = re.search(r"The PSNR is: ([-+.\de]+) dB", o.out)
        if fits:
            require(o.code == 0 and m and close(float(m.group(1)), want), "psnr-printed", o.out + str(o.error))
        else:
            require(o.code != 0 and not m, "psnr-printed", o.out)
        require(run_script(PSNR, [a, "none.wav"]).code != 0, "psnr-missing")
    return fits and want != 100, labels


@st.composite
def rate_case(draw):
    ch = draw(st.sampled_from([1, 2, 4]))
    return {"channels": ch, "samples": draw(st.integers(1, 100000)), "rate": draw(rates), "size": draw(st.integers(0, 5000))}


def rate_check(k):
    shape = (k["samples"],) if k["channels"] == 1 else (k["samples"], k["channels"])
    with Folder():
        sound("a.wav", [0.0], k["rate"])
        SOUNDS[os.path.abspath("a.wav")] = (np.zeros(shape), k["rate"])
        with open("c.hmpg", "wb") as f:
            f.write(bytes(k["size"]))
        want = ref_rate(k["size"], k["samples"], k["rate"], k["channels"])
        got = functions(SUBMISSION).compute_bitrate("a.wav", "c.hmpg")
        require(close(got, want), "rate", f"{got} kbps, expected {want}")
        # of the integration tests: per recording, not per channel
        total = want * k["channels"]
        o = run_script(BITRATE, ["a.wav", "c.hmpg"])
        m = re.search(r"The bitrate is: +([-+.\de]+) ", o.out)
        require(o.code == 0 and m, "test-rate", o.out + str(o.error))
        got = functions(BITRATE).compute_bitrate("a.wav", "c.hmpg")
        require(close(float(m.group(1)), got), "test-rate-printed", o.out)
        if not close(got, want) and not close(got, total):
            require(close(got * 8, total), "test-rate", f"{got} kbps, expected {total}")
            return True, [KNOWN_BITRATE]
    return k["size"] > 0, []


@st.composite
def pad_case(draw):
    ch = draw(st.sampled_from([1, 2, 3]))
    return {"x": draw(sounds(ch)), "seconds": draw(st.integers(1, 3))}


def pad_check(k):
    with Folder():
        sound("a.wav", k["x"], 8000)
        functions(SUBMISSION).addPadding("a.wav", "b.wav", k["seconds"])
        require(os.path.abspath("b.wav") in WRITTEN, "pad-file")
        data, rate, how = WRITTEN[os.path.abspath("b.wav")]
        check_padded(data, rate, k["x"], k["seconds"])
        require(how.get("subtype", "PCM_16") == "PCM_16" and how.get("format", "WAV") == "WAV", "pad-format", str(how))
    return True, ["several channels"] if isinstance(k["x"][0], list) else []


def check_padded(data, rate, x, seconds):
    n, x = seconds * 8000, np.array(x)
    require(rate == 8000, "pad-rate", str(rate))
    require(data.shape == (len(x) + 2 * n,) + x.shape[1:], "pad-length", str(data.shape))
    require(not data[:n].any() and not data[n + len(x):].any(), "pad-silence")
    require((data[n:n + len(x)] == x).all(), "pad-content")


@st.composite
def curve(draw, n):
    """rates and qualities that grow, with steps of a common size, so that curves overlap"""
    r = [draw(st.integers(100, 400)) / 100]
    p = [draw(st.integers(0, 2000)) / 100]
    for _ in range(n - 1):
        r.append(r[-1] * draw(st.integers(150, 500)) / 100)
        p.append(p[-1] + draw(st.integers(800, 2000)) / 100)
    return r, p


@st.composite
def bj_case(draw):
    n = draw(st.integers(3, 6))
    r0, p0 = draw(curve(n))
    r1, p1 = draw(curve(n))
    kind = draw(st.sampled_from(["any", "any", "same rates", "same", "shifted", "cheaper"]))
    by = draw(st.integers(-800, 800)) / 100
    if kind == "same rates":
        r1 = list(r0)
    elif kind == "same":
        r1, p1 = list(r0), list(p0)
    elif kind == "shifted":
        r1, p1 = list(r0), [v + by for v in p0]
    elif kind == "cheaper":
        r1, p1 = [v * 2 ** (by / 8) for v in r0], list(p0)
    return {"r0": r0, "p0": p0, "r1": r1, "p1": p1, "kind": kind, "by": by}


def overlap(a, b):
    return min(max(a), max(b)) - max(min(a), min(b))


def bj_judged(r0, p0, r1, p1):
    return overlap([math.log(v) for v in r0], [math.log(v) for v in r1]) > 0.3 and overlap(p0, p1) > 3


def bj_close(a, b):
    return math.isclose(a, b, rel_tol=1e-5, abs_tol=1e-5)


def bj_check(k):
    args = k["r0"], k["p0"], k["r1"], k["p1"]
    if not bj_judged(*args):
        return False, ["no overlap"]
    f = functions(SUBMISSION).bjontegaard
    d, e = f(*[list(v) for v in args])
    want = ref_bjontegaard(*args)
    if want[1] > 1e6:  # an exponent too large to be compared
        return False, ["far apart"]
    require(bj_close(d, want[0]), "quality", f"{d} dB, expected {want[0]}")
    require(bj_close(e, want[1]), "savings", f"{e} %, expected {want[1]}")
    if k["kind"] == "same":
        require(abs(d) < 1e-6 and abs(e) < 1e-6, "same", f"{d} {e}")
    if k["kind"] == "shifted":
        require(bj_close(d, k["by"]), "shifted", f"{d} dB of {k['by']}")
    if k["kind"] == "cheaper":
        require(bj_close(e, (2 ** (k["by"] / 8) - 1) * 100), "cheaper", f"{e} %")
    return k["kind"] != "same", [k["kind"]]


word = st.text("abcdefghijkXYZ0123456789_", min_size=1, max_size=8)


@st.composite
def metrics_case(draw):
    rows = []
    for _ in range(draw(st.integers(0, 6))):
        rows.append([draw(word) for _ in range(8)] + [str(draw(st.integers(0, 9999)) / 100), draw(word),
                    "/".join([draw(word) for _ in range(draw(st.integers(1, 3)))]) + ".ohm",
                    str(draw(st.integers(0, 9999)) / 100)] + [draw(word) for _ in range(draw(st.integers(0, 2)))])
    return {"rows": rows}


def metrics_check(k):
    with Folder():
        with open("in.csv", "w", newline="") as f:
            csv.writer(f).writerows([[f"column {i}" for i in range(12)]] + k["rows"])
        o = run_script(METRICS, ["in.csv", "out.txt"])
        require(o.code == 0, "metrics", o.out + str(o.error))
        with open("out.txt") as f:
            lines = [x for x in f.read().split("\n") if x and not x.startswith("#")]
        want = []
        for name, col in (("psnr", 11), ("bitrate", 8)):
            for r in k["rows"]:
                want.append((name, r[10].split("/")[-1], float(r[col])))
        got = []
        for x in lines:
            m = re.fullmatch(r'(\w+)\{name="?([^"}]*)"?\} (\S+)', x)
            require(m, "metrics-line", x)
            got.append((m.group(1), m.group(2), float(m.group(3))))
        require(got == want, "metrics-values", f"{got}, expected {want}")
        require(run_script(METRICS, ["none.csv", "o"]).code != 0, "metrics-missing")
    return len(k["rows"]) > 1, []


@st.composite
def data_case(draw):
    files = draw(st.dictionaries(word, st.binary(max_size=20), min_size=1, max_size=6))
    names = sorted(files)
    hit = draw(st.lists(st.sampled_from(names), max_size=2, unique=True))
    return {"files": {n: files[n].hex() for n in names}, "changed": hit, "how": draw(st.sampled_from(["append", "flip", "hash"]))}


def data_check(k):
    with Folder():
        os.mkdir("d")
        with open("list.md5", "w") as f:
            for n, c in k["files"].items():
                h = hashlib.md5(bytes.fromhex(c)).hexdigest()
                if n in k["changed"] and k["how"] == "hash":
                    h = ("0" if h[0] != "0" else "1") + h[1:]
                f.write(f"{h}  {n}\n")
        for n, c in k["files"].items():
            b = bytes.fromhex(c)
            if n in k["changed"] and k["how"] != "hash":
                b = b + b"x" if k["how"] == "append" or not b else bytes([b[0] ^ 1]) + b[1:]
            with open("d/" + n, "wb") as f:
                f.write(b)
        o = run_script(DATA, ["--data_dir", "d", "--md5", "list.md5"])
        require((o.code == 0) == (not k["changed"]), "data", f"exit code {o.code}: {o.out} {o.error}")
        for n in k["files"]:
            said = re.search(rf"File {n} has been modified", o.out) is not None
            require(said == (n in k["changed"]), "data-named", f"{n}: {o.out}")
    return len(k["files"]) > 1 and bool(k["changed"]), []


# ---- the whole evaluation ----------------------------------------------------------------------
SCALE = 200  # of rates, so that sizes rounded to bytes still differ
KEYS = ["short_effects", "long_effects", "kinesthetic_effects"]


@st.composite
def submission_case(draw):
    n = draw(st.integers(1, 4))
    effects = []
    for i in range(n):
        ch = draw(st.sampled_from([1, 2]))
        effects.append({"set": draw(st.integers(0, 2)), "name": f"e{i}" + draw(st.sampled_from(["", " two", "-x"])),
                        "type": draw(st.sampled_from(["Test", "Training", "Evaluation"])),
                        "modality": draw(st.sampled_from(["vib", "kin"])), "extension": draw(st.sampled_from(["AHAP", "IVS", "WAV"])),
                        "x": draw(sounds(ch)), "out": draw(sounds(ch))})
    bitrates = draw(st.lists(st.integers(1, 200), min_size=1, max_size=3, unique=True))
    bj = draw(st.booleans())
    case = {"effects": effects, "bitrates": bitrates, "cutoff": draw(st.sampled_from([None, 0, 72.5, 100])),
            "filter": draw(st.sampled_from([None, None, "Test", "Training"])), "padding": draw(st.sampled_from([None, 2])),
            "flag": draw(st.sampled_from([None, None, "--disable_wavelet", "--disable_vectorial"])), "bj": bj,
            "sizes": draw(st.lists(st.integers(1, 3000), min_size=12, max_size=12)),
            "space": draw(st.booleans()), "stale": draw(st.booleans())}
    if bj:  # curves that can be compared: one size and one quality per bit rate
        case["bitrates"] = [2, 8, 16, 64]
        case["filter"] = None
        case["curves"] = [draw(curve(4)) for _ in range(n)]
        refs = [draw(curve(4)) for _ in range(n)]
        case["refs"] = [([v * SCALE for v in r], p) for r, p in refs]
    return case


def option(args, name):
    return args[args.index(name) + 1] if name in args[:-1] else None


def submission_check(k):
    labels = ["Bjontegaard"] if k["bj"] else []
    with Folder() as top:
        folder = "data dir" if k["space"] else "data"
        os.makedirs(f"{folder}/in")
        os.makedirs("bin")
        for t in ("Encoder", "Decoder", "Synthesizer"):
            with open("bin/" + t, "w") as f:
                f.write("#!/bin/sh\n")
            os.chmod("bin/" + t, 0o755)
        config = {"RM_install_dir": top + "/bin", "encoder_path": "Encoder", "decoder_path": "Decoder",
                  "synthesizer_path": "Synthesizer", "reference_files": {"main_folder": f"{top}/{folder}"}}
        for i, e in enumerate(k["effects"]):
            open(f"{folder}/in/{i}.ohm", "w").close()
            sound(f"{folder}/in/{i}.wav", e["x"], 8000)
            config["reference_files"].setdefault(KEYS[e["set"]], []).append(
                {"name": e["name"], "type": e["type"], "modality": e["modality"], "extension": e["extension"],
                 "haptic_file_path": f"in/{i}.ohm", "reference_file": f"in/{i}.wav"})
        order = sorted((e["set"], i) for i, e in enumerate(k["effects"]) if k["filter"] in (None, e["type"]))
        order = [i for _, i in order]
        if k["bj"]:
            config["reference_files"]["reference_bitratePSNR"] = "ref.csv"
            head = ["File", "Test set", "Type"]
            for b in k["bitrates"]:
                head += [f"{b}kbps bitrate", f"{b}kbps psnr"]
            with open(f"{folder}/ref.csv", "w", newline="") as f:
                w = csv.writer(f)
                w.writerow(head)
                for i in order:
                    r, p = k["refs"][i]
                    e = k["effects"][i]
                    w.writerow([e["name"], f"{e['type']}1_{e['set'] + 1}", e["extension"]] + [v for q in zip(r, p) for v in q])
        with open("config.json", "w") as f:
            json.dump(config, f)
        out = top + "/result"
        if k["stale"]:
            os.makedirs(out + "/old")
            open(out + "/old/file", "w").close()
        args = ["config.json", "7", "-o", "result", "-b"] + [str(b) for b in k["bitrates"]]
        args += [] if k["cutoff"] is None else ["--cutoff", str(k["cutoff"])]
        args += [] if k["filter"] is None else ["--filter_by_type", k["filter"]]
        args += [] if k["padding"] is None else ["--padding", str(k["padding"])]
        args += [] if k["flag"] is None else [k["flag"], "1"]
        args += ["--bjontegaard", "1"] if k["bj"] else []
        made = {}  # hmpg -> effect, bit rate index, size
        synthesized = {}
        problems = []

        def want(ok, tag, text):
            if not ok:
                problems.append((tag, text))
                raise OSError(text)

        def tools(cmd, kw):
            want(os.path.isfile(cmd[0]), "program", f"no program {cmd[0]}")
            tool = os.path.basename(cmd[0])
            RUNS.append(cmd)
            src, dst = option(cmd, "-f"), option(cmd, "-o")
            want(src and dst and os.path.isfile(src), "tool-input", str(cmd))
            want(os.path.isdir(os.path.dirname(dst)), "tool-output", str(cmd))
            if tool == "Encoder":
                m = re.search(r"in/(\d+)\.ohm$", src)
                want(m, "encoder-input", str(cmd))
                i = int(m.group(1))
                b = option(cmd, "-kb")
                want(b is not None and int(b) in k["bitrates"], "encoder-rate", str(cmd))
                want(float(option(cmd, "-cf")) == (72.5 if k["cutoff"] is None else k["cutoff"]), "encoder-cutoff", str(cmd))
                want("--binary" in cmd or "-b" in cmd, "encoder-binary", str(cmd))
                for flag in ("wavelet", "vectorial"):
                    want((f"--disable-{flag}" in cmd) == (k["flag"] == f"--disable_{flag}"), "encoder-flags", str(cmd))
                at = k["bitrates"].index(int(b))
                size = k["sizes"][(i * 3 + at) % 12]
                if k["bj"]:
                    e = k["effects"][i]
                    n, c = len(e["x"]), len(rows_of(e["x"])[0])
                    size = max(1, round(k["curves"][i][0][at] * 1000 * n / 8000 * c / 8 * SCALE))
                made[os.path.abspath(dst)] = (i, at, size)
                with open(dst, "wb") as f:
                    f.write(bytes(size))
            elif tool == "Decoder":
                want(os.path.abspath(src) in made, "decoder-input", str(cmd))
                made[os.path.abspath(dst)] = made[os.path.abspath(src)]
                open(dst, "w").close()
            else:
                want(tool == "Synthesizer" and os.path.abspath(src) in made, "synthesizer-input", str(cmd))
                i, at, _ = made[os.path.abspath(src)]
                e = k["effects"][i]
                y = e["out"]
                if k["bj"]:  # of a quality of its own
                    d = 2 / 10 ** (k["curves"][i][1][at] / 20)
                    y = (np.array(e["x"]) + d).tolist()
                sound(dst, y, 8000)
                synthesized[os.path.abspath(dst)] = (i, at, y)
            return types.SimpleNamespace(returncode=0, stdout="", stderr="")

        RUNNER[0] = tools
        o = run_script(SUBMISSION, args)
        require(not problems, *(problems[0] if problems else ("", "")))
        require(o.code == 0, "submission", f"{o.error} {o.out[-500:]}")
        require(not os.path.exists(out + "/old"), "stale")
        with open("bitratePSNR.csv", newline="") as f:
            table = list(csv.reader(f))
        head = ["File", "Test set", "Type"]
        for b in k["bitrates"]:
            head += [f"{b}kbps bitrate", f"{b}kbps psnr"]
        require(table[0] == head, "table-head", str(table[0]))
        require(len(table) == 1 + len(order), "table-rows", f"{len(table) - 1} rows, expected {len(order)}")
        sizes = {(i, at): size for p, (i, at, size) in made.items() if p.endswith(".hmpg")}
        sounds_of = {(i, at): y for i, at, y in synthesized.values()}
        require(len(sounds_of) == len(order) * len(k["bitrates"]), "table-complete", str(sorted(sounds_of)))
        for row, i in zip(table[1:], order):
            e = k["effects"][i]
            require(row[:3] == [e["name"], f"{e['type']}1_{e['set'] + 1}", e["extension"]], "table-names", str(row))
            require(len(row) == len(head), "table-columns", str(row))
            for at in range(len(k["bitrates"])):
                n, c = len(e["x"]), len(rows_of(e["x"])[0])
                r, q = ref_rate(sizes[i, at], n, 8000, c), ref_psnr(e["x"], sounds_of[i, at])
                require(close(float(row[3 + 2 * at]), r), "table-rate", f"{row}, expected {r} at {at}")
                require(close(float(row[4 + 2 * at]), q), "table-psnr", f"{row}, expected {q} at {at}")
        padded = {p: v for p, v in WRITTEN.items() if p.endswith("_pad.wav")}
        require(len(padded) == len(order) * len(k["bitrates"]), "padded-files", str(sorted(padded)))
        for p, (data, rate, how) in padded.items():
            q = p.replace("_pad.wav", "_nopad.wav").replace("/WAV_pad/", "/WAV_nopad/")
            require(q in synthesized, "padded-name", p)
            check_padded(data, rate, synthesized[q][2], k["padding"] or 1)
        for p, (i, at, _) in list(made.items()) + [(p, v) for p, v in synthesized.items()]:
            e = k["effects"][i]
            require(f"/{e['type']}1_{e['set'] + 1}/" in p and f"_{k['bitrates'][at]}_{e['name']}" in p and
                    f"_{e['modality']}_" in p and f"{e['type']}1-{e['set'] + 1}fvt_7_" in p, "file-names", p)
        if k["bj"]:
            with open("Bjontegaard/bjontegaard.csv", newline="") as f:
                rows = list(csv.reader(f))[1:]
            require(len(rows) == len(order), "bj-rows", str(rows))
            for row, i in zip(rows, order):
                e = k["effects"][i]
                require(row[0] == e["name"], "bj-names", str(row))
                own = [[float(v) for v in t[3::2]] for t in table[1:] if t[0] == e["name"]][0]
                q = [[float(v) for v in t[4::2]] for t in table[1:] if t[0] == e["name"]][0]
                a = k["refs"][i][0], k["refs"][i][1], own, q
                if len(set(own)) == 4 and bj_judged(*a):
                    w = ref_bjontegaard(*a)
                    if w[1] < 1e6:
                        labels.append("curves compared")
                        require(bj_close(float(row[2]), w[0]) and bj_close(float(row[3]), w[1]), "bj-values", f"{row}, expected {w}")
    return len(order) > 0, labels


@st.composite
def conformance_case(draw):
    line = st.text("abc XYZ.,", min_size=1, max_size=10).filter(lambda t: t.strip() == t)
    tests = []
    for i in range(draw(st.integers(0, 6))):
        want = draw(st.lists(line, max_size=3))
        got = list(want)
        kind = draw(st.sampled_from(["right", "right", "less", "more", "order", "to do", "missing"]))
        if kind == "less":
            got = got[:-1]
        elif kind == "more":
            got = got + [draw(line)]
        elif kind == "order":
            got = got[::-1]
        tests.append({"set": draw(st.integers(0, 1)), "want": want, "got": got, "kind": kind})
    return {"tests": tests, "newline": draw(st.booleans())}


def conformance_check(k):
    sets = ["schemas_checks", "semantic_checks"]
    with Folder() as top:
        os.makedirs("bin"), os.makedirs("data")
        for t in ("Encoder", "Decoder", "Synthesizer"):
            open("bin/" + t, "w").close()
            os.chmod("bin/" + t, 0o755)
        files = {"main_folder": top + "/data", "schemas_checks": [], "semantic_checks": []}
        answers = {}
        for i, t in enumerate(k["tests"]):
            path = "" if t["kind"] == "to do" else f"{i}.hjif"
            if t["kind"] not in ("to do", "missing"):
                open(f"data/{i}.hjif", "w").close()
                answers[f"{top}/data/{i}.hjif"] = t["got"]
            files[sets[t["set"]]].append({"name": f"test {i}", "haptic_file_path": path, "expected_output": "\n".join(t["want"])})
        with open("config.json", "w") as f:
            json.dump({"RM_install_dir": top + "/bin", "encoder_path": "Encoder", "decoder_path": "Decoder",
                       "synthesizer_path": "Synthesizer", "conformance_files": files}, f)

        def tools(cmd, kw):
            RUNS.append(cmd)
            text = "\n".join(answers[option(cmd, "-f")])
            text += "\n" if k["newline"] and text else ""
            return types.SimpleNamespace(returncode=1, stdout="", stderr=text)

        RUNNER[0] = tools
        o = run_script(CONFORMANCE, ["config.json"])
        require(o.code == 0, "conformance", f"{o.error} {o.out}")
        count = [t for t in k["tests"] if t["kind"] != "missing"]
        good = [t for t in count if t["kind"] != "to do" and t["want"] == t["got"]]
        m = re.search(r"(SUCCESS|FAIL): +(\d+) +/ +(\d+)", o.out)
        require(m, "conformance-result", o.out)
        require((int(m.group(2)), int(m.group(3))) == (len(good), len(count)), "conformance-counts", o.out)
        require((m.group(1) == "SUCCESS") == (len(good) == len(count)), "conformance-verdict", o.out)
        for i, t in enumerate(k["tests"]):
            m = re.search(rf"Test # (\d+) :\s+(True|False|TO DO)\s*\|\s*test {i}$", o.out, re.M)
            if t["kind"] == "missing":
                require(not m and f"{i}.hjif" in o.out, "conformance-missing", o.out)
            else:
                want = "TO DO" if t["kind"] == "to do" else str(t["want"] == t["got"])
                require(m and m.group(2) == want, "conformance-test", f"test {i} should be {want}: {o.out}")
        require(len(RUNS) == len(answers), "conformance-runs", str(RUNS))
    return any(t["want"] != t["got"] for t in k["tests"]), []


TARGETS = {  # name: strategy, check, cases of the quick tier, of the thorough tier
    "psnr": (psnr_case, psnr_check, 700, 20000),
    "rate": (rate_case, rate_check, 500, 10000),
    "padding": (pad_case, pad_check, 400, 8000),
    "bjontegaard": (bj_case, bj_check, 1500, 40000),
    "metrics": (metrics_case, metrics_check, 500, 10000),
    "data": (data_case, data_check, 500, 10000),
    "submission": (submission_case, submission_check, 350, 6000),
    "conformance": (conformance_case, conformance_check, 500, 10000),
}


def search(name, n, seed, scratch, queue, cap):
    SCRATCH[0] = scratch
    install()
    strategy, check = TARGETS[name][:2]
    r = {"target": name, "cases": 0, "nontrivial": set(), "labels": {}, "samples": [], "failure": None, "known": False}
    started = time.time()
    last = {}

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
              phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck))
    @given(strategy())
    def run(k):
        if time.time() - started > cap and not last:
            return
        text = json.dumps(k, sort_keys=True)
        r["cases"] += 1
        try:
            nontrivial, labels = check(k)
        except Broken as e:
            last.update(case=k, text=str(e))
            raise
        except Exception as e:  # the script came to a bad end
            import traceback
            where = traceback.extract_tb(e.__traceback__)[-1]
            last.update(case=k, text=f"{type(e).__name__}: {e} ({os.path.basename(where.filename)}:{where.lineno})")
            raise
        if nontrivial:
            h = hashlib.md5(text.encode()).hexdigest()
            if h not in r["nontrivial"] and len(r["samples"]) < 2:
                r["samples"].append(f"[{name}] {text[:1500]}")
            r["nontrivial"].add(h)
        for x in labels:
            r["labels"][x] = r["labels"].get(x, 0) + 1
            r["known"] = r["known"] or x == KNOWN_BITRATE

    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run()
    except BaseException as e:
        r["failure"] = (last.get("case"), last.get("text", str(e)))
    r["nontrivial"] = len(r["nontrivial"])
    queue.put(r)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("--tier", default="quick")
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--evidence")
    a.add_argument("--out", default=".")
    a.add_argument("--known", action="append", default=[])
    a.add_argument("--scale", type=float, default=1)
    a.add_argument("--only")
    a.add_argument("--replay")
    a.add_argument("--describe", action="store_true")
    a.add_argument("--workers", type=int, default=8)
    a.add_argument("--shrink-ms", type=int)
    a.add_argument("--cap-ms", type=int, default=600000)
    a = a.parse_args()
    started = time.time()
    scratch = tempfile.mkdtemp(prefix="pbt.c30.")
    try:
        if a.replay:
            SCRATCH[0] = scratch
            install()
            with open(a.replay) as f:
                k = json.load(f)
            try:
                TARGETS[k["target"]][1](k["case"])
                print("HOLDS")
                return 0
            except Exception as e:
                print("FAILS\n" + str(e) + "\n" + json.dumps(k["case"]))
                return 1
        results, jobs = [], []
        queue = multiprocessing.Queue()
        for i, (name, t) in enumerate(TARGETS.items()):
            if a.only in (None, name):
                n = max(1, int(t[2 if a.tier == "quick" else 3] * a.scale))
                p = multiprocessing.Process(target=search, args=(name, n, a.seed * 1000 + i, scratch, queue, a.cap_ms / 1000))
                p.start()
                jobs.append(p)
        results = [queue.get() for _ in jobs]
        for p in jobs:
            p.join()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    results.sort(key=lambda r: list(TARGETS).index(r["target"]))
    dist = {}
    for r in results:
        dist[r["target"] + ": cases"] = r["cases"]
        for x, v in r["labels"].items():
            dist[r["target"] + ": " + x] = v
    bad = [r for r in results if r["failure"]]
    if a.evidence:
        with open(a.evidence, "w") as f:
            json.dump({"property": "C30", "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": {
                "evaluations": sum(r["cases"] for r in results), "distinct_nontrivial": sum(r["nontrivial"] for r in results),
                "rule": "Pairs of recordings, coded sizes, curves of quality over rate, tables, lists of hashes, whole "
                        "configurations of the evaluation and of the conformance run with stand-ins for the tools. "
                        "Non-trivial: recordings that differ and can be compared (psnr), something coded (rate), two curves "
                        "that differ and overlap (bjontegaard), several rows or files and a changed one (metrics, data), an "
                        "effect that passes the filter (submission), a wrong report (conformance), every padding.",
                "distribution": dist, "samples": [s for r in results for s in r["samples"]]},
                "assumptions": ["soundfile, matplotlib and the processes started are stand-ins"],
                "wall_s": round(time.time() - started, 1), "violations": len(bad)}, f, indent=1)
    print(f"C30: {sum(r['cases'] for r in results)} cases, {sum(r['nontrivial'] for r in results)} distinct non-trivial, "
          f"0 discarded, {time.time() - started:.1f} s")
    for r in results:
        if r["known"]:
            what = [x.split("\t", 1)[-1] for x in a.known if "C30-bitrate.replay" in x]
            if what:
                print(f"KNOWN-FINDING: property=C30 {what[0]}")
            else:
                r["failure"] = ({}, KNOWN_BITRATE)
                bad.append(r)
    for r in bad:
        os.makedirs(a.out, exist_ok=True)
        path = os.path.abspath(f"{a.out}/C30-{r['target']}-seed{a.seed}.replay")
        with open(path, "w") as f:
            json.dump({"target": r["target"], "case": r["failure"][0]}, f)
        print(r["failure"][1])
        print(f"VIOLATION property=C30 replay={path}")
    return 1 if bad else 0


sys.exit(main())
