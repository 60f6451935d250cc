"""Shared machinery of the checks: building, TLC, the harness, comparison."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
THOROUGH = TIER == "thorough"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# Texts of up to so many clusters are checked against the laws (spec/Laws.tla).
LAWS = os.environ.get("VERIF_LAWS", "400")
CORES = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def cargo_env(target):
    env = dict(os.environ)
    env.update(
        HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
        RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=os.path.join(BUILD, target), RUST_BACKTRACE="0",
    )
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.pop("RUSTFLAGS", None)
    return env


def cargo(target, *args):
    env = cargo_env(target)
    # Cargo goes by file times; always rebuild the crate under test.
    for base in (env["CARGO_TARGET_DIR"],
                 os.path.join(env["CARGO_TARGET_DIR"], "wasm32-unknown-unknown")):
        fp = os.path.join(base, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("whitespace-"):
                    shutil.rmtree(os.path.join(fp, d))
    r = subprocess.run(["cargo", *args, "--offline"], env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), r.stderr[-4000:]))
    return env["CARGO_TARGET_DIR"]


def build_harness():
    t = cargo("target", "build", "-q", "--manifest-path", os.path.join(VERIF, "harness/Cargo.toml"))
    exe = os.path.join(t, "debug", "harness")
    with open(os.path.join(SPEC, "clusters.json")) as f:
        r = subprocess.run([exe, "table"], stdin=f, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("cluster table: " + r.stdout)
    return exe


def build_cli():
    t = cargo("cli", "build", "-q", "--bin", "whitespace", "--manifest-path", REPO + "/Cargo.toml")
    return os.path.join(t, "debug", "whitespace")


def build_wasm():
    t = cargo("wasm", "build", "-q", "--lib", "--target", "wasm32-unknown-unknown",
              "--manifest-path", REPO + "/Cargo.toml")
    return os.path.join(t, "wasm32-unknown-unknown", "debug", "whitespace.wasm")


# ---------------------------------------------------------------- texts

_table = None


def table():
    global _table
    if _table is None:
        with open(os.path.join(SPEC, "clusters.json")) as f:
            _table = json.load(f)
    return _table


_known = None


def table_clusters(t=None):
    global _known
    if t is None and _known is not None:
        return _known
    known = frozenset(c for k in ("letters", "digits", "other") for c in (t or table())[k])
    if t is None:
        _known = known
    return known


_multi = None


def clusters(text):
    """Split a text made of ASCII and clusters of the table."""
    global _multi
    if _multi is None:
        t = table()
        multi = sorted([c for k in ("letters", "digits", "other") for c in t[k] if len(c) > 1]
                       + [t["crlf"]], key=len, reverse=True)
        _multi = re.compile("|".join(map(re.escape, multi)) + "|.", re.S)
    return _multi.findall(text)


def encode(c):
    """TLC keeps the ASCII part of strings only when it stores states on disk:
    other clusters go in as their code points between DELs."""
    if all(x < "\x7f" for x in c):
        return c
    return "\x7f" + ".".join("%x" % ord(x) for x in c) + "\x7f"


def encoded(v):
    if isinstance(v, str):
        return encode(v)
    if isinstance(v, list):
        return [encoded(x) for x in v]
    if isinstance(v, dict):
        return {k: encoded(x) for k, x in v.items()}
    return v


def decode(text):
    """Undo encode in a JSON text."""
    return re.sub("\x7f([0-9a-f.]+)\x7f", 
                  lambda m: json.dumps("".join(chr(int(x, 16)) for x in m[1].split(".")))[1:-1], text)


def line_of(text):
    """A text, or a list of clusters and (cluster, count) pairs, as a line."""
    if isinstance(text, str):
        s = clusters(text)
        return {"s": s, "n": [1] * len(s)}
    s, n = [], []
    for part in text:
        if isinstance(part, tuple) and part[1] == 0:
            continue
        if isinstance(part, tuple):
            s.append(part[0]); n.append(part[1])
        else:
            cs = clusters(part)
            s += cs; n += [1] * len(cs)
    return {"s": s, "n": n}


def show(line):
    """The text of a line, long runs abbreviated."""
    if all(k == 1 for k in line["n"]):
        return "".join(line["s"])
    return "".join(c if k == 1 else "<%s*%d>" % (c, k) for c, k in zip(line["s"], line["n"]))


def text_of(line):
    return "".join(c * k for c, k in zip(line["s"], line["n"]))


class Suite:
    """The inputs of one check: generated cases and grids."""

    def __init__(self):
        self.cases, self.coarse, self.grids = [], [], []
        self.count = self.unknown = 0
        self.seen = set()

    def add(self, family, text, mode="file", coarse=False, known=None):
        lines = text if mode == "repl" and isinstance(text, list) else [text]
        lines = [line_of(t) for t in lines]
        known = known or table_clusters()
        if any(c not in known and not c.isascii() for l in lines for c in l["s"]):
            self.unknown += 1       # of unknown class, made by an edit inside a cluster
            return
        key = json.dumps([mode, lines])
        if key in self.seen:
            return
        self.seen.add(key)
        self.count += 1
        (self.coarse if coarse else self.cases).append(
            {"id": "%s#%d" % (family, self.count), "mode": mode, "lines": lines})

    def grid(self, family, slots, mode="file", kind="text"):
        self.grids.append({"id": family, "mode": mode, "kind": kind,
                           "slots": [[clusters(a) for a in s] for s in slots]})


# ---------------------------------------------------------------- TLC

def tlc(module, config, env, work, workers=CORES, timeout=840, heap="8g", extra=()):
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ)
    e.update({"SPECDIR": SPEC}, **env)
    cmd = ["java", "-Xss1g", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", config, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out: %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    ok = "Model checking completed. No error has been found." in r.stdout
    if not ok:
        why = [l for l in r.stdout.split("\n") if l.startswith("Error: ")][:3]
        raise ToolError("TLC on %s:\n%s\n%s" % (module, r.stdout[-6000:] + r.stderr[-2000:], "\n".join(why)))
    return {"transitions": int(m.group(1)), "states": int(m.group(2))} if m else {"states": 0, "transitions": 0}


def expectations(suite, work, specdir=None):
    """Lets TLC run the specification on all inputs.  Yields the path of the
    expectation file and the numbers of states and transitions."""
    out = tempfile.mkdtemp(prefix="expected", dir=work)
    stats = {"states": 0, "transitions": 0}

    with open(os.path.join(specdir or SPEC, "clusters.json")) as fh:
        enc = encoded(json.load(fh))
    specdir = tempfile.mkdtemp(prefix="table", dir=work)
    with open(os.path.join(specdir, "clusters.json"), "w") as fh:
        json.dump(enc, fh)

    def go(module, env):
        env["OUT"] = out
        env["SPECDIR"] = specdir
        s = tlc(module, module + ".cfg", env, work)
        for k in stats:
            stats[k] += s[k]

    for cases, fine in ((suite.cases, "1"), (suite.coarse, "0")):
        if cases:
            f = os.path.join(work, "cases.json")
            with open(f, "w") as fh:
                json.dump(encoded(cases), fh)
            go("MCFile", {"CASES": f, "FINE": fine, "LAWS": LAWS if fine == "1" else "0"})
    if suite.grids:
        f = os.path.join(work, "grids.json")
        with open(f, "w") as fh:
            json.dump(encoded(suite.grids), fh)
        go("MCGrid", {"GRIDS": f, "FINE": "1", "LAWS": LAWS})
    return out, stats


def read_expected(path):
    exp = []
    for name in sorted(os.listdir(path)):
        with open(os.path.join(path, name)) as f:
            text = f.read()
        try:
            exp.append(json.loads(decode(text)))
        except ValueError:
            raise ToolError("outcome %s: %r" % (name, text[:500]))
    return exp


# ---------------------------------------------------------------- harness

def limited():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(exe, cases, work, timeout=600):
    """The real outcome of every case, by id.  A case that crashes the process
    or loops has the outcome 'crash' or 'hang'."""
    result = {}
    rest = list(cases)
    deadline = time.time() + timeout
    crashes = 0
    while rest:
        i = os.path.join(work, "in.jsonl"); o = os.path.join(work, "out.jsonl")
        with open(i, "w") as f:
            for c in rest:
                f.write(json.dumps({"id": c["id"], "mode": c["mode"], "lines": c["lines"]}) + "\n")
        open(o, "w").close()
        r = subprocess.run([exe, "cases", i, o], capture_output=True, text=True,
                           timeout=max(30, deadline - time.time()), preexec_fn=limited)
        done = 0
        with open(o) as f:
            for l in f:
                if not l.endswith("\n"):
                    break
                v = json.loads(l)
                result[v["id"]] = v
                done += 1
        if done == len(rest):
            break
        if r.returncode in (0, 2):
            raise ToolError("harness ended early: %s" % r.stderr[-2000:])
        bad = rest[done]
        how = "hang" if r.returncode == 42 else "crash"
        result[bad["id"]] = {"id": bad["id"], "res": [{"by": how, "msg": "exit status %d" % r.returncode}]}
        crashes += 1
        rest = rest[done + 1:]
        if crashes >= 5:
            for c in rest:      # enough to report
                result[c["id"]] = {"id": c["id"], "skip": True}
            break
    return result


# ---------------------------------------------------------------- outcomes

def bits(text):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", float(text)))[0]


def numbers(t):
    """In an expected tree: the text of numbers as the bits of the double."""
    if isinstance(t, list):
        if len(t) == 2 and t[0] == "Num" and isinstance(t[1], str):
            return ["Num", bits(t[1])]
        return [numbers(x) for x in t]
    return t


def noloc(t):
    if isinstance(t, list):
        if len(t) == 2 and type(t[0]) is int and type(t[1]) is int:
            return 0
        return [noloc(x) for x in t]
    return t


def tok_values(t, expected):
    """Kind, text and value of a token."""
    v = None
    if t["k"] == "String":
        v = t.get("v")
    elif t["k"] == "Number":
        v = bits(t["v"]) if expected else t.get("f")
    elif not expected and ("v" in t or "f" in t):
        v = "unexpected literal"
    return [t["k"], t["x"], v]


def causes(r, what):
    return [[e[k] for k in what] if not ("t" in what) else
            [e[k] for k in what] + [e["h"]] for e in r["errs"]]


def project(r, expected, parts):
    """What a check observes of the outcome of one line.  parts: a set of
    verdict, toks, kinds, toklocs, ast, astlocs, msgs, causes, errlocs, bind."""
    if r["by"] in ("panic", "crash", "hang"):
        return {"died": r["by"]}
    o = {}
    ast = r["ast"]
    if expected:
        ast = numbers(ast)
    if "verdict" in parts:
        o["by"] = r["by"]
    if "accept" in parts:
        o["accepted"] = r["by"] == ""
    if r["by"] != "scan":
        if "kinds" in parts:
            o["kinds"] = [t["k"] for t in r["toks"]]
        if "toks" in parts:
            o["toks"] = [tok_values(t, expected) for t in r["toks"]]
        if "toklocs" in parts:
            o["toklocs"] = [[t["l"], t["c"]] for t in r["toks"]]
        if "ast" in parts:
            o["ast"] = noloc(ast)
        if "astlocs" in parts:
            o["ast"] = ast
    if "msgs" in parts:
        o["msgs"] = [e["m"] for e in r["errs"]]
    if "causes" in parts:
        o["causes"] = causes(r, "lctm")
    if "errlocs" in parts:
        o["errlocs"] = [[e["l"], e["c"]] for e in r["errs"]]
    if "errtoks" in parts:
        o["errtoks"] = [[e["l"], e["c"], e["t"], e["h"]] for e in r["errs"]]
    if "bind" in parts:
        o["bind"] = sorted(r["bind"])
        o["changed"] = r.get("changed")
    return o


def difference(exp, act):
    for k in exp:
        if exp[k] != act.get(k):
            return k, exp[k], act.get(k)
    for k in act:
        if k not in exp:
            return k, None, act[k]
    return None


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.start = time.time()
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.samples = []
        self.known = []      # recorded findings seen again on this run
        os.makedirs(BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
        self.replays = os.path.join(VERIF, "replay")

    def violation(self, case, what):
        self.violations.append((case, what))

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.coverage.setdefault("samples", self.samples)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": self.level, "coverage": self.coverage, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.start, 1), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for line in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        if self.violations:
            os.makedirs(self.replays, exist_ok=True)
            # The shortest first.
            self.violations.sort(key=lambda v: len(json.dumps(v[0])))
            path = os.path.join(self.replays, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"case": c, "what": w} for c, w in self.violations[:20]], f, indent=1)
            c, w = self.violations[0]
            if isinstance(c, dict) and "lines" in c:
                for l in c["lines"]:
                    print("input (%s): %r" % (c["mode"], show(l)[:600]))
            print("why: %s" % (str(w)[:1500],))
            print("%d violations" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s: held on everything explored (%.0f s): %s" % (
            self.prop, time.time() - self.start,
            {k: v for k, v in self.coverage.items() if k != "samples" and not isinstance(v, (list, str))}))
        return 0


def known_findings(prop):
    """The recorded findings of a property: (what identifies it, description)."""
    out = []
    head = "known: property=%s " % prop
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            if l.startswith(head):
                ident, end = json.JSONDecoder().raw_decode(l[len(head):])
                out.append((ident, l[len(head):][end:].strip()))
    return out


def expected(check, suite, specdir=None):
    """TLC's outcomes of a suite; books the states and samples."""
    path, stats = expectations(suite, check.work, specdir)
    exp = read_expected(path)
    shutil.rmtree(path)
    if len(exp) < len(suite.cases) + len(suite.coarse):
        raise ToolError("TLC wrote %d outcomes of %d" % (len(exp), len(suite.cases) + len(suite.coarse)))
    c = check.coverage
    for k in ("states", "transitions"):
        c[k] = c.get(k, 0) + stats[k]
    c["accepted_by_spec"] = c.get("accepted_by_spec", 0) + sum(all(r["by"] == "" for r in e["res"]) for e in exp)
    fams = c.setdefault("families", {})
    for e in exp:
        fam = re.split("[#:]", e["id"])[0]
        fams[fam] = fams.get(fam, 0) + 1
    step = max(1, len(exp) // 6)
    for e in exp[::step][:6]:
        check.samples.append({"id": e["id"], "mode": e["mode"], "text": [show(l)[:300] for l in e["lines"]],
                              "rejected_by": [r["by"] for r in e["res"]],
                              "causes": [[x["m"] for x in r["errs"]][:3] for r in e["res"]]})
    return exp


def validated(check, n, skipped=0):
    c = check.coverage
    c["traces_validated_against_impl"] = c.get("traces_validated_against_impl", 0) + n
    c["skipped_unfaithful_clusters"] = c.get("skipped_unfaithful_clusters", 0) + skipped


def conform(check, suite, parts, exe=None, project_fn=None, actual_hook=None, specdir=None):
    """Model against code on a suite: TLC's outcome of every input must be the
    code's, as far as `parts` of it go."""
    exe = exe or build_harness()
    exp = expected(check, suite, specdir)
    act = run_harness(exe, exp, check.work)
    skipped = 0
    pf = project_fn or (lambda r, expected, case: project(r, expected, parts))
    for e in exp:
        a = act[e["id"]]
        if a.get("skip"):
            skipped += 1
            continue
        bad = None
        if len(e["res"]) != len(a["res"]):
            bad = ("died", None, a["res"][-1])
        for n, (x, y) in enumerate(zip(e["res"], a["res"])):
            if bad:
                break
            d = difference(pf(x, True, e), pf(y, False, e))
            if d:
                bad = ("line %d" % (n + 1),) + d
        if bad:
            check.violation({k: e[k] for k in ("id", "mode", "lines")}, bad)
        elif actual_hook:
            actual_hook(e, a)
    if skipped * 5 > len(exp) and not check.violations:
        raise ToolError("too many inputs skipped: %d of %d" % (skipped, len(exp)))
    validated(check, len(exp) - skipped, skipped)
    return exp, act
