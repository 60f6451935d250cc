"""One function per property: its inputs, and what of the outcome is compared."""
import itertools, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from vlib import *
from vlib import Check, Suite
import gens
from gens import Gen, rng, mutate, named, lists, pairs, inner, scaled, SCALED, NESTED, EXPRS, HOLES, expressions, statements, within, deep

Q = not THOROUGH


def times(quick, thorough):
    return thorough if THOROUGH else quick


def sizes():
    return gens.SIZES_T if THOROUGH else gens.SIZES


def depths():
    return gens.DEPTHS_T if THOROUGH else gens.DEPTHS


def programs(suite, prop, n, family="program", **knobs):
    r = rng(SEED, prop, family)
    for _ in range(n):
        suite.add(family, Gen(r, **knobs).program(n=r.choice([1, 1, 2, 3])))


def unicode_names():
    t = table()
    return ([c + "a" for c in t["letters"]] + ["b" + c for c in t["digits"]] + ["a", "b", "x_1"])


class Texts(list):
    """Takes texts like a suite."""

    def add(self, family, text):
        self.append(text)


def contexts(r, **k):
    """The texts of every kind of expression and statement in every place."""
    t = Texts()
    expressions(t, r, **k)
    statements(t, r, two=k.get("two", 500))
    return t


def renamed(r, text, pool):
    """The text with its short names drawn from a pool anew."""
    new = {}
    return re.sub(r"\b[a-z]\b", lambda m: r.choice(pool) if r.random() < 0.3 else new.setdefault(m.group(), r.choice(pool)), text)


ENDS = gens.STMTS + [";", "; a", "  a", "else", "else a", "}", ", b", "+ 1", ".p", "= 1", "var a = a", "return 1", "x = this", "class Z < Z\n  m()\n    1", "fun f(a, a)\n  1", "1 = 2", "a b c )", '"s', "\\", "super", "\t", "and", "var", "print", "fun", "class", "f {p: 1, p: 2}"]


def tails(s, r, sizes, ends=ENDS, each=None, family="tail"):
    """Something of every kind after many statements."""
    for n in sizes:
        for e in (r.sample(ends, each) if each else ends):
            k = r.choice([["a\n"], ["print a\n", "b\n"], ["var n{i} = 1\n"], ["if (a) b\n", "x = 1\n", "f()\n"], ["while (a) b\n"], ["fun f{i}()\n  a\n"], ["class C{i}\n  m()\n    a\n"], ["f(a)\n", "{}\n", "nil\n", "// c\n"]])
            if n > 120 and "n{i}" in k[0]:
                k = ["a\n"]
            s.add(family, "".join(k[i % len(k)].replace("{i}", str(i)) for i in range(n)) + e + "\n", coarse=True)


def deeply(s, r, n, wrong=0.1, family="deep"):
    for _ in range(n):
        s.add(family, deep(r, r.choice([2, 3, 4, 5, 6, 8, 10, 12, 14]), wrong, r.choice([None, None, ["a", "b", "c"], list("abcdefghij")])), coarse=True)


STRUCT = {"verdict", "kinds", "ast", "msgs"}

# Every kind of token that can begin or end a line.
TOKENS = ["(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "*", "!", "!=", "=", "==",
          "<", "<=", ">", ">=", "/", '"s"', "1", "1.5", "a", "é"] + gens.KEYWORDS


# ------------------------------------------------------------------ layout

def layout_texts(r):
    """A random tree of lines as its indentation spells it, sometimes misaligned."""
    steps = r.choice([[1], [2], [4], [1, 2, 3], [1, 2, 4, 8], [3, 7]])
    lines, stack = [], [0]
    n = r.choice([r.randrange(3, 14), r.randrange(3, 14), r.randrange(14, 30)])
    deep = r.random() < 0.25        # few lines that close blocks
    heads = ["if (a)", "while (a)", "fun f()", "for (;;)", "else"]
    prev_head = False
    for i in range(n):
        if prev_head:
            stack.append(stack[-1] + r.choice(steps))
        elif len(stack) > 1 and r.random() < (0.1 if deep else 0.45):
            for _ in range(r.randrange(1, len(stack))):
                stack.pop()
        head = r.random() < (0.8 if deep else 0.5) and i < n - 1
        width = stack[-1]
        if r.random() < 0.04:
            width = max(0, width + r.choice([-1, 1, 2]))
        text = r.choice(heads[:4]) if head else r.choice(
            ["b", "b = 1", '"s"', "(b)", "[1]", "-b", "!b", "print b", "return", "var v", "1", "{}",
             "é", "nil", "true", "c.d", "f(1)", "f 1, 2"])
        prev_head = head
        lines.append(" " * width + text)
        # A line may be continued, at any indentation.
        if not head and r.random() < 0.2:
            for _ in range(r.choice([1, 1, 2])):
                lines[-1] += r.choice([" +", " \\", ",", " *", "(", " // c"])
                lines.append(" " * r.choice([r.choice(stack), r.randrange(0, stack[-1] + 3)]) + r.choice(["b", "c + d", ")", "1"]))
        if r.random() < 0.15:
            lines.append(" " * r.choice([0, r.randrange(6), r.randrange(12)])
                         + r.choice(["", "", "// c", "//" + "x" * r.choice([30, 79, 120, 260])]))
    nl = r.choice(["\n", "\n", "\n", "\r\n"])
    return nl.join(lines) + r.choice([nl, nl, nl, ""])


def c02(check):
    s = Suite()
    # Every indentation of the lines of a program, with and without heads.
    ind = ["", " ", "  ", "   "]
    item = ["if (a)\n", "b\n"]
    s.grid("nest", [["if (a)\n"], ind, item, ind, item, ind, item])
    s.grid("nest-deep", [["if (a)\n if (a)\n  if (a)\n   b\n"], ind, ["c\n", "c"], ["", " ", "  "], ["d\n"]])
    s.grid("widths", [["a\n"]] + [["", " ", "  ", "    "], ["b\n"]] * times(4, 5))
    # Any token may be the first of its line.
    first = [t for t in TOKENS if t not in ("if",)]
    s.grid("first", [["if (a)\n"], ["", "  "], first, [" x"], ["\n"], ["", " ", "  ", "    "], ["b\n"]])
    s.grid("first-out", [["if (a)\n  if (a)\n    b\n"], ["", " ", "  "], first, ["\n"]])
    # Blank lines, comments and continued lines do not take part.
    noise = ["", "\n", "   \n", "// c\n", "     // c\n", "\r\n"]
    s.grid("noise", [["if (a)\n"], noise, ["  b\n"], noise, ["  if (a)\n"], ["    b +\n", "    b\n"],
                     noise, ["      c\n", "    c\n", "  c\n"], noise, ["d\n"]])
    s.grid("first-cont", [["if (a)\n    x = b +\n", "if (a)\n  if (b)\n    c(\n", "if (a)\n    b \\\n"], ["", " ", "  ", "   ", "     "], [t for t in TOKENS if t != "if"], [" c\n"], ["", "  d\n"]])
    r = rng(SEED, "C02")
    for _ in range(times(900, 20000)):
        s.add("tree", layout_texts(r))
    scaled(s, ["dedent", "dedent2", "whiles", "ifs", "funs", "blocks", "classes", "blockstmts", "methods"],
           depths())
    # Deep nests that close some levels, at fitting widths and between them,
    # on lines that are continued or not, and at the end.
    for d in depths():
        for step in (2, 3):
            heads = "".join(" " * (step * i) + "if (a)\n" for i in range(d))
            for w in {0, 1, step, step + 1, step * (d // 2), step * (d // 2) + 1, step * d - 1, step * (d - 1), step * d + 1}:
                if w >= 0:
                    s.add("between", heads + " " * (step * d) + "b\n" + " " * w + "c\n", coarse=True)
                    if d % 2:
                        s.add("between", heads + " " * (step * d) + "b +\n" + " " * w + "c\nd\n", coarse=True)
                    else:
                        s.add("between", heads + " " * (step * d) + "b \\\n" + " " * w + "+ c\n", coarse=True)
    # Continued lines at every indentation of a nest.
    s.grid("continued", [["if (a)\n  if (a)\n      b", "if (a)\n   b", "b"], [" +\n", " \\\n", "(\n", "\n"], ["", " ", "  ", "   ", "    ", "      ", "       "],
                         ["c", ")"], ["\n", " *\n", ""], ["", " ", "  ", "   ", "      "], ["d\n", "d", ""]])
    # Wide indentations.
    for w in [8, 100, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 4095, 4096, 32767, 32768,
              65533, 65534, 65535]:
        for w2 in [w, w - 1, w + 1, 2]:
            if 0 < w2 <= 65535:
                s.add("wide", ["if (a)\n", (" ", w), "b\n", (" ", w2), "c\n", "d\n"], coarse=True)
                s.add("wide", ["if (a)\n  if (a)\n", (" ", w), "b\n", (" ", w2), "c\n  d\ne\n"], coarse=True)
    statements(s, r, two=times(700, 15000))
    programs(s, "C02", times(300, 8000))
    tails(s, r, times([10, 64, 100], [8, 20, 64, 65, 100, 128, 200, 256, 300]), each=times(20, None))
    conform(check, s, STRUCT)


CONT = ["(", "{", "[", ":", ",", ".", "-", "+", "*", "/", "<", "<=", ">", ">="]


def broken_lines(r, text):
    """Break lines after tokens that continue them, or with a backslash."""
    out = []
    for t in gens.tokens_of(text):
        out.append(t)
        if t in CONT and r.random() < 0.35:
            out.append(r.choice(["", " ", "  ", " // c", "// c"]) + r.choice(["\n", "\n", "\r\n"])
                       + r.choice(["", "", "\n", "   \n", "// c\n"]) + " " * r.randrange(0, 9))
        elif t.strip() and not t.startswith("//") and r.random() < 0.05:
            out.append(r.choice([" \\", "\\", " \\  "]) + r.choice(["\n", "\r\n"])
                       + r.choice(["", "", "\n", "  \n"]) + " " * r.randrange(0, 9))
    return "".join(out)


def c03(check):
    s = Suite()
    ends = ["", " ", "  // c", "//", " \\", "\\ ", " \\x", " \r", "\\\r"]
    s.grid("end", [["a ", "  "], TOKENS, ends, ["\n", "\r\n"], ["  b\n", "b\n"]])
    s.grid("blank", [["a"], ["", " +", " =", "(", " \\", ",", " and"], ["\n"], ["\n", "   \n", "// c\n", "  //c\n", "\r\n"],
                     ["", "\n", "  \n", "// d\n"], ["", "  "], ["b\n", "// e\n", ")\n"], ["", "  "], ["c\n"]])
    s.grid("run", [["if (q)\n  a", "a"], ["", " +", " \\", ";"], ["\n"], ["", "  ", "    "], ["b"], ["", " *", " \\"], ["\n"],
                   ["", "  ", "    "], ["c"], ["\n", "", " +\n", "\\\n", "\\"]])
    s.grid("backslash", [["a", "", "  ", "a ="], ["\\"], ["", " ", "   "], ["", "\r"],
                         ["\n", "\r\n", "", "b", "\\\n", "// c\n", "\"", "\t"], ["", " ", "    "], ["b\n", "", "\n"]])
    # Any token first on a continued line, at any indentation.
    s.grid("first", [["if (q)\n  a", "if (q)\n  if (p)\n    a"], [" +", " \\", " ="], ["\n"], ["", " ", "  ", "   ", "    ", "     "], TOKENS, [" b"], ["\n", "\n  c\n"]])
    # Carriage returns alone, at every place around a continued line.
    cr, crs = ["", "\r", " \r", "\r "], ["", "\r ", " \r\r "]     # what is before a line feed must not be a part of it
    s.grid("cr", [["a", "if (q)\n  a"], cr, [" +", " \\", "("], crs, ["\n", "\r\n"], cr, ["  b", "b"], crs, ["\n", ")\n"]])
    # Wide blank and comment lines, and continuations far to the right.
    for n in [7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 199, 200, 201, 254, 255, 256, 257, 300, 1000, 65535, 65536]:
        for a in ("x = a +", "x = a \\", "f(", "a", "if (q)\n  a +", "if (q)\n  a"):
            for b in (["\n", (" ", n), "\n  b\n"], ["\n", (" ", n), "// c\n   b\n"], ["\n", (" ", n), "b\n"], [(" ", n), "\n  b\n"], [(" ", n), "// c\n  b\n"], [" //", ("c", n), "\n  b\n"], ["\n//", ("c", n), "\n\n   b\n"], ["\n\n", (" ", n), "\n\nb\n"], ["\r\n", (" ", n), "\r\n b\n"]):
                if n < 70 or (n + len(a) + len(b[0])) % 2:
                    s.add("wide", [a] + b + ([")\n"] if a == "f(" else []) + ["  c\n"], coarse=True)
    r = rng(SEED, "C03")
    for _ in range(times(900, 25000)):
        s.add("broken", broken_lines(r, Gen(r).program(n=r.choice([1, 1, 2]))))
    for t in r.sample(contexts(r), times(700, 5500)):
        s.add("context", broken_lines(r, t))
    for n in (depths() if Q else sizes()):
        s.add("long", "x = a" + "".join(" +\n" + " " * (i % 7) + "n%d" % i for i in range(n)) + "\n", coarse=True)
        s.add("long", "f(" + "".join("\n" + " " * (i % 5) + "n%d," % i for i in range(n)) + "\n z)\n", coarse=True)
        s.add("long", "a" + " \\\n" * n + "  + b\nc\n", coarse=True)
        s.add("long", "if (a)\n  b +" + "\n" * n + "\n c\n  d\n", coarse=True)
        s.add("long", "if (a)\n  b" + "\n" * n + "\n  c\n", coarse=True)
    conform(check, s, STRUCT)


# ------------------------------------------------------------------ C04

def edits(r, text, style):
    """An edit of the insignificant layout of a text.  Line ends inside strings
    stay."""
    comments = ["// c", "//", "//x", '// "', "// \\", "// é{(", "//  if (a) +", "///", "// a\r b", "//\t",
                "//" + "-" * r.choice([20, 40, 80, 100, 130, 260])]
    nl = "\r\n" if "crlf" in style else "\n"
    out = []
    ts = gens.tokens_of(text)
    for i, t in enumerate(ts):
        if t.startswith("\n"):
            prev = "".join(out[-3:])
            cont = prev.rstrip(" ").endswith("\\")
            if "trail" in style and r.random() < 0.4:
                out.append(" " * r.randrange(1, 4))
            if "comment" in style and not cont and r.random() < 0.35:
                out.append(r.choice(["", " ", "   "]) + r.choice(comments))
            line = nl if "somecrlf" not in style or r.random() < 0.5 else "\r\n"
            out.append(line)
            while r.random() < 0.4:
                if "blank" in style and r.random() < 0.6:
                    out.append(" " * r.choice([0, 0, 1, 2, 3, 5, 9]) + line)
                elif "lines" in style:
                    out.append(" " * r.choice([0, 0, 1, 2, 3, 5, 9]) + r.choice(comments) + line)
            out.append(t[1:])
        elif t.strip() == "" and t != "" and "spaces" in style and i > 0 and not out[-1].endswith("\n"):
            out.append(t + " " * r.randrange(0, 4))
        else:
            out.append(t)
    res = "".join(out)
    if "lines" in style and r.random() < 0.5:
        res = " " * r.choice([0, 2, 4]) + r.choice(comments) + nl + res
    if "blank" in style and r.random() < 0.3:
        res = r.choice([nl, "   " + nl]) + res
    if "lines" in style and r.random() < 0.3:
        res += " " * r.choice([0, 2, 4]) + r.choice(comments) + r.choice(["", nl])
    if "blank" in style and r.random() < 0.3:
        res += r.choice(["", nl]) + " " * r.randrange(4)
    return res


STYLES = ["trail", "comment", "crlf", "somecrlf", "blank", "lines", "spaces"]


def c04(check):
    s = Suite()
    r = rng(SEED, "C04")
    pairs = []
    bases = ["a\n", "a +\n  b\nc\n", "if (a)\n  b\n  c\nd\n", "if (a)\n  b\nelse\n  c\nd\n",
             "while (a)\n  if (b)\n    c(\n      1,\n  2)\n  d\ne\n", "var m =\n  p: 1\n  q: 2\nprint m\n",
             "x = \\\n    1\ny\n", "class A < B\n  init(a)\n    this.a = a\n  class m()\n    1\nA.m()\n",
             "fun f()\n  return 1\nf 1, 2\n", "for (var i = 0; i < 9;\n   i = i + 1)\n  break\n",
             "var m = {a: 1,\n  b: [1,\n2]}\n", "if (a) b\nelse c\n", "f(\n)\n", "a.\nb\n"]
    texts = bases * times(12, 300)
    texts += r.sample(contexts(r), times(600, 5500))
    for _ in range(times(420, 14000)):
        t = Gen(r).program(n=r.choice([1, 1, 2]))
        if r.random() < 0.4:
            t = broken_lines(r, t)
        if r.random() < 0.12:
            t = mutate(r, t)      # rejected ones stay rejected
        texts.append(t)
    for t in texts:
        style = set(r.sample(STYLES, r.choice([1, 1, 1, 2, 3, 5])))
        u = edits(r, t, style)
        if u == t:
            continue
        for x in (t, u):
            s.add("edit", x)
        pairs.append((json.dumps(line_of(t)), json.dumps(line_of(u)), sorted(style)))
    # Small programs, all edits between their lines.
    end = ["", " ", " // c", "//"]
    sep = ["", "\n", "  \n", "// c\n", "      // c\n"]
    nls = ["\n", "\r\n"]
    s.grid("ends", [["if (a)"], end, nls, ["  b +"], end, nls, ["      c"], end, ["\n"], ["  d"], end, nls, ["e"], end, ["\n"]])
    s.grid("seps", [sep, ["if (a)\n"], sep, ["  b(\n"], sep, ["1)\n"], sep, ["  d\n"], sep, ["e\n"]])
    exp, act = conform(check, s, STRUCT - {"kinds"})
    # The relation itself, on the code's own outcomes; the specification
    # confirms that the edit is one of the insignificant ones.
    by_text = {json.dumps(e["lines"][0]): e for e in exp if len(e["lines"]) == 1}
    same = insignificant = 0

    def view(rs, expected):
        return project(rs[0], expected, {"verdict", "ast", "msgs"})
    for t, u, style in pairs:
        if t not in by_text or u not in by_text:
            continue
        et, eu = by_text[t], by_text[u]
        if view(et["res"], True) != view(eu["res"], True):
            continue
        insignificant += 1
        at, au = act[et["id"]], act[eu["id"]]
        if at.get("skip") or au.get("skip"):
            continue
        if view(at["res"], False) != view(au["res"], False):
            check.violation({"id": eu["id"], "mode": "file", "lines": [json.loads(t), json.loads(u)]},
                            ("edit %s changes the outcome" % style,
                             difference(view(at["res"], False), view(au["res"], False))))
        else:
            same += 1
    # In the grids all texts of a family must come out the same.
    groups = {}
    for e in exp:
        fam = e["id"].split(":")[0]
        if fam in ("ends", "seps"):
            groups.setdefault(fam, []).append(e)
    for fam, es in groups.items():
        ref = view(es[0]["res"], True)
        for e in es:
            if view(e["res"], True) != ref:
                raise ToolError("the specification depends on layout: %r" % show(e["lines"][0]))
    check.coverage["edited_pairs"] = insignificant
    check.coverage["edited_pairs_same"] = same
    if insignificant < 0.85 * len(pairs):
        raise ToolError("only %d of %d edits are insignificant" % (insignificant, len(pairs)))


# ------------------------------------------------------------------ lexemes

def random_table(check, exe, r, n):
    """A cluster table with random characters, classified by Rust's own tables."""
    cps = set()
    ranges = [(0x80, 0x24f), (0x250, 0x52f), (0x530, 0x6ff), (0x900, 0xdff), (0xe00, 0x1fff),
              (0x2000, 0x2bff), (0x2c00, 0x2fff), (0x3000, 0x33ff), (0x4e00, 0x4fff), (0xa000, 0xabff),
              (0xac00, 0xad00), (0xf900, 0xffff), (0x10000, 0x10fff), (0x11000, 0x11fff),
              (0x1d400, 0x1d7ff), (0x1f300, 0x1f6ff), (0x20000, 0x20100)]
    while len(cps) < n:
        a, b = r.choice(ranges)
        cps.add(r.randrange(a, b + 1))
    text = json.dumps([chr(c) for c in sorted(cps)])
    out = subprocess.run([exe, "classify"], input=text, capture_output=True, text=True)
    if out.returncode != 0:
        raise ToolError("classify: " + out.stderr)
    return json.loads(out.stdout)


def c05(check):
    exe = build_harness()
    r = rng(SEED, "C05")
    s = Suite()
    chars = ["a", "_", "1", ".", "=", "!", "<", "/", " ", "-", "é", "٣", "\n", "\""]
    s.grid("triples", [chars + ["5̂", ">", "(", "\\", ":", "+", "Z", "😀", "½"]] * 3)
    s.grid("quads", [["a", "1", ".", "=", "!", "/", " ", "é", "<"]] * 4)
    if THOROUGH:
        s.grid("quads2", [chars] * 4)
        s.grid("quints", [["a", "1", ".", "=", "/", " "]] * 5)
    ascii_ = [chr(c) for c in range(1, 127)]
    s.grid("ascii", [["", "a", "1", "=", " "], ascii_, ["", "a", "1", "=", ">"]])
    # Keywords and their neighbours.
    for k in gens.KEYWORDS:
        near = {k, k.upper(), k.capitalize(), k[:-1], k[1:], k + "_", "_" + k, k + "1", "1" + k, k + "é",
                "é" + k, k + "s", k + k, k + ".", k + "(", k + "=", k + "//", k + '"', k + "٣", k[0] + "_" + k[1:],
                k[:-1] + k[-1].upper(), k[::-1], k + " ", k + "x", k[0] + k}
        for j in range(len(k)):
            near.add(k[:j] + k[j + 1:])
            near.add(k[:j] + "x" + k[j + 1:])
            near.add(k[:j] + k[j] + k[j:])
        for w in near:
            s.add("keyword", "a %s b" % w)
            s.add("keyword", w)
        for k2 in gens.KEYWORDS:
            s.add("keywords", "%s%s %s %s_%s" % (k, k2, k, k, k2))
    t = table()
    for kind in ("letters", "digits", "other"):
        for c in t[kind]:
            for pat in ("%s", "a%s", "%sa", "1%s", "%s1", "a %s b", "_%s_", '"%s"', "//%s\na", ".%s", "=%s"):
                s.add("unicode", pat % c)
    for n in sizes() + [1000, 5000, 65535, 65536, 70000]:
        if n:
            s.add("longword", ["x = ", ("a", n), " + ", ("1", n), ("_", n), "\n"], coarse=True)
            s.add("longword", [("é", n), ("9", n), " ", ("0", min(n, 5000)), ".", ("3", min(n, 5000)), "\n"], coarse=True)
            s.add("longspace", ["a", (" ", n), "b", "//", ("/", n), "\nc\n"], coarse=True)
            s.add("longword", ["retur", ("n", n), " fals", ("e", n), "\n"], coarse=True)
    for _ in range(times(800, 30000)):
        pieces = ["a", "b1", "_", "é", "1", "20", "3.25", ".5", "6.", "==", "=", "!", "!=", "<=", ">", "/", "//", "-", " ", "  ",
                  "\n", '"s"', '"', "(", ")", "{", "[", "]", "}", ",", ";", ":", "*", "+", "and", "or", "while", "var", "th", "is",
                  "@", "#", "\\", "'", "\t", "٣", "½", "中"]
        s.add("pieces", "".join(r.choice(pieces) for _ in range(r.randrange(2, 14))))
    parts = {"verdict", "toks", "causes"}
    conform(check, s, parts, exe=exe)
    # Characters from all over Unicode.
    rt = random_table(check, exe, r, times(500, 4000))
    d = os.path.join(check.work, "uni")
    os.mkdir(d)
    with open(os.path.join(d, "clusters.json"), "w") as f:
        json.dump(rt, f, ensure_ascii=False)
    u = Suite()
    kn = table_clusters(rt)
    for kind in ("letters", "digits", "other"):
        for c in rt[kind]:
            u.add("any-" + kind, ["a ", (c, 1), " ", "b", (c, 1), "c1 ", (c, 1), (c, 1), "_ 2", (c, 1), "\n"], known=kn)
            u.add("any-" + kind, [(c, 1), "if 3", (c, 1), "\n"], known=kn)
    conform(check, u, parts, exe=exe, specdir=d)


# ------------------------------------------------------------------ C06

def number_texts(r, n):
    out = ["0", "1", "9", "00", "01", "0.0", "1.0", "0.1", "0.2", "0.3", "1.10", "255", "256", "65535", "65536",
           "16777216", "16777217", "4294967295", "4294967296", "9007199254740991", "9007199254740992",
           "9007199254740993", "9007199254740995", "18014398509481985", "9223372036854775807",
           "18446744073709551615", "18446744073709551616", "0.30000000000000004", "2.2250738585072014",
           "123456789012345678901234567890", "0.000000000000000000000000000001", "1" + "0" * 308,
           "1" + "0" * 309, "17976931348623157" + "0" * 292, "17976931348623159" + "0" * 292,
           "0." + "0" * 307 + "22250738585072011", "0." + "0" * 323 + "5", "0." + "0" * 323 + "2",
           "0." + "0" * 323 + "24703282292062327208", "0." + "0" * 323 + "24703282292062328",
           "9007199254740993." + "0" * 30 + "1", "0.5", "0.25", "0.125", "3.141592653589793238462643383279",
           "8.41", "4.35", "1.005", "0.1" + "0" * 50 + "1", "99999999999999999999", "1.7976931348623157"]
    while len(out) < n:
        k = r.randrange(6)
        if k == 0:
            out.append(str(r.randrange(10 ** r.randrange(1, 25))))
        elif k == 1:
            out.append("%d.%s" % (r.randrange(10 ** r.randrange(1, 18)),
                                  "".join(r.choice("0123456789") for _ in range(r.randrange(1, 25)))))
        elif k == 2:   # halfway between two doubles
            m = r.randrange(2 ** 52, 2 ** 53)
            e = r.randrange(0, 60)
            out.append(str((2 * m + 1) * 2 ** e // r.choice([1, 1, 2]) + r.choice([-1, 0, 0, 1])))
        elif k == 3:   # a halfway fraction written out
            m = 2 * r.randrange(2 ** 52, 2 ** 53) + 1
            e = r.randrange(54, 75)
            i, f = divmod(m, 2 ** e)
            digits = ""
            for _ in range(e):
                f *= 10
                d, f = divmod(f, 2 ** e)
                digits += str(d)
            out.append("%d.%s" % (i, digits + r.choice(["", "0", "1", "0001"])))
        elif k == 4:
            out.append("0" * r.randrange(5) + str(r.randrange(1000)) + "." + str(r.randrange(1000)) + "0" * r.randrange(5))
        else:
            out.append("0." + "0" * r.randrange(0, 30) + str(r.randrange(1, 10 ** 17)))
    return out


def c06(check):
    exe = build_harness()
    s = Suite()
    r = rng(SEED, "C06")
    bits_ = ["a", " ", "\n", "\r\n", "\\", "//", "é", "{", "😀", "\t", "1", "\r", "'", "\\n", "  "]
    s.grid("strings2", [['"', 'x "', "print \""], [""] + bits_, bits_, ['"\n', '" + y\n', '"', "", "\n"]])
    s.grid("strings3", [['v = "']] + [bits_ + [""]] * 3 + [['"\nz\n']])
    ctl = [chr(c) for c in range(0, 128) if chr(c) != '"'] + table()["letters"] + table()["other"]
    for c in ctl:
        if '"' in c:
            continue
        for pat in ('"%s"\n', '"a%sb" "%s"\n', '"%s'):
            s.add("anychar", pat.replace("%s", c) if "%s" in pat else pat)
    for n in sizes() + [1000, 4095, 4096, 10000, 65535, 65536, 70000]:
        if n:
            s.add("longstring", ['x = "', ("a", n), '" + "', ("é", n), '"\n'], coarse=True)
            s.add("longstring", ['"', ("\n", n), 'a"\nb\n'], coarse=True)
            s.add("longstring", ['"', ("a", n), "\n"], coarse=True)
    for _ in range(times(400, 10000)):
        t = '"' + "".join(r.choice(bits_ + ["b", "==", "(", "0"]) for _ in range(r.randrange(12))) + '"'
        s.add("string", r.choice(["%s\n", "f(%s)\n", "var x = %s\n", "{a: %s, %s: 1}\n", "  %s\n", "[%s, %s]\n"]).replace("%s", t))
    literals_ = ["1", "0", "0.5", "12.25", "007", '""', '"s"', '"a//b"', '"\\"', '"x\ny"', '"true"', '"1"', "true", "false", "nil"]
    expressions(s, r, two=times(300, 4000), three=times(200, 4000), kinds=literals_)
    statements(s, r, two=times(200, 2000), kinds=literals_)
    s.grid("words", [["", "x = ", "f ", "!", "[", "{a: "], ["true", "false", "nil"], ["", "]", "}", " == nil", " or true", ".a"], ["\n"]])
    texts = number_texts(r, times(500, 6000))
    for t in texts:
        s.add("number", "%s\n" % t)
    s.grid("digits", [["x = ", "f ", "-"], ["", "0", "1", "90"], ["0", "5", "10"], [".", "", " ."], ["0", "25", ""], ["\n", ".a\n"]])
    for n in sizes() + [400, 800, 5000]:
        if n:
            s.add("longnumber", [("7", n), "\n"], coarse=True)
            s.add("longnumber", ["0.", ("1", n), "\n"], coarse=True)
            s.add("longnumber", ["1", ("0", n), ".", ("0", n), "1\n"], coarse=True)
    # What is at the ends of a string, short and long; strings as keys.
    odd_ = [" ", "  ", "\t", "\n", "\r\n", "\r", "\\", "'", "0", "_", ".", "é", "//", "\u00a0", "\ufeff", "{", "%", "$", "\\n", "x"]
    for n in [0, 1, 7, 15, 16, 20, 31, 39, 40, 41, 63, 64, 100, 127, 128, 255, 256, 1000]:
        for a, b in itertools.product(odd_, odd_) if n in (0, 1) else [(x, y) for x in odd_ for y in odd_ if (x == y or "x" in (x, y)) and (n < 20 or r.random() < 0.2)]:
            q = ["\"" + a, ("b", n), b + "\""]
            s.add("ends", r.choice([["x = "], ["f("], ["["], ["print "], ["a."], ["f "], [""]]) + q + ["\n"], coarse=True)
            if n < 40:
                s.add("key", ["x = {k: 1, "] + q + [": "] + q + ["}\n"], coarse=True)
                s.add("key", ["var m =\n  "] + q + [": 1\n  k: 2\n"], coarse=True)
    def values(res, expected, case):
        if res["by"] in ("panic", "crash", "hang"):
            return {"died": res["by"]}
        o = {"scanned": res["by"] != "scan"}
        o["values"] = [tok_values(t, expected) for t in res["toks"] if t["k"] in ("String", "Number", "True", "False", "Nil")] \
            if o["scanned"] else None
        o["unterminated"] = [e["m"] for e in res["errs"] if e["m"].startswith("Untermin")]
        ast = numbers(res["ast"]) if expected else res["ast"]
        o["literals"] = literals(ast)
        return o
    exp, act = conform(check, s, None, exe=exe, project_fn=values)
    nearest(check, exp, act)


def literals(t):
    out = []

    def walk(x):
        if isinstance(x, list):
            if x and x[0] in ("Num", "Str") and len(x) == 2 and isinstance(x[1], str):
                out.append(x)
            elif x in (["True"], ["False"], ["Nil"]):
                out.append(x)
            elif x and x[0] == "Map" and len(x) == 2:
                for e in x[1]:
                    out.append(["key", e[0]])
                    walk(e[1])
            else:
                for y in x:
                    walk(y)
    walk(t)
    return out


def nearest(check, exp, act):
    """TLC decides with exact arithmetic (spec/Nearest.tla) that the double the
    code yields for a number is the nearest to its text."""
    pairs = {}
    for e in exp:
        a = act[e["id"]]
        if a.get("skip"):
            continue
        for x, y in zip(e["res"], a["res"]):
            if x["by"] == "scan" or y["by"] in ("scan", "panic", "crash", "hang"):
                continue
            for tx, ty in zip(x["toks"], y["toks"]):
                if tx["k"] == "Number" and "f" in ty and len(tx["x"]) <= times(60, 400):
                    pairs[(tx["x"], ty["f"])] = e
    data, keys = [], sorted(pairs)
    for text, b in keys:
        i, _, f = text.partition(".")
        v = int(b, 16)
        exp_, man = (v >> 52) & 0x7ff, v & ((1 << 52) - 1)
        data.append({"i": [int(c) for c in i], "f": [int(c) for c in f], "neg": v >> 63,
                     "e": exp_, "hi": man >> 26, "lo": man & ((1 << 26) - 1)})
    f = os.path.join(check.work, "numbers.json")
    o = os.path.join(check.work, "wrong")
    os.mkdir(o)
    with open(f, "w") as fh:
        json.dump(data, fh)
    st = tlc("Nearest", "Nearest.cfg", {"NUMBERS": f, "OUT": o}, check.work)
    wrong = sorted(int(n) for n in os.listdir(o))
    for w in wrong:
        text, b = keys[w - 1]
        e = pairs[keys[w - 1]]
        check.violation({k: e[k] for k in ("id", "mode", "lines")},
                        "%s is not the double nearest to %s" % (struct.unpack(">d", bytes.fromhex(b))[0], text))
    check.coverage["numbers_decided_exactly"] = len(data)
    check.coverage["states"] += st["states"]
    check.coverage["transitions"] += st["transitions"]


# ------------------------------------------------------------------ C07

def c07(check):
    s = Suite()
    r = rng(SEED, "C07")
    names = unicode_names()
    for _ in range(times(500, 15000)):
        t = Gen(r, names=names).program(n=r.choice([1, 2]))
        k = r.randrange(6)
        if k == 1:
            t = broken_lines(r, t)
        elif k == 2:
            t = edits(r, t, set(r.sample(STYLES, 3)))
        elif k == 3:
            t = mutate(r, t, r.choice([1, 2]))
        elif k == 4:
            t = t.replace('"', '"\n', 1) if '"' in t else t
        elif k == 5:
            t = re.sub(r'"([^"]*)"', lambda m: '"' + r.choice(["\n", "\r\n", "é\n\n", "😀", "\r"]) + m.group(1) + '"', t)
        s.add("program", t)
    for _ in range(times(300, 6000)):
        s.add("soup", gens.soup(r, r.randrange(2, 10)))
    # A token after anything that moves the position.
    before = ["a", '"s"', '"x\ny"', '"x\r\n  y"', '"\n"', "// c\n", "\n", "\r\n", "\\\n", "\\ \r\n  ", "é y̆ 😀", "  ", "(\n",
              "\n   ", "+\n  ", "\r", "\t", "1.25", "!=", "@", "==", '"é"', "😀"]
    s.grid("after", [before, ["", " "], before, ["", " "], ["b", "(", '"', "@", "==", "\\", "\t", ")", "1"], ["\n", ""]])
    # Located nodes: operators, names, brackets, first arguments.
    s.grid("nodes", [["", "\n\n", "x = ", "if (a)\n   ", "é + ", '"\n" + ', "f("],
                     ["a + b", "a.b", "a[1]", "f(1)", "f 1", "f  (a)", "-a", "a = b", "a.b = c", "a[1] = 2", "fun() {}",
                      "a and b", "(a)(b)", "f {a: 1}", "a < -b", "f g 1", "a.b(c)[d] e", "fun (é) {\nx + é\n}"], [")\n", "\n", " * 2\n"]])
    s.grid("stmts", [["", "  // c\n", "\r\n", "if (a)\n  "],
                     ["var  x = 1", "var x", "fun  f(a,  b)\n    return  a", "class  A  <  B\n    init( a )\n      super.x",
                      "class A\n    class  m()\n      this.x = 1", "while (a) break", "for (var i; ; ) continue", "return 1", "x = this",
                      "fun f(a, a)\n    1", "super.a", "class A < A\n    m()\n      1", "var x = {a: 1, a: 2}", "break",
                      "1 = 2", "f(1", "var 1", "class 1", "fun f(1)\n    1", "if a", "print", "a b c d )", "return return"], ["\n", ""]])
    # Every kind of node and statement far to the right, also inside blocks.
    exprs = ["a + b", "a.b.longer_name", "a[1][2]", "f(1)(2, 3)", "f 1, 2", "f  (a)", "-a", "!a", "a = b", "a.b = c", "a[1] = 2", "fun(x, y) {}", "a and b or c",
             "a < -b", "f {a: 1}", "super.a_longer_name(1)", "super.x", "this.x = this", "a == b != c", "a\n", "b * (c - d) / e", "{a: 1}", "f fun() {}, g 1", '"s" + a']
    stmts = ["var x = 1", "var longer_name", "fun f(a, b)\n{i} return a", "fun  longer_name ( a , a )\n{i} b", "class A < Bb\n{i}  init(a)\n{i}   super.x\n{i}  class m()\n{i}   this",
             "class  Longer_Name\n{i}  mmm ( a )\n{i}   return", "while (a)\n{i} break", "for (var i = 0; i < 9; i = i + 1)\n{i} continue", "return  a", "return", "break", "x = this",
             "var m = {a: 1, b: 2, c: 3, d: 4, c: 5}", "var m = {a: 1, \"b\": 2, a: 3}", "fun f(a, b, c, d, b)\n{i} 1", "f(a, b, c, d", "class A < A\n{i} m()\n{i}  1", "print )", "f(1) = 2",
             "if (a) b +", "var if", "class 1", "x = {a: 1", "a @ b # c", "super", "var v = [v]", "x = fun(a) {\n{i}return b c )"]
    for n in (24, 60, 130, 260, 300):
        pad = " " * n
        for e in exprs:
            s.add("right", ["x =", (" ", n), e, "\n"], coarse=n > 60)
            s.add("right", ["class C < D\n m()\n", (" ", n), e, "\n"], coarse=n > 60)
        for t in stmts:
            s.add("right", "if (a)\n" + pad + t.replace("{i}", pad) + "\n", coarse=n > 60)
            s.add("right", "\n" * n + t.replace("{i}", "") + "\n", coarse=n > 60)
    # Clusters of many characters, before things that are located.
    for c in [c for k in ("letters", "digits", "other") for c in table()[k]]:
        for t in ('x = "%s" + b )\n', '"%s%s" c(d)\n', '// %s\na b )\n', 'f("%s", @\n', 'x%s = y + z )\n', 'print %s + b c )\n', '"a%s\n%s" )\n', '"%s'):
            s.add("cluster", t.replace("%s", c))
    for t in contexts(r, two=times(400, 8000)):
        k = r.randrange(8)
        s.add("context", broken_lines(r, t) if k == 0 else edits(r, t, set(r.sample(STYLES, 3))) if k == 1 else t)
    # Far columns and lines.
    for n in [100, 126, 127, 128, 253, 254, 255, 256, 257, 300, 1000, 32767, 32768, 65500, 65530, 65531, 65532, 65533, 65534,
              65535, 65536, 65537, 70000]:
        for t in (["x = ", (" ", n), "a + b\n"], [("\n", n), "a + b\n"], ['"', ("\n", n), '" + b\n'], ['x = "', ("é", n), '" + b @\n'],
                  [("a", n), " + b )\n"], ["//", ("c", n), "\na + b\n"], [("\r\n", n), "a(1) + b\n"], ["a \\", (" ", n), "\n b\n"],
                  [(" ", n), "@ b"], ['x = "', ("é", n)], ["x = ", ("1", min(n, 3000)), " + b\n"], ["a", (" ", n), "b c(d)\n"],
                  ["if (a)\n", (" ", n), "b\n", " c\n"], ['"', ("\n", n), ("a", n), '" )'], [("\r", n), "a b\n"]):
            s.add("far", t, coarse=True)
    for n in times([70001, 100000], [70001, 100000, 1000000]):
        s.add("farline", [("\n", n), "a + b\n"], coarse=True)

    def locs(res, expected, case):
        if res["by"] in ("panic", "crash", "hang"):
            return {"died": res["by"]}
        o = {"by": res["by"]}
        o.update(project(res, expected, {"toklocs", "astlocs"}))
        o["errs"] = [[e["l"], e["c"], e["m"]] for e in res["errs"]]
        return o
    conform(check, s, None, project_fn=locs)


# ------------------------------------------------------------------ expressions

def c08(check):
    s = Suite()
    ops = [" %s " % o for o in gens.BINARY]
    prims = ["a", "1.5", '"s"', "nil", "true", "this", "super.x", "(a)", "[a]", "{p: 1}", "fun() {}", "f(1)", "a.b", "a[0]"]
    s.grid("prims", [["", "!", "-"], prims, ops + [" = "], ["", "!", "-"], prims[::2] if Q else prims, ["\n"]])
    s.grid("prims2", [["c - ", "c == "], ["", "!"], prims, [" * ", " or ", " == "], prims[1::2] if Q else prims, ["\n"]])
    s.grid("ops2", [["a", "-a", "!a", "(a)"], ops + [" = "], ["b", "-b"], ops + [" = "], ["c", "!c"], ["\n"]])
    s.grid("ops3", [["a"], ops, ["b"], ops, ["c"], ops, ["d\n"]])
    s.grid("tight", [["a", "1"], [o.strip() for o in ops[2:]], ["-b", "b", "!b", "(b)"], [o.strip() for o in ops[2:]], ["c\n"]])
    post = ["", ".p", "[i]", "(x)", " y"]
    s.grid("unary", [["", "-", "!", "- -", "!!", "-!"], ["a", "(a)"], post, post, ["\n", " * b\n", " = b\n"]])
    s.grid("parens", [["(a "], [o.strip() for o in ops], [" b) ", " (b "], [o.strip() for o in ops], [" c)", " (c))", " c"], ["\n"]])
    targets = ["a", "a.b", "a[0]", "a.b.c", "a[0][1]", "a(b).c", "a(b)[c]", "(a).b", "(a)[0]", "this.x", "this[0]", "super.x",
               "(a)", "a(b)", "a b", "1", '"s"', "nil", "true", "this", "a + b", "-a", "!a", "-a.b", "a or b", "a == b", "[a]",
               "{a: 1}", "{}", "fun() {}", "(a.b)", "a.b + c.d", "a b.c", "a.b c", "f()", "a.b()", "super.x.y", "-a[0]", "((a))",
               "[a][0]", "a < b.c", "f(1).b", "init", "this.this_"]
    s.grid("target", [["", "x = ", "print ", "f(", "if (", "(", "y + "], targets, [" = "], ["1", "b = 2", "c.d", "e = f.g = h", "-1"],
                      ["\n", ")\n"]])
    s.grid("chain", [["a", "a.b", "a[0]"], [" = "], ["b", "b.c", "b[1]", "1", "this"], [" = "], ["c", "(d = e)", "c or d", "c = 1", "this = 1"], ["\n"]])
    r = rng(SEED, "C08")
    for _ in range(times(900, 30000)):
        g = Gen(r, ops=8, juxta=0.5, maps=0.2, lambdas=0.1, strings=0.2, depth=4, unary=1.5)
        ctx = dict(ind=0, loop=False, fun=False, cls=False, sub=False, init=False)
        e = g.plain(g.expr(r.choice([2, 3, 4]), ctx))
        if r.random() < 0.3:      # without the spaces around symbols
            e = re.sub(r" ([-+*/<>=!]=?) ", r"\1", e)
        s.add("random", e + "\n")
        if r.random() < 0.2:
            s.add("lone", e, mode="expr")
    flat = rng(SEED, "C08", "flat")
    for _ in range(times(300, 8000)):
        n = flat.randrange(3, 12)
        e = " ".join(["%s%s %s" % (flat.choice(["", "", "-", "!"]), flat.choice("abcd"), flat.choice(gens.BINARY)) for _ in range(n)]) + " z"
        s.add("flat", e + "\n")
    expressions(s, r, two=times(1500, 25000), three=times(700, 25000))
    named(s, r, ones=times(4, 60))
    pairs(s, r, times(2500, 40000))
    lists(s, r, times(300, 6000))
    scaled(s, ["or", "mix", "minus", "div", "eq", "lt"], times([1, 2, 3, 5, 9, 17, 33, 65, 129, 256, 300], sizes()))
    scaled(s, ["parens", "nots", "minuses", "assigns"], depths())
    conform(check, s, {"verdict", "ast", "msgs"})


def c09(check):
    s = Suite()
    callee = ["f", "f.g", "f[0]", "f(0)", "(f)", "1", '"s"', "nil", "this", "super.m", "[f]", "fun() {}", "{}", "f()()", "true"]
    arg = ["a", "1", '"s"', "nil", "true", "false", "(a)", "fun() {}", "fun (x) {}", "{}", "{p: 1}", "super.m", "this", "[a]", "-a", "!a",
           "a + b", "a = b", "g a", "g(a)", "a.b", "p: 1", "print", "\n", "var", "if", "and", "or a", ")", "*", "a[0]"]
    s.grid("forms", [callee, [" ", "(", " (", "  ("], arg, ["", ")", ", c", ", c)"], ["\n"]])
    s.grid("juxta2", [["f ", "f.g ", "x = f ", "y + f ", "-f ", "f(1) "], ["a", "a b", "g a", "{p: 1}", "(a)", "(a, b)", "a, b", "a, g b, c", "a(1)"],
                      ["", ", ", " + ", ".p ", "[0] ", "(2) ", " = "], ["c", "h d", "(e)", ""], ["\n"]])
    links = ["", ".p", "[i]", "(x)", "(x, y)", "()", " z", " (w)", ".init", "[f 1]", "(g 1, 2)"]
    s.grid("links", [["f", "(f)", "f.g"], links, links, links, ["\n"]])
    seps = ["", " ", "  ", "\n", "\\\n", " \\\n  ", "// c\n", "\t", "\r", " \r", "\r ", "\r\n", "\\\r\n", " // c\n  ", "\\ \n"]
    s.grid("abut", [["f", ")", "]", "}", '"s"', "1", "if", "x = ", "f.g", "fun", "super", "this", "a +"], seps, ["(a)", "(a, b)", "()"], ["\n"]])
    both = rng(SEED, "C09", "both")
    pairs = []
    g = Gen(both, juxta=0.3, assign=0)
    ctx = dict(ind=0, loop=False, fun=False, cls=False, sub=False, init=False)
    for _ in range(times(300, 6000)):
        args = [g.start(g.operand(both.choice([0, 1, 2]), ctx)) for _ in range(both.choice([1, 1, 2, 3, 5]))]
        fn = both.choice(["f", "f.g", "f[1]", "(f)", "f(0)"])
        t, u = "%s(%s)\n" % (fn, ", ".join(args)), "%s %s\n" % (fn, ", ".join(args))
        s.add("notation", t); s.add("notation", u)
        pairs.append((t, u))
    expressions(s, both, two=times(1000, 20000), three=times(400, 10000))
    programs(s, "C09", times(400, 12000), calls=8, juxta=8, ops=1, classes=0.3)
    lists(s, both, times(700, 15000))
    gens.pairs(s, both, times(700, 20000))
    inner(s, both, ["args", "params", "paramsx", "mparams", "args0"], times([255, 256], [254, 255, 256, 257]), each=times(6, 40))
    scaled(s, ["args", "args0", "argslit", "params", "paramsx", "mparams", "calls", "gets", "idx", "chain"], sizes())
    scaled(s, ["argsinargs", "juxta"], depths())
    for n in [254, 255, 256, 257]:
        xs = ", ".join(gens.names(n))
        for t in ("f.g(%s)(1)\n", "f %s\nx\n", "f(g(%s), 1)\n", "f(1, 2, g %s)\n", "x = fun(%s) {}\n", "class A\n  init(%s)\n    1\n",
                  "class A\n  class c(%s)\n    1\n", "f(%s,)\n", "f[0] %s\n", "while (f(%s)) b\n"):
            s.add("limit", t % xs, coarse=True)
    exp, act = conform(check, s, {"verdict", "ast", "msgs"})
    # Both notations, on the code's own trees.
    by_text = {show(e["lines"][0]): act[e["id"]] for e in exp}
    agree = 0
    for t, u in pairs:
        a, b = by_text.get(t), by_text.get(u)
        if not a or not b or a.get("skip") or b.get("skip"):
            continue
        x, y = (project(z["res"][0], False, {"ast", "accept"}) for z in (a, b))
        if x == y:
            agree += 1
        elif x.get("accepted") or y.get("accepted"):
            check.violation({"id": "notation", "mode": "file", "lines": [line_of(t), line_of(u)]},
                            ("the notations differ", difference(x, y)))
    check.coverage["both_notations_agree"] = agree


def c10(check):
    s = Suite()
    val = ["1", "a", "-b", "[c, d]", "{p: 1}", "f(x)", "f 1", "(e)", '"s"', "fun() {}", "a = 1", "{}"]
    s.grid("array", [["[", "[\n", "[ ", "x = [\n  "], val, [", ", ",\n", ",\n   ", "", " "], val, [",", "", ",\n", "\n"], ["]", " ]", "\n]"], ["\n"]])
    s.grid("array1", [["["], ["", "a"], ["", ",", ",,", " ", "\n"], ["]"], ["", "[0]", ".p", "(1)", " + 1"], ["\n"]])
    keys = ["k", '"k"', "l", '"l"', "init", '""', '"a b"', "K"]
    s.grid("keys", [["var m = {", "f({", "var m =\n  ", "x = "], keys, [": 1, "], keys, [": 2"], ["}\n", "})\n", "\n"]])
    s.grid("keys3", [["var m = {"], keys[:5], [": 1, "], keys[:5], [": 2, "], keys[:5], [": 3}\n"]])
    s.grid("seps", [["var m = {", "var m = {\n", "var m =\n  ", "var m = "], ["a: 1"], [", ", ",\n  ", "\n  ", "\n\n  ", " // c\n  ", "\r\n  ", " ", ";", ",, "],
                    ["b: 2", '"b": 2', "b: 2 + 3"], ["", ",", "\n", ",\n", " "], ["}", "", "\n}", "\n  }"], ["\n"]])
    s.grid("bare", [["", "f ", "x = ", "print ", "var y = ", "return ", "[", "(", "f(1, "], ["a: 1", "a: b: 2", '"a": 1', "a: f b: 1", "a: 1, b: 2", "a: {b: 1}", "a: 1 + 2, b: -3", "this: 1", "1: 2"],
                    ["", ")", "]", "\nc: 3"], ["\n"]])
    s.grid("nested", [["var m ="], ["\n  ", " ", "\n"], ["p: "], ["1", "{q: 1}", "{q: 1, p: 2}", "[1, {p: 1}]", "f(p: 1)"], ["\n  ", ",\n  ", ", ", "\n"],
                      ["q: ", "p: ", '"q": ', '"p": '], ["2", "{r: 3}"], ["\n", ",\n", ""], ["", "print m\n", "  r: 3\n"]])
    r = rng(SEED, "C10")
    for _ in range(times(700, 25000)):
        n = r.choice([0, 1, 2, 3, 4, 6, 9])
        pool = ["k%d" % i for i in range(12)] + ["a", "b", "é", "_", "If", "K1", "If_", "longer_key", "Longer_Key", "longer_key_", "LONGER_KEY",
                                                 "longer_keY", "été", "Été", "init", "_" * 20]
        ks = r.sample(pool, n)
        if n and r.random() < 0.35:
            ks.insert(r.randrange(n + 1), r.choice(ks))
        g = Gen(r, maps=2, arrays=2, lambdas=0.3)
        ctx = dict(ind=0, loop=False, fun=False, cls=False, sub=False, init=False)
        es = ["%s%s%s" % (r.choice(["%s", "%s", '"%s"']) % k, r.choice([": ", ":", " : "]), g.operand(r.choice([0, 0, 1, 2]), ctx)) for k in ks]
        form = r.randrange(4)
        if form == 0:
            t = "var m = {" + r.choice([", ", ","]).join(es) + r.choice(["", ","]) + "}\n"
        elif form == 1:
            t = "var m =\n" + "".join("  " + e + r.choice(["", ","]) + "\n" for e in es) + "print m\n"
        elif form == 2:
            t = "f({" + "".join("\n  " + e + r.choice([",", ""]) for e in es) + "\n})\n"
        else:
            t = "x = " + ", ".join(es) + "\n"
        s.add("map", t)
        s.add("array", "[" + ", ".join(g.operand(r.choice([0, 1, 2]), ctx) for _ in range(n)) + r.choice(["", ","]) + "]\n")
        # With an entry, a comma, a colon or a bracket too many or too few.
        if r.random() < 0.4:
            s.add("odd", mutate(r, t, r.choice([1, 1, 2])))
            es = [r.choice(["a", "1", "b c", "{p: 1}", "[d]", '"s"']) for _ in range(n + 1)]
            es.insert(r.randrange(n + 2), r.choice(["", " ", "\n", ",", "p: 1", "e f", "* g"]))
            s.add("odd", r.choice(["[%s]", "{a: [%s]}", "f([%s])", "x = {p: %s}", "f {q: %s}"]) % ", ".join(es) + "\n")
    # In every construct that has lines of its own.
    ws = list(WRAP)
    for d in (1, 2):
        for path in itertools.product(ws, repeat=d):
            ind = " " * (sum(4 if w in ("class", "cm") else 2 for w in path))
            for m in ["var m =\n{i}  p: 1\n{i}  q: 2", "var m = {p: 1,\n{i}  q: 2}", "var m = p: 1, q: 2", "f [1,\n2]\n{i}f({p: [3]})", "m = {\n{i}  p: 1\n{i}  q: 2\n{i}}", "return p: 1\n{i}  q: 2"]:
                s.add("within", wrapped(path, m.replace("{i}", ind), "z\n"))
    expressions(s, r, two=times(300, 8000), three=times(300, 8000))
    expressions(s, r, two=times(500, 8000), three=times(500, 8000), kinds=EXPRS[::4] + ["[a, b, nil]", "[nil]", "{p: nil, q: [a]}", "{p: fun() {}}"], holes=[h for h in HOLES if "[" in h or "{" in h], family="entries")
    programs(s, "C10", times(300, 8000), maps=4, arrays=4, depth=3)
    named(s, r, ones=times(4, 60))
    named(s, r, places=[p for p in gens.NAMEPLACES if "{{n}" in p or "a: 1, {n}" in p or ": 1" in p])
    lists(s, r, times(900, 15000))
    pairs(s, r, times(300, 10000))
    inner(s, r, ["array", "map", "mapl", "mapdup"], times([3, 9, 17, 256], [3, 9, 17, 64, 128, 256, 300]), each=times(6, 40))
    scaled(s, ["array", "array,", "map", "mapl", "mapdup", "mapdup2"], sizes() + [400])
    scaled(s, ["brackets", "maps"], depths())
    named(s, rng(SEED, "C09", "named"), ones=times(6, 60))
    conform(check, s, {"verdict", "ast", "causes"})


# ------------------------------------------------------------------ statements

def c11(check):
    s = Suite()
    s.grid("dangling", [["if (a)", "if (a) if (b)", "while (w) if (b)", "if (a)\n  if (b)"], [" x\n", "\n    x\n", " {}", " {x\n}", "\n    x\n    y\n", " {}\n"],
                        ["", "else", "  else"], ["", " y\n", "\n    y\n", " if (c) z\n", " {}", "\n  {}\n"], ["", "else", "  else"], [" v\n", "\n    v\n", ""], ["q\n"]])
    s.grid("for", [["for ("], ["", "var i", "var i = 0", "i = 0", "i", "f 1", "1"], [";"], ["", " i < 3", " c"], [";"], ["", " i = i + 1", " f(i)"], [")"],
                   [" b\n", "\n  b\n", "\n  b\n  c\n", " {}", " {\nb\n}", " break\n"], ["d\n"]])
    s.grid("while", [["while (", "while(", "while  ("], ["a", "a = b", "f 1", "true"], [")"], [" b\n", "\n  b\n", "\n  b\n  continue\n", " {}", "{}", "\n  while (c)\n    d\n", " if (c) d\n", "\nb\n", ""], ["d\n"]])
    s.grid("bodies", [["fun f()", "fun f(a)", "fun init(a, b)", "x = fun()", "var x = fun(a)", "fun  f ( )"], ["\n  a\n", "\n  a\n  return b\n", " {}", " {\na\n}", "{}", "\n  fun g()\n    1\n  g()\n", " a\n", "\n"], ["", "\n", "b\n", "\nb\n"]])
    m = ["init(a)\n", "class init(a)\n", "m()\n", "class m()\n", "Init()\n", "class class()\n", "fun m()\n", "var x\n", "init_()\n"]
    s.grid("class", [["class A", "class A < B", "class A<B", "class A <", "class A < 1"], ["\n"], ["  "], m, ["    x\n"], [""] + ["  " + x + "    return y\n" for x in m], ["", "z\n"]])
    s.grid("class-brace", [["class A {", "class A < B {"], ["", "m() {}", "init() {} m() {}", "class m() {}", "\nm() {}\n", "m() {\nreturn 1\n}"], ["}"], ["", "\n", "x\n"]])
    s.grid("simple", [["var x", "var x =", "print", "return", "break", "continue", "{", "}", "x", "fun", "class", "var", "var x = y =", "return x,", "print x,"],
                      ["", " 1", " nil", " a b", " {}", " {a: 1}", "\n  1", "\n  a: 1\n", " ;"], ["\n", "", "\n\n", ";"], ["", "z\n"]])
    s.grid("vardecl", [["var x", "var  init"], [" =", "=", " ==", ""], [" ", "\n", "\n  ", " \\\n "], ["1", "{a: 1}", "a: 1", "[1]", "f 1", "fun() {}", "a = 1", "nil", "this", ""], ["\n", "", "\n\n", " \n"], ["z\n", ""]])
    r = rng(SEED, "C11")
    for _ in range(times(700, 25000)):
        g = Gen(r, ops=0.5, maps=0.3, calls=1, juxta=0.5, arrays=0.3, lambdas=0.5, ifs=4, loops=3, funs=3, classes=2)
        s.add("program", g.program(n=r.choice([1, 1, 2]), d=r.choice([2, 3, 3])))
    statements(s, r, two=times(1500, 25000))
    expressions(s, r, two=times(200, 4000), three=times(200, 4000))
    # Classes of many methods, and much else of many parts.
    for _ in range(times(250, 5000)):
        head = r.choice(["class A", "class A < B", "class init < init", "fun f()\n  class A < B"])
        i = "    " if head.startswith("fun") else "  "
        ms = []
        for _ in range(r.randrange(0, 12)):
            ms.append("%s%s%s(%s)\n%s  %s\n" % (i, r.choice(["", "", "class "]), r.choice(["init", "init", "m", "n", "k1", "toString", "A", "_init", "Init"]), ", ".join("abcdefgh"[:r.choice([0, 1, 2, 5, 8])]),
                                               i, r.choice(["x", "return", "nil", "return nil", "print a\n" + i + "  y", "var b", "fun g()\n" + i + "    z", "class C\n" + i + "    m()\n" + i + "      w", "{}"])))
        s.add("manymethods", head + "\n" + "".join(ms) + r.choice(["", "z\n", "class B\n  init()\n    1\n"]))
    named(s, r, ones=times(18, 60))
    pairs(s, r, times(500, 20000))
    lists(s, r, times(400, 10000))
    inner(s, r, ["methods", "elseifs", "stmts", "blockstmts"], [3, 9, 17, 33], each=times(8, 40))
    programs(s, "C11", times(400, 10000), family="braces", blocks=5)
    scaled(s, ["stmts", "blockstmts", "methods", "elseifs"], times([1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129, 255, 256, 300], sizes()))
    scaled(s, ["whiles", "fors", "ifs", "ifs1", "funs", "classes", "blocks", "braces"], depths())
    tails(s, r, times([8, 20, 64, 65, 128, 256, 300], [8, 20, 64, 65, 100, 128, 256, 300, 1000]), each=times(25, None))
    conform(check, s, {"verdict", "ast", "msgs"})


WRAP = {  # name: (lines before, indentation step of the rest)
    "while": ["while (a)"], "for": ["for (;;)"], "forv": ["for (var i = 0; i; i = 1)"], "fun": ["fun f()"], "if": ["if (a)"],
    "else": ["if (a)", "  b", "else"], "class": ["class A", "  m()"], "cm": ["class A < B", "  class init(x)"],
}


def wrapped(path, stmt, after=""):
    """stmt inside the constructs of a path."""
    out, ind = [], 0
    for w in path:
        for i, l in enumerate(WRAP[w]):
            out.append(" " * ind + l)
        ind += 4 if w in ("class", "cm") else 2
    return "\n".join(out + [" " * ind + stmt]) + "\n" + after


def c12(check):
    s = Suite()
    ws = list(WRAP)
    for d in range(0, times(4, 5)):
        for path in itertools.product(ws if d < 3 else ["while", "for", "fun", "if", "class"], repeat=d):
            for j in (["break", "continue"] if d < 3 else [["break", "continue"][len(path) % 2]]):
                s.add("nest%d" % d, wrapped(path, j, "" if d > 1 else "z\n"))
    # Before, in and after; one-line bodies; braces; lambdas; recovery from errors.
    jumps = ["break\n", "continue\n"]
    s.grid("lines", [["while (a) ", "for (;;) ", "if (a) ", "while (a) if (b) ", "if (a) while (b) ", "while (a) {\n", "{\n", "while (a)\n  if (b) c\n  else ", "fun f() {\n",
                      "while (a)\n  b\n", "while (a) b\n", "while (a)\n  fun f()\n    b\n  ", "for (var i = fun() {\nbreak\n}; ; ) ", "while (fun() {\nbreak\n}) ",
                      "while (a)\n  x = fun() {\n  b\n  }\n  ", "while (a) f(fun() {\n", "x = fun() {\nwhile (b) ", "while (a)\n  class A\n    m()\n      b\n  ",
                      "while (a)\n  while (b)\n    c\n  ", "while (a)\n  for (;;) c\n", "while (", "for (;break;) ", "fun f()\n  while (a)\n    b\n  "],
                     jumps, ["", "}\n", "})\n"], [""] + jumps])
    bad = ["while (a) )\n", "while (a)\n  )\n", "for (;;) 1 = 2\n", "while )\n", "while (a)\nb\n", "for (;;)\n  fun 1\n", "while (a) {\n )\n", "while (a)\n  while (b) )\n", "fun f()\n  while (a) )\n",
           "for (;; )\n", "for (;; 1 + )\n", "for (; ) ; )\n", "for (var i = ); ; )\n", "while (a + )\n", "while (a) b )\n", "for (;; fun() {)) x\n",
           "while (a)\n  break 1\n", "while (a) break\n", "class A\n  while\n", "while (a) while (b) while (c) )\n", "while (a)\n  fun f()\n    while (b)\n      )\n", "if (a) break\n",
           "for (var i = )\n", "while (a)\n  x = fun() {\n  )\n"]
    s.grid("recover", [bad, bad, ["var x = 1\n", "print 1\n", "", "fun f()\n  1\n", "while (a) b\n"], ["break\n", "print 2\nbreak\n", "if (a)\n  continue\n", "while (a)\n  break\n", "fun f()\n  break\n"]])
    s.grid("mixed", [["while (a)\n", "fun f()\n", "for (;;)\n"], ["  while (b)\n    c\n", "  fun g()\n    c\n", "  x\n", "  for (;;) break\n", "  if (b) break\n", "  var v = fun() {}\n", "  class A\n    m()\n      while (c) break\n"],
                     ["  break\n", "  if (c)\n    continue\n", "  if (c) x\n  else break\n", "  y\n", "  fun h()\n    continue\n"], ["break\n", "z\n", "while (d)\n  break\n", "if (d) continue\n", "fun k()\n  while (e) break\n"]])
    r = rng(SEED, "C12")
    for _ in range(times(500, 20000)):
        g = Gen(r, loops=4, funs=2, jumps=5, ops=0.2, maps=0, calls=0.5, juxta=0.2, arrays=0.1, lambdas=0.2, vars=0.5)
        t = g.program(n=r.choice([1, 2]), d=r.choice([2, 3, 4]))
        # Jumps in the wrong places, too.
        if r.random() < 0.5:
            ls = t.split("\n")
            i = r.randrange(len(ls))
            ls.insert(i, re.match(" *", ls[i]).group() + r.choice(["break", "continue"]))
            t = "\n".join(ls)
        s.add("program", t)
    js = ["break", "continue", "b\nbreak", "continue\nb", "break\ncontinue", "b", "if (a) break", "if (a) b\nelse continue", "{break}", "fun h()\n  break", "while (c)\n  d", "for (;;) d", "while (c) break",
          "x = fun() {\nbreak\n}", "fun h()\n  while (c)\n    continue\nbreak", "while (c) )", "fun h()\n  )\nbreak", "class C\n  m()\n    continue", "for (var i = 0; i < 9; i = i + 1)\n  b\ncontinue", "f(1\nbreak", "var v = fun() {}\nbreak", ")\nprint 1\nbreak"]
    statements(s, r, two=times(2000, 30000), kinds=js)
    loops = [b for b in gens.BODIES if "while" in b or "for" in b]
    statements(s, r, two=times(800, 15000), kinds=js, bodies=loops, ones=0, family="loops")
    deeply(s, r, times(500, 10000), 0.15)
    scaled(s, ["whiles", "fors", "loopfun", "loopfun2", "loopsfun", "loopslam"], depths() + [90, 100])
    for n in [1, 2, 3, 10, 100, 254, 255, 256, 257, 300]:
        s.add("many", "while (a) b\n" * n + "break\n", coarse=True)
        s.add("many", "while (a) )\n" * n + "print 1\nbreak\n", coarse=True)
        s.add("many", "while (a)\n" + "  while (b) c\n" * n + "  break\n", coarse=True)
        s.add("many", "while (a)\n" + "  fun f()\n    b\n" * n + "  break\n", coarse=True)

    def jumps_of(res, expected, case):
        if res["by"] in ("panic", "crash", "hang"):
            return {"died": res["by"]}
        return {"accepted": res["by"] == "",
                "jumps": [[e["l"], e["m"]] for e in res["errs"] if "outside of loop" in e["m"]],
                "others": len([e for e in res["errs"] if "outside of loop" not in e["m"]])}
    programs(s, "C12", times(400, 10000), family="braces", blocks=5, loops=4, jumps=5, ops=0.2, lambdas=1)
    tails(s, r, times([8, 64, 200, 300], [8, 20, 64, 65, 100, 128, 256, 300, 1000]), ["break", "continue", "while (a)\n  break", "if (a) break", "fun f()\n  continue", "{break}", "while (a) b\nbreak"])
    conform(check, s, None, project_fn=jumps_of)


# ------------------------------------------------------------------ scoping

SC = dict(names=["a", "b", "c"], locals_fresh=0.15, ops=1, maps=0.4, arrays=0.5, calls=1.5, juxta=1, lambdas=1.5, assign=2,
          vars=5, jumps=0.3, strings=0.1)


def scope_grid(s, prop):
    """Two-level programs over two names: where declared, where used."""
    decl = ["", "var a = 1\n", "fun a()\n  b\n", "class a\n  m()\n    1\n"]
    inner = ["", "  var a = 2\n", "  fun a(b)\n    a = b\n", "  var b = a\n", "  a = 3\n"]
    use = ["  a\n", "  b = a\n", "  print a + b\n"]
    s.grid("scopes", [decl, ["while (c)\n", "fun f()\n", "fun f(a)\n", "fun f(b, c)\n", "if (c)\n"], inner, use, inner, ["", "a\n", "var a\na\n"]])
    s.grid("deep", [["", "var a\n"], ["fun f(b)\n"], ["", "  var a\n"], ["  while (b)\n"], ["", "    var a\n", "    var b = a\n"],
                    ["    fun g(a)\n", "    fun g(c)\n", "    if (a)\n", "    class g\n     m(c)\n"], ["      a = b + c\n", "      var a = b\n      a\n", "      f = a\n", "      fun h()\n       a = b\n", "      g\n", "      this\n"],
                    ["", "    a\n", "    c = a\n"], ["", "  a\n"], ["a\nb\n"]])


def c13(check):
    s = Suite()
    scope_grid(s, "C13")
    body = ["this", "super.x", "this.a = super.b", "a", "fun(a) {\n      return this + a\n      }", "fun() {\n      super.x\n      }"]
    s.grid("classes", [["class A\n", "class A < B\n", "class B\n"], ["  init(a)\n", "  class a()\n", "  m(A)\n"], ["      x = "], body, ["\n"],
                       ["", "      while (c)\n        y = "], ["this\n", "a\n", "A\n"], ["", "  n()\n      this = "[:9] + "this\n", "  n()\n      class C < A\n        p()\n          super.q(this)\n"]])
    s.grid("forloops", [["var i\n", ""], ["for (var i = 0;", "for (i = 0;", "for (;", "for (var j = i;"], [" i;", " j;"], [" i = i)", ")", " j = i)"], [" i\n", "\n  i\n", "\n  var i\n  i\n", "\n  var j = i\n  fun f()\n    j = i\n"], ["i\n", "j = i\n"]])
    r = rng(SEED, "C13")
    for _ in range(times(900, 30000)):
        g = Gen(r, **dict(SC, names=r.choice([["a"], ["a", "b"], ["a", "b", "c"], list("abcdefgh")]),
                         this=1, supers=0.7, classes=1.5))
        s.add("program", g.program(n=r.choice([1, 1, 2]), d=r.choice([2, 3, 4])))
    deeply(s, r, times(900, 25000), 0.01)
    scaled(s, ["mapv", "arrayv", "stmtsv", "methodsv", "chainv", "orv", "plusv", "elsesv", "paramsx", "mparams", "args"], times([1, 2, 9, 17, 33, 64, 100, 128, 254, 255, 256, 257, 300], sizes()))
    for t in contexts(r, two=times(500, 12000)):
        s.add("context", renamed(r, t, r.choice([["a", "b"], ["a", "b", "c", "d"], list("abcdefghxyz")])) if r.random() < 0.7 else t)
    scaled(s, ["whiles", "fors", "funs", "classes", "blocks", "locals", "siblings", "globals", "globuses"], times([1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 65, 80], depths()))
    for d in times([2, 3, 5, 10, 30, 60, 90], list(range(2, 128, 3))):
        for k, last in itertools.product(["fun", "while"], ["x0", "x%d" % (d - 1), "x%d" % (d // 2), "g = x1", "x0 = x1"]):
            t = "".join(" " * i + ("fun f%d(p)\n" % i if k == "fun" else "while (c)\n") + " " * (i + 1) + "var x%d\n" % i for i in range(d)) + " " * d + last + "\n"
            s.add("far", t, coarse=True)
    # Distances that do not fit in a byte.
    for d in times([127, 128, 254, 255, 256, 257, 300], [127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513]):
        heads = "".join(" " * i + "fun f%d(p%d)\n" % (i, i) for i in range(d))
        for last in ["p0 + p1 + p%d" % (d - 1), "p1 = g = p%d" % (d // 2), "fun() {\n" + " " * d + "p0 = f0 + f1\n" + " " * d + "}"]:
            s.add("far", heads + " " * d + last + "\n", coarse=True)
        if d < 400:
            t = "".join(" " * (2 * i) + "class A%d < A%d\n" % (i, i // 2 + 1000) + " " * (2 * i + 1) + "m(a%d)\n" % i for i in range(d // 3 + 1))
            s.add("far", t + " " * (2 * (d // 3 + 1)) + "super.m(this, a0, a1, A0, A1)\n", coarse=True)
    pairs(s, r, times(2500, 40000))
    lists(s, r, times(300, 6000))
    programs(s, "C13", times(300, 10000), family="braces", blocks=4, **SC)
    named(s, r, ones=times(12, 60))
    conform(check, s, {"accept", "bind"})


def c14(check):
    s = Suite()
    scope_grid(s, "C14")
    # Orders of first declaration and use of globals.
    g = ["var a\n", "b\n", "b = a\n", "var b = c\n", "fun c()\n  d = a\n", "var a = a\n", "class d\n  m()\n    e\n", "while (a)\n  var a = e\n"]
    s.grid("globals", [g] * times(4, 5) + [["a = b + c + d + e\n"]])
    l = ["  var a\n", "  var b = a\n", "  fun c()\n    a\n", "  class d < b\n    m(x)\n      x = b\n", "  x = y\n", "  while (a)\n    var a = b\n    var b = a\n", "  var e = fun(a) {\n  a = b\n  }\n"]
    s.grid("locals", [["fun f(p, q)\n", "while (p)\n"]] + [l] * 3 + [["  a = b = c = d = p = q = x = y\n"]])
    keys = ["locals", "blocklocals", "globals", "globals2", "globuses", "globfuns", "globset", "localfuns", "localclasses", "parlocals", "params", "mparams", "siblings"]
    scaled(s, keys, times([1, 2, 3, 10, 100, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300], sizes() + [400, 510, 511, 512, 513, 514]))
    for n in [253, 254, 255, 256, 257]:
        ns = gens.names(n)
        v = "".join("var %s\n" % x for x in ns)
        u = "".join("%s\n" % x for x in ns)
        for t in (v + "n0 = n1\nvar n0\n", v + "fun n3()\n  n0\n", v + "fun f()\n  q\n", u + v, v + u, v + "x\ny\nvar n5 = n6\n",
                  "fun f()\n" + "".join("  %s\n" % x for x in ns) + "  q\n", v + "class n1 < n2\n  n3()\n    n4 = q\n",
                  "class A\n" + "".join("  m%d()\n    n%d\n" % (i, i) for i in range(n)) + "  m()\n    A\n",
                  "fun f(%s)\n" % ", ".join(ns[:255]) + "  var k\n" * (n > 255) + "  n0 = n%d\n" % (min(n, 255) - 1),
                  "fun f(%s)\n" % ", ".join(ns[:100]) + "".join("  fun %s()\n    1\n" % x for x in ns[100:]) + "  n100\n",
                  "while (a)\n" + "".join("  var %s\n" % x for x in ns) + "  while (b)\n    var n0 = n%d\n    var z\n  var n1\n" % (n - 1),
                  v + "var zz = fun() {\nzz\n}\n"):
            s.add("limit", t, coarse=True)
    r = rng(SEED, "C14")
    for _ in range(times(700, 20000)):
        s.add("program", Gen(r, **dict(SC, names=list("abcdefghij"))).program(n=r.choice([1, 2, 3]), d=r.choice([2, 3])))
    deeply(s, r, times(400, 12000), 0.02)
    for t in r.sample(contexts(r), times(1200, 5500)):
        s.add("context", renamed(r, t, r.choice([["a", "b", "c"], list("abcdefghxyz")])))
    named(s, r, ones=times(6, 60))
    inner(s, r, ["params", "mparams", "locals", "blocklocals", "globals"], times([10, 255, 256], [10, 254, 255, 256, 257]), each=times(5, 40))
    programs(s, "C14", times(300, 10000), family="braces", blocks=4, **SC)
    named(s, r, places=[p for p in gens.NAMEPLACES if "({n}" in p or "var {n}" in p or "fun {n}" in p or "class {n}" in p], ones=times(6, None))

    def slots(res, expected, case):
        if res["by"] in ("panic", "crash", "hang"):
            return {"died": res["by"]}
        return {"accepted": res["by"] == "", "slots": sorted([b[:4] + b[5:] for b in res["bind"]]),
                "changed": res.get("changed"),
                "full": [[e["l"], e["c"], e["t"]] for e in res["errs"] if e["m"].startswith("Too many")]}
    conform(check, s, None, project_fn=slots)


def c15(check):
    s = Suite()
    d = ["var a\n", "var a = 1\n", "var a = a\n", "fun a()\n{i}  1\n", "fun a(a)\n{i}  a\n", "class a\n{i}  m()\n{i}    a\n", "a\n", "a = 1\n", "var b = a\n", "var a = b\n", "var a = fun() {\n{i}a\n{i}}\n", "while (c)\n{i}  var a = a\n"]
    for i, heads in (("", [""]), ("  ", ["while (c)\n", "fun f()\n", "fun f(a)\n", "fun f(b, a)\n", "if (c)\n", "var a\nfun f()\n", "for (var a = 0; ; )\n", "class C\n m(a)\n"])):
        dd = [i + x.replace("{i}", i) for x in d]
        s.grid("pairs" + str(len(i)), [heads, dd, dd, [i + "a\n"] + ([i + "z\n"] if i else [])])
    init = ["a", "a + 1", "f(a)", "[a]", "{a: a}", "{a: 1}", "(a)", "b.a", "a.b", "a = 1", "a[0]", "b = a", "fun() {\n{i}a\n{i}}", "fun(a) {\n{i}a\n{i}}", "f(fun() {\n{i}return a\n{i}})", "-a",
            "b or a", "a or b", "fun() {\n{i}var a = a\n{i}}", "a()", "f a", "b[a]", "b.c = a", "b[a] = 1", "(a = 2) + 1", "(a = b) + a", "nil", "fun() {\n{i}a = 1\n{i}}", "fun(b) {\n{i}var a\n{i}a\n{i}}"]
    for i, heads in (("", ["", "a\n", "var a\n", "fun a()\n  1\n", "a = 1\n"]),
                     ("  ", ["fun f()\n", "while (c)\n", "var a\nwhile (c)\n", "fun f()\n  while (c)\n    var a\n", "class C\n m()\n"])):
        s.grid("self" + str(len(i)), [heads, [i + "var a = "], [x.replace("{i}", i) for x in init], ["\n"], [i + "a\n", i + "var a = a\n", ""]])
    s.grid("forself", [["", "var i\n"], ["for (var i = "], ["i", "1", "fun() {\ni\n}", "j"], ["; i; i = i)"], [" i\n", "\n  var i = i\n", "\n  var i\n  i\n", "\n  var j = i\n  var j\n"], ["var i = i\n", ""]])
    s.grid("params", [["fun f(", "x = fun(", "class A\n  m("], ["a", "a, b", "a, a", "a, b, a", "a, b, b", "b, c, a"], [")"], ["\n    var a\n", "\n    fun a()\n      1\n", "\n    while (a)\n      var a\n", "\n    b\n", "\n    class a\n      m()\n        1\n", " {}\n", "\n    var b = b\n"]])
    s.grid("after", [["var x = x\n", "fun f()\n  var a = a\n", "fun f(a, a)\n  1\n", "while (c)\n  var a\n  var a\n", "var y = [y]\n", "class A\n  m(p, p)\n    1\n", "fun f()\n  var a = fun() {\n  var b = b\n  }\n"],
                     ["var x\nx\n", "x\n", "var x = x\n", "fun f(a)\n  a\n", "y = x\n", "var y = y\n", "print f\n", "A\n"], ["x = 1\n", "var a = a\n", "fun g()\n  var a\n  a\n", "var x = x\n"]])
    r = rng(SEED, "C15")
    for _ in range(times(700, 25000)):
        s.add("program", Gen(r, **dict(SC, names=r.choice([["a", "b"], ["a", "b", "c", "d"], list("abcdefghij")]), locals_fresh=r.choice([0, 0.5]), vars=9)).program(n=r.choice([1, 2, 3]), d=r.choice([2, 3])))
    deeply(s, r, times(700, 20000), 0.35)
    # Errors far to the right and far down.
    for n in (28, 40, 64, 130, 260):
        for t in d + ["fun b(c, {p}c)\n{i}  1\n", "class a < a\n{i}  m()\n{i}    1\n"]:
            for u in ("var a = 1\n", "fun a(a)\n{i}  1\n", "class a\n{i}  m()\n{i}    1\n"):
                i = " " * n
                s.add("right", "while (c)\n" + i + t.replace("{i}", i).replace("{p}", i) + i + u.replace("{i}", i), coarse=True)
                s.add("down", "\n" * n + "fun f()\n  " + t.replace("{i}", "  ").replace("{p}", "") + "\n" * (n // 2) + "  " + u.replace("{i}", "  "), coarse=True)
    for t in r.sample(contexts(r), times(2000, 5500)):
        t = renamed(r, t, r.choice([["a", "b"], ["a", "b", "c", "d"], list("abcdefghxyz")]))
        s.add("context", t if r.random() < 0.3 else within(r.choice(["fun f(a)\n  {s}\n", "while (c)\n  {s}\n", "fun f()\n  var b\n  {s}\n", "{s}\nvar a = a\n", "class C\n  m(b)\n    {s}\n"]), t.rstrip("\n")))
    # Its own name in every place of an initializer.
    for _ in range(2):
        expressions(s, r, two=times(400, 9000), three=times(200, 4000), kinds=["v", "v.p", "f(v)", "v = 1", "fun() {\nv\n}", "fun(v) {\nv\n}", "a"], lines=["var v = {e}\n", "while (c)\n  var v = {e}\n", "var v\nvar v = {e}\n", "fun f(a)\n  var v = {e}\n  v\n", "var v\nfun f()\n  var v = {e}\n",
                    "v = {e}\n", "for (var v = {e}; ; ) z\n"], ones=0.5, family="own")
    scaled(s, ["locals", "localfuns", "blocklocals"], [3, 100, 200, 254])
    for n in [1, 2, 10, 50, 100, 200, 250, 254]:
        ns = gens.names(n)
        for k in {0, n // 2, n - 1}:
            s.add("manylocals", "fun f()\n" + "".join("  var %s\n" % x for x in ns) + "  var n%d\n" % k, coarse=True)
            s.add("manyparams", "fun f(%s, n%d)\n  1\n" % (", ".join(ns), k), coarse=True)
            s.add("manyglobals", "".join("var %s\n" % x for x in ns) + "var n%d = n%d\n" % (k, k), coarse=True)
    programs(s, "C15", times(400, 10000), family="braces", blocks=4, **SC)
    named(s, r, ones=times(12, 60))
    conform(check, s, {"accept", "errtoks", "msgs"})


def c16(check):
    s = Suite()
    C = {"fun": ["fun f()"], "while": ["while (c)"], "base": ["class A", "  m()"], "baseinit": ["class A", "  init()"], "basecinit": ["class A", "  class init()"],
         "sub": ["class A < B", "  m()"], "subinit": ["class A < B", "  init()"], "subc": ["class A < B", "  class k()"], "lam": ["x = fun() {"], "funinit": ["fun init()"],
         "for": ["for (;;)"]}
    stmts = ["this", "this.x = 1", "super.x", "x = super.x", "return", "return nil", "return 1", "return this", "return super.m", "return (nil)", "f(this)", "return x = this",
             "var y = super.z(1)", "this = 1", "x = fun() {\n{i}return 1\n{i}}", "x = fun() {\n{i}this\n{i}}", "x = fun() {\n{i}super.y\n{i}}", "return fun() {\n{i}return 2\n{i}}", "return false", "return {}", "return a", "return []", "return \"\""]

    def ctx(path, stmt):
        out, ind, close = [], 0, []
        for w in path:
            for l in C[w]:
                out.append(" " * ind + l)
            if w == "lam":
                close.append(" " * ind + "}")
            else:
                ind += 4 if "class" in C[w][0] else 2
        return "\n".join(out + [" " * ind + stmt.replace("{i}", " " * ind)] + close[::-1]) + "\n"
    keys = list(C)
    for d in range(0, 3):
        for path in itertools.product(keys, repeat=d):
            for st in (stmts if d < 2 else stmts[:9] + stmts[14:18]):
                s.add("context%d" % d, ctx(path, st) + ("z\n" if d < 2 else ""))
    if THOROUGH:
        for path in itertools.product([k for k in keys if k not in ("for", "funinit", "while")], repeat=3):
            for st in stmts[:8] + stmts[14:17]:
                s.add("context3", ctx(path, st))
    # The context ends with its construct, also after an error.
    first = ["class A\n  m()\n    1\n", "class A < B\n  m()\n    super.x\n", "fun f()\n  return 1\n", "class A\n  init()\n    return 1\n", "class A\n  m()\n    super.x\n", "fun f()\n  this\n", "class A < A\n  m()\n    this\n",
             "class A\n  m(a, a)\n    1\n", "fun f(a, a)\n  1\n", "class A < B\n  m()\n    class C\n      n()\n        super.x\n", "class A\n  m()\n    fun f()\n      return this\n", "class A\n  init()\n    fun f()\n      return 1\n    return\n"]
    second = ["this\n", "super.x\n", "return 1\n", "class D\n  m()\n    super.x\n", "class D\n  init()\n    return 1\n", "fun g()\n  return this\n", "fun g()\n  return 1\n", "class D < E\n  init()\n    x = fun() {\n    return super.y\n    }\n", "while (a)\n  return\n"]
    s.grid("seq", [first, second, second])
    s.grid("within", [["class A < B\n", "class A\n"], ["  m()\n", "  init()\n", "  class init()\n"], ["    class C\n      n()\n        1\n", "    class C < D\n      init()\n        super.y\n", "    fun g()\n      return 1\n", "    x = fun() {\n    return 2\n    }\n", "    1\n", "    class C < C\n      n()\n        1\n"],
                      ["    super.x\n", "    this\n", "    return 1\n", "    return\n", "    x = fun() {\n    return this\n    }\n"], ["", "  n()\n    return super.z\n", "  init(q)\n    return q\n"], ["", "this\n", "return\n"]])
    s.grid("inherit", [["class A < A\n", "class A < B\n", "class init < init\n", "class A < a\n", "fun f()\n  class A < A\n  ", "class A\n m()\n  class B < A\n  ", "class A\n m()\n  class A < A\n  "], ["  m()\n", "  init()\n"], ["     1\n", "     super.x\n", "     return 1\n", "     this\n"], ["A\n", "this\n"]])
    r = rng(SEED, "C16")
    for _ in range(times(500, 20000)):
        g = Gen(r, **dict(SC, this=2, supers=1, classes=5, returns=3, funs=3))
        t = g.program(n=r.choice([1, 2]), d=r.choice([3, 4]))
        if r.random() < 0.6:
            ls = t.split("\n")
            i = r.randrange(len(ls))
            ls.insert(i, re.match(" *", ls[i]).group() + r.choice(["this", "super.x", "return 1", "return", "print this", "return super.y"]))
            t = "\n".join(ls)
        s.add("program", t)
    ks = ["this", "super.m", "return", "return nil", "return a", "return this", "return super.m", "this.x = a", "x = this", "f(this, super.m)", "class A < A\n  m()\n    this", "fun init()\n  return 1", "print super.m",
          "return (nil)", "return fun() {\nreturn 1\n}", "class E\n  init()\n    return", "class E < F\n  m()\n    super.m\nsuper.m", "class E\n  m()\n    this\nthis", "fun g()\n  return 1\nreturn 2", "var v = this", "init = super.init"]
    statements(s, r, two=times(2000, 30000), kinds=ks)
    expressions(s, r, two=times(300, 8000), three=times(200, 4000), kinds=["this", "super.m", "this.x", "fun() {\nreturn this\n}", "a"])
    cls = [b for b in gens.BODIES if "class" in b or "fun" in b]
    statements(s, r, two=times(800, 15000), kinds=ks, bodies=cls, ones=0, family="nested")
    programs(s, "C16", times(400, 10000), family="braces", blocks=3, **dict(SC, this=2, supers=1, classes=4, returns=3))
    named(s, r, ones=times(4, 60))
    named(s, r, places=[p for p in gens.NAMEPLACES if "class" in p])
    tails(s, r, times([8, 64, 200, 300], [8, 20, 64, 65, 100, 128, 256, 300, 1000]), ["this", "super.m", "return", "return 1", "class A\n  m()\n    super.m", "class A\n  init()\n    return 1", "fun f()\n  return this", "class A < A\n  m()\n    this"])
    deeply(s, r, times(900, 20000), 0.3)
    scaled(s, ["classes", "methods"], depths()[:16])

    def ctxerrs(res, expected, case):
        if res["by"] in ("panic", "crash", "hang"):
            return {"died": res["by"]}
        o = {"accepted": res["by"] == "", "syntax": res["by"] in ("scan", "parse")}
        if res["by"] not in ("scan", "parse"):
            o["errs"] = [[e["l"], e["c"], e["t"], e["m"]] for e in res["errs"]]
        return o
    conform(check, s, None, project_fn=ctxerrs)


# ------------------------------------------------------------------ sessions

MENU = ["var a = 1\n", "var b\n", "a\n", "a + b", "c = a\n", "fun f(x) {}\n", "var f = fun(x) {\n", "f(a)\n", "var a = a\n", "var c = c\n", "class K {}", "a b: 1", "print a\n", "print a", ")\n", "@\n",
        "var d = [this]\n", "return 1\n", "{ var a = ", "while (a) b\n", "while (a) )\n", "break\n", "  a\n", "\n", "", "// c\n", "var e = fun(a, a) {}\n", "\"s", "e\n", "if (a) g = h\n", "var a = fun() {}\n",
        "var z = fun() { this }\n", "\\\n", "x = super.y\n", "var a = {a: b}\n", "class L < L { m() {} }", "q", "class M { init() {} m() {} }", "var 1\n", "a = b = e\r\n"]


def c17(check):
    s = Suite()
    s.grid("menu2", [MENU, MENU], mode="repl", kind="session")
    few = ["var a = 1\n", "b\n", "var c = [c]\n", "fun b() {}", "a = c", ")\n", "c\n", "var a = b\n", "while (a) )\n", "class K { m() {} }", "var b = fun(p, p) {}\n"]
    s.grid("menu3", [few] * 3, mode="repl", kind="session")
    if THOROUGH:
        s.grid("menu3t", [MENU] * 3, mode="repl", kind="session")
        s.grid("menu4", [few[:8]] * 4, mode="repl", kind="session")
    r = rng(SEED, "C17")
    for _ in range(times(250, 8000)):
        lines = []
        for _ in range(r.randrange(3, 12)):
            k = r.randrange(10)
            if k < 4:
                lines.append(r.choice(MENU))
            else:
                g = Gen(r, **dict(SC, names=list("abcdef"), locals_fresh=0.3))
                ctx = dict(ind=0, loop=False, fun=False, cls=False, sub=False, init=False)
                t = g.simple(ctx)
                lines.append(t + r.choice(["\n", "\n", "\r\n", ""]))
            if r.random() < 0.15:
                lines[-1] = mutate(r, lines[-1]) if lines[-1] else lines[-1]
        s.add("session", lines, mode="repl")
    # Nothing of a rejected line stays.
    broken = ["class K { m(a, a) {} }\n", "class K < B { m() {} init(a, a) {} }\n", "class L < L { m() {} n() {} }\n", "class L < L {} class M < M {}\n", "fun f(a, a) {} fun g(b, b) {}\n", "class K\n  m()\n    var x = x\n", "class K < B\n  m()\n    super.x\n  init()\n    return 1\n  n()\n    1\n",
              "fun f()\n  var x = [x]\n", "fun f()\n  while (a)\n    var b\n    var b\n", "while (a)\n  return 1\n", "while (a)\n  class A < B\n    m()\n      var q = q\n", "class A\n  m()\n    class B < C\n      init()\n        return super.x + q(fun(a, a) {})\n", "while (a)\n  while (b)\n    )\n",
              "for (;;)\n  x = fun() {\n  )\n", "var x = fun() {\nvar y = y\n}\n", "class A < B\n  m()\n    fun g()\n      return this + fun(p, p) {}\n", "if (a)\n  this\n", "fun f()\n  class A\n    m()\n      super.x\n", "while (a) f(fun() { while (b) ) })\n", "    a\n  b\n", "f(a, \\\n", "x = fun() {\nclass Q < Q {}\n",
              "class A { m() { fun f(a, a) {} } }", "{ class A < B { init() { class C < C {} } } }", "var a = 1", "f(\n", '"s', "class A < B { m() { { super.x", "for (;; ) ) ) {"]
    ask = ["return 1\n", "this\n", "super.x\n", "break\n", "var x = 1\n", "x", "var x = x\n", "fun f() {}\n", "class D < E { m() {} }", "class D { m() {} } ", "a\n", "var b = a\n", "  a\n", "{ continue\n", "y = q", "z\n", "fun g()\n  return this\n", "class D\n  m()\n    super.x\n", "while (a)\n  break\n", "exit\n", "quit\n", "q\n"]
    s.grid("after", [broken, ask], mode="repl", kind="session")
    for _ in range(times(150, 4000)):
        s.add("afters", [r.choice(broken + ask) for _ in range(r.randrange(3, 9))] + ["a = x + y\n"], mode="repl")
    for _ in range(times(100, 3000)):
        s.add("deepsession", [deep(r, r.choice([1, 2, 3, 5]), 0.2, list("abcd")) for _ in range(r.randrange(2, 5))] + r.sample(ask, 2), mode="repl")
    # Every kind of expression and statement as a line, some ending without a newline.
    cx = [t for t in contexts(r)]
    one = [t for t in cx if "\n" not in t[:-1]]
    for _ in range(times(350, 5000)):
        ts = [renamed(r, r.choice(one if r.random() < 0.8 else cx), list("abcde")) for _ in range(r.randrange(2, 6))]
        s.add("contexts", [t.rstrip("\n") if r.random() < 0.4 else t for t in ts], mode="repl")
    # Globals used and declared in any order, many of them.
    for _ in range(times(80, 3000)):
        ns = ["n%d" % i for i in range(r.choice([4, 12, 25, 40, 70]))]
        lines = []
        for _ in range(r.randrange(4, 30)):
            a, b = r.choice(ns), r.choice(ns)
            lines.append(r.choice(["%s + %s\n" % (a, b), "var %s = %s\n" % (a, b), "var %s\n" % a, "fun %s() {}" % a, "fun %s(p)\n  return %s + p\n" % (a, b), "%s = %s\n" % (a, b), "class %s {}" % a, "class %s < %s {}" % (a, b), "print %s\n" % a,
                                   "[%s]\n" % ", ".join(r.sample(ns, min(len(ns), r.choice([2, 5, 25])))), "var %s = fun() {\n%s\n}\n" % (a, b), "while (%s)\n  var %s = %s\n" % (a, b, a), "var %s = %s )\n" % (a, b), "%s = this\n" % a, "var %s = [%s, %s]\n" % (a, b, a)]))
        s.add("order", lines, mode="repl", coarse=True)
    # Multi-line pieces (the API takes any text) and long sessions.
    for _ in range(times(60, 2000)):
        s.add("pieces", [Gen(r, **SC).program(n=1, d=2) if r.random() < 0.7 else mutate(r, Gen(r, **SC).program(n=1, d=2)) for _ in range(r.randrange(2, 6))], mode="repl")
    for n in times([20, 100], [20, 100, 250]):
        s.add("longsession", ["var n%d = %d\n" % (i, i) if i % 3 else ("n%d + n%d" % (i, i // 2)) for i in range(n)], mode="repl", coarse=True)
        s.add("longsession", ["var n%d = n%d\n" % (i, i) if i % 2 else ")\n" for i in range(n)] + ["n1\n"], mode="repl", coarse=True)
    for n in [253, 254, 255, 256, 258]:
        s.add("full", ["var n%d\n" % i for i in range(n)] + ["n0", "n%d" % (n - 1), "var q\n", "q", "n5 = n6", "var n7\n", "fun n8() {}", "var r = fun(a) {}\n", "n9"], mode="repl", coarse=True)
        s.add("full", ["".join("var n%d\n" % i for i in range(n)), "n0", "zz", "var n1 = n2\n", "zy = n1", "n%d" % (n - 1)], mode="repl", coarse=True)
    exp, act = conform(check, s, {"verdict", "causes", "bind"})
    # A line is accepted iff a fresh session accepts it, but for the two exceptions.
    fresh = Suite()
    texts = {}
    for e in exp:
        if e["id"].startswith("full"):
            continue
        for l in e["lines"]:
            t = json.dumps(l)
            if t not in texts:
                texts[t] = "f%d" % len(texts)
                fresh.cases.append({"id": texts[t], "mode": "repl", "lines": [l]})
    fa = run_harness(build_harness(), fresh.cases, check.work)
    compared = 0
    for e in exp:
        a = act[e["id"]]
        if a.get("skip") or e["id"].startswith("full"):
            continue
        for l, x, y in zip(e["lines"], e["res"], a["res"]):
            f = fa[texts[json.dumps(l)]]
            if f.get("skip"):
                continue
            compared += 1
            alone, here = f["res"][0]["by"] == "", y["by"] == ""
            own = any("own initializer" in c["m"] for c in f["res"][0].get("errs", []))
            if alone != here and not (here and own) and not any(c["m"].startswith("Too many") for c in y.get("errs", [])):
                check.violation({k: e[k] for k in ("id", "mode", "lines")},
                                "%r is %s in a fresh session but not after these lines" % (show(l), "accepted" if alone else "rejected"))
    check.coverage["lines_compared_with_fresh_session"] = compared


# ------------------------------------------------------------------ verdicts

def c21(check):
    s = Suite()
    r = rng(SEED, "C21")
    bad = ["print )\n", "var 1\n", "1 = 2\n", "class 1\n", "fun f(\n", "if a\n", "a b )\n", "f(1\n", "{a: 1}\n", "while (a)\nb\n", "return\n", "for (;)\n", "var x = fun g() {}\n", ") print\n", "x = {a: 1, a: 2}\n", "break\n", "class A\n  1\n", "else\n", "a.1\n", "a[\n", "super\n", "class A\n  m()\n    )\n  n()\n    1\n"]
    good = ["a\n", "print 1\n", "var x = 1\n", "fun f()\n  1\n", "if (a)\n  b\n", "class A\n  m()\n    1\n", "while (a) b\n", "return 1\n", "\n"]
    s.grid("syntax2", [bad, good, bad, good[:4]])
    s.grid("syntax3", [bad, bad, bad[:8]])
    scan = ["a @\n", "\t\n", "\\ x\n", '"s', "  a\n b\n", "😀\n", "a # $ %\n", "print )\n", "var x = x\n", "a\n", "if (a)\n    b\n  c\n", "x = '\n", " a\n", "// @\n", '"@"\n', "\\"]
    s.grid("scan", [scan, scan, scan])
    res = ["return 1\n", "this\n", "super.x\n", "fun f()\n  var a\n  var a\n  this\n", "fun f()\n  var a = a\n  return 1\n", "class A < A\n  m()\n    super.x\n", "var ok = 1\n", "x\n", "if (a)\n  return this\n  this\n",
           "class A\n  m()\n    super.x\n  init()\n    return 1\n", "f(this, super.x)\n", "var y = y + this\n", "fun f(a, a)\n  this\n", "return this\n", "while (this) return\n", "var z = fun() {\nvar q = q\nthis\n}\n", "class B\n  m()\n    return 1\n"]
    s.grid("resolve", [res, res, res[:6] + ["ok\n"]])
    s.grid("resolve-one", [res, ["", "var v = v\n"], ["", "v\n"], res])
    for _ in range(times(900, 30000)):
        t = Gen(r).program(n=r.choice([2, 3, 4]), d=1)
        s.add("mutated", mutate(r, t, r.choice([1, 1, 2, 2, 3, 5])))
    for _ in range(times(300, 10000)):
        s.add("soup", gens.soup(r, r.randrange(3, 16)))
    for _ in range(times(300, 10000)):
        n = r.randrange(2, 8)
        s.add("mixed", "".join(r.choice([r.choice(bad), r.choice(good), r.choice(res), r.choice(good)]) for _ in range(n)))
    scaled(s, ["causes", "scancauses", "rescauses"], times([1, 2, 3, 5, 10, 50, 99, 100, 101, 128, 255, 256, 300], sizes() + [1000]))
    programs_ = [Gen(r, blocks=3).program(n=2) for _ in range(times(300, 8000))]
    for t in programs_:
        s.add("braces", mutate(r, t, r.choice([1, 1, 2, 3])))
    # Two errors of the kinds the resolver reports in one block, or in one statement.
    kinds = ["this", "print this", "var v = this", "x = super.y", "if (this)\n{i}  a", "if (a)\n{i}  this", "while (this)\n{i}  b", "for (this; ; ) c", "fun g(a, a)\n{i}  1", "class D < D\n{i}  m()\n{i}    1", "var w = w", "{\n{i}this\n{i}}b", "f(this)", "o[this] = super.z",
             "x = fun(q, q) {\n{i}}", "class E\n{i}  m()\n{i}    super.x", "class E\n{i}  init()\n{i}    return 1", "ok", "var u", "return this", "if (a)\n{i}  b\n{i}else\n{i}  this", "for (var j = this; ; ) c", "for (; ; this) c", "a or this", "[a, this]", "{p: this}", "this[super.x]", "fun h()\n{i}  super.y"]
    for i, heads in (("", [""]), ("  ", ["while (a)\n", "fun f()\n", "if (a)\n", "if (a)\n  b\nelse\n", "for (var i = 0; i; )\n"]), ("", ["{\n", "x = fun() {\n", "while (a) {\n"])):
        for h, a, b in itertools.product(heads, kinds, kinds):
            e = "}z\n" if h == "{\n" or h.startswith("while (a) {") else "}\n" if h.startswith("x =") else ""
            if Q and h and r.random() < 0.75:
                continue
            s.add("twice", h + i + a.replace("{i}", i) + "\n" + i + b.replace("{i}", i) + "\n" + e + r.choice(["", "", "return 1\n"]))
    toks = [t for t in TOKENS]
    for t in r.sample(contexts(r), times(1500, 5500)):
        if r.random() < 0.5:
            t = mutate(r, t, r.choice([1, 1, 2]))
        s.add("context", r.choice(["", "", "x\n", ")\n", "return 1\n"]) + t + r.choice(["", "", "print 1\n", "print )\n", "return 1\n", "fun f(a, a)\n  1\n"]))
    s.grid("two", [toks, [" "], toks, ["\n"], ["print 1\n)\n"]])
    if THOROUGH:
        s.grid("three", [toks, [" "], toks, [" "], toks, ["\n)\n"]])

    def hook(e, a):
        for x, y in zip(e["res"], a["res"]):
            if y["by"] == "scan" and y["errs"] != y.get("scan_errs"):
                check.violation({k: e[k] for k in ("id", "mode", "lines")}, "parsing reports other scanning errors than scanning")
    tails(s, r, times([8, 20, 64, 100, 256, 300], [8, 20, 64, 65, 100, 128, 256, 300, 1000]), each=times(25, None))
    for n in [254, 255, 256, 257]:
        for a, b in itertools.product(["x\n", "var y = z\n", "fun f()\n  q\n  this\n", ""], ["this\n", "return 1\nsuper.x\n", "var v = v\n", "w\nu\nreturn 1\n", "fun g(a, a)\n  1\n", ")\n", "var n1 = n2\nthis\n"]):
            s.add("limit", "".join("n%d\n" % i for i in range(n)) + a + b, coarse=True)
            s.add("limit", "fun h()\n" + "".join("  var n%d\n" % i for i in range(n)) + "  this\n" + a + b, coarse=True)
    conform(check, s, {"verdict", "causes"}, actual_hook=hook)


# ------------------------------------------------------------------ totality

def totality_grids():
    toks = TOKENS + ["@", "//", "\\", '"']
    sp = ["", " "]
    small = ["(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "!", "=", "a", "1", '"s"', "\n", "\n  ", "\n ", "\\", "//"]
    kws = ["and", "break", "class", "else", "for", "fun", "if", "nil", "print", "return", "super", "this", "var", "while"]
    mix = small + kws
    chars = ["a", "1", ".", " ", "\n", "\r\n", "\r", "\\", "/", '"', "(", "=", "\t", "@", "é", "\u0301", "😀", "\u0000", "\u200d", "٣"]
    heads = ["if (a)", "while (a)", "for (;;)", "fun f()", "class A", "class A < B", "x = fun()", "else", "var m =", "f(", "a +", "a", "{", "init()", "class m()", ")"]
    ind = ["", " ", "  ", "   ", "    "]
    g = [("pairs", [toks, sp + ["\n", "\n  "], toks, ["", "\n"]]),
         ("triples", [mix, sp, mix, sp, mix, ["", "\n"]]),
         ("chars", [chars] * times(4, 5)),
         ("indents", [ind, heads, ["\n", " b\n"], ind, heads, ["\n", " b\n"], ind, ["c\n", "", "break\n", ")"]]),
         ("contexts", [["", "fun f()\n  ", "while (a)\n  ", "class A\n  m()\n    ", "class A < B\n  init()\n    ", "for (var i = 0; i; i = 1)\n  "],
                       ["this", "super", "return", "break", "var a =", "a =", "fun a(", "x.", "a["], sp, mix + [""], ["", " ", "\n    "], ["a", ")", ""], ["", "\n"]])]
    if THOROUGH:
        g += [("quads", [mix, [" "], mix, [" "], mix, [" "], mix, ["", "\n"]]),
              ("quads-tight", [small, small, small, small, small])]
    return [{"id": k, "slots": s} for k, s in g]


class Collected(Exception):
    pass


def inputs_of(*props):
    """The inputs of other checks, as grids of texts: all they ask, but whether
    there is a verdict is asked alone."""
    class Fake:
        work, coverage = tempfile.mkdtemp(), {}
    global conform, expected, THOROUGH, Q
    real = conform, expected, THOROUGH, Q
    THOROUGH, Q = False, True

    def collect(check, suite, *args, **kw):
        raise Collected(suite)
    grids, texts = [], set()
    try:
        conform = expected = collect
        for p in props:
            try:
                globals()[p](Fake)
            except Collected as e:
                suite = e.args[0]
                for g in suite.grids:
                    grids.append({"id": p + g["id"], "slots": [["".join(a) for a in s] for s in g["slots"]]})
                for c in suite.cases + suite.coarse:
                    for l in c["lines"]:
                        if sum(l["n"]) < 20000:
                            texts.add(text_of(l))
    finally:
        conform, expected, THOROUGH, Q = real
        shutil.rmtree(Fake.work)
    texts = sorted(texts)
    return grids + [{"id": "cases%d" % k, "slots": [texts[k::8]]} for k in range(8)]


COUNTED = ("whiles", "fors", "ifs", "funs", "classes", "blocks", "loopfun", "nots")


def c01(check):
    exe = build_harness()
    # Every small text, in every way to handle it: does a verdict come?
    gf = os.path.join(check.work, "grids.json")
    with open(gf, "w") as f:
        json.dump(totality_grids() + inputs_of("c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c20", "c21"), f)
    procs = []
    for i in range(CORES):
        o = os.path.join(check.work, "total%d" % i)
        procs.append((o, subprocess.Popen([exe, "total", gf, o, str(i), str(CORES)], preexec_fn=limited,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    # Meanwhile TLC: the specification always gets to a verdict (AllInv,
    # Progress), also on these, and the code must get to one, too.
    s = Suite()
    r = rng(SEED, "C01")
    for _ in range(times(500, 12000)):
        t = Gen(r).program(n=r.choice([1, 2, 3]))
        s.add("mutated", mutate(r, t, r.choice([1, 2, 3, 8])), mode=r.choice(["file", "file", "repl", "expr"]))
    for _ in range(times(500, 12000)):
        s.add("soup", gens.soup(r, r.randrange(1, 25)), mode=r.choice(["file", "repl", "expr"]))
    for _ in range(times(200, 5000)):
        s.add("layout", layout_texts(r))
        t = Gen(r).program(n=2)
        s.add("cut", t[:r.randrange(len(t))], mode=r.choice(["file", "file", "repl", "expr"]))
    for k in SCALED:
        scaled(s, [k], [1, 64, 256, 300] if Q else sizes() + [1000])
    for k in NESTED:
        scaled(s, [k], [2, 16, 65] if Q else depths())
    # Runs of one thing, longer than any counter.
    for k in COUNTED:
        scaled(s, [k], [] if Q else [254, 256, 300])
    for n in times([255, 256, 65535, 65536, 70000], [254, 255, 256, 257, 65534, 65535, 65536, 65537, 70000, 100000, 200000]):
        for c in [" ", "\n", "\r\n", "\r", "a", "1", ".", "/", "é", "\\", "@", "=", ":", ";", '"', "😀", "\t", "-", ","]:
            if n > 300 and c in '.=:;-,!@"\t\\':
                continue       # as many tokens or errors
            s.add("runs", [(c, n)], coarse=True)
            s.add("runs", ["a", (c, n), "b\n"], coarse=True)
            s.add("runs", ['x = "', (c, n)] + (['"\n'] if n % 2 else []), coarse=True)
            s.add("runs", ["if (a)\n  b\n", (c, n), "\n c"], coarse=True)

    def alive(res, expected, case):
        if res["by"] in ("panic", "crash", "hang"):
            return {"verdict": False, "died": res["by"], "msg": res.get("msg")}
        return {"verdict": True, "causes": "some" if (res["by"] != "") == (len(res["errs"]) > 0) else "wrong"}
    conform(check, s, None, exe=exe, project_fn=alive)
    # Texts the specification need not know: any Unicode, long ones, deep ones.
    texts = []
    ranges = [(1, 0x7f), (1, 0x7f), (0x80, 0x2ff), (0x300, 0x36f), (0x370, 0xfff), (0x1000, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x1ffff),
              (0x20000, 0x10ffff), (0x200b, 0x200f), (0x1f1e6, 0x1f1ff), (0x1100, 0x11ff), (0xfe00, 0xfe0f), (0x2028, 0x2029)]
    for _ in range(times(4000, 100000)):
        n = r.choice([1, 2, 3, 5, 10, 40])
        texts.append("".join(r.choice([lambda: chr(r.randint(*r.choice(ranges))), lambda: r.choice(gens.LEXEMES)])() for _ in range(n)))
    for k in times([3000], [3000, 20000, 100000]):
        r2 = rng(SEED, "long", k)
        texts.append(Gen(r2).program(n=k // 3, d=1))
        texts.append(gens.soup(r2, k))
        texts.append("".join(chr(r2.randint(*r2.choice(ranges))) for _ in range(k)))
        texts.append("\n".join(" " * r2.randrange(40) + "a" for _ in range(k // 3)))
        texts.append("while (a)\n  )\n" * (k // 3) + "break\n")
    # Nests deeper than any counter.
    for k in COUNTED:
        for n in [129, 254, 255, 256, 257, 300, 520] + times([], [1000]):
            texts.append(NESTED[k](n))
    texts += contexts(r, two=times(2000, 40000), three=times(2000, 40000))
    with open(gf, "w") as f:
        json.dump([{"id": "texts", "slots": [texts]}], f)
    o = os.path.join(check.work, "texts")
    procs.append((o, subprocess.Popen([exe, "total", gf, o, "0", "1"], preexec_fn=limited,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    runs = 0
    for o, p in procs:
        try:
            p.wait(timeout=700)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("enumeration takes too long")
        if p.returncode != 0:
            with open(o + ".at", "rb") as f:
                d = f.read()
            t = d[4:4 + int.from_bytes(d[:4], "little")].decode()
            check.violation({"id": "total", "mode": "any", "lines": [{"s": [t], "n": [1]}]},
                            "no verdict: exit status %d" % p.returncode)
            continue
        with open(o) as f:
            v = json.load(f)
        runs += v["runs"]
        for b in v["bad"]:
            check.violation({"id": "total", "mode": "any", "lines": [{"s": [b["text"]], "n": [1]}]}, b["how"])
    check.coverage["texts_tried_in_all_modes"] = runs
    # On the stack a program has by default: moderate nesting works, and what
    # does not is recorded.
    f1 = os.path.join(check.work, "one")

    def one(text, mode="file"):
        with open(f1, "w", newline="") as f:
            f.write(text)
        try:
            return subprocess.run([exe, "one", mode, f1], capture_output=True, timeout=60, preexec_fn=limited).returncode
        except subprocess.TimeoutExpired:
            return "timeout"
    n = 0
    for k, make in sorted(NESTED.items()) + sorted(SCALED.items()):
        for mode in ("file", "repl", "expr"):
            n += 1
            t = make(150 if k in NESTED else 500)
            code = one(t, mode)
            if code != 0:
                check.violation({"id": "nested", "mode": mode, "lines": [{"s": [t], "n": [1]}]},
                                "%s at depth or size %s: exit status %s" % (k, 150 if k in NESTED else 500, code))
    check.coverage["nested_on_default_stack"] = n
    for ident, text in known_findings("C01"):
        if one("".join(c * k for c, k in ident["text"])) == -6:
            check.known.append(text)


# ------------------------------------------------------------------ the ways in

def general(s, r, n, sessions=0):
    """A mixture of everything for the checks of the ways in."""
    for _ in range(n):
        k = r.randrange(10)
        t = Gen(r, names=r.choice([unicode_names(), list("abcdefg") + ["foo", "x1", "été"]])).program(n=r.choice([1, 2, 3]))
        if k < 3:
            t = mutate(r, t, r.choice([1, 1, 2, 4]))
        elif k == 3:
            t = gens.soup(r, r.randrange(2, 12))
        elif k == 4:
            t = edits(r, t, set(r.sample(STYLES, 3)))
        elif k == 5:
            t = broken_lines(r, t)
        elif k == 6:
            t = Gen(r, **dict(SC, this=1, supers=1)).program(n=2)
        s.add("mixture", t)
    for t in r.sample(contexts(r), min(n, 5000)):
        s.add("context", t)


EDGES = ["class K {}", "class K < L {}", "class K {}a\n", "class K < L {}a\n", "class K {m() {}}a\n", "fun f() {}a\n", "{}a\n", "if (a) {}b\n", "if (a) {}else {}b\n", "while (a) {}b\n", "for (;;) {}b\n", "", "\n", "a", "a\n", "\r\n", "a\r\n", " a\n", "// c", "// c\n", "\ufeffa\n", '"é\n"\n', '"', "@", "@ # $\n", "print )\n)\nvar 1\n", "é )\n", '"x\ny" )\n',
         "return 1\nthis\nsuper.x\n", "a\n\n\n", "  \n", "1\n", "0.1\n", "1" + "0" * 310 + "\n", "123456789012345678901234567890.5\n", "nil\n", "true\n", "false\n",
         "var a\n", "{}\n", "[]\n", "x = {}\n", "x = []\n", "class A\n  m()\n    1\n", "class A < B\n  init()\n    super.x\n  class k(a)\n    this\n",
         "for (var i = 0; i < 9; i = i + 1)\n  break\n", "for (;;)\n  continue\n", "while (a) b\n", "if (a) b\n", "if (a)\n  b\nelse\n  c\n",
         'x = "\\"\n', 'x = "\ta\u0001\u007f"\n', "a.b = c\n", "a[1] = 2\n", "f(fun(x, y) {\nreturn x\n})\n", "!a == -b\n", "a or b and c\n", "(a)\n",
         "a - b * c / d + e\n", "a < b\n", "a <= b\n", "a > b\n", "a >= b\n", "a != b\n", "a == b\n", "var x = {b: 1, a: 2, \"1\": 3, \"0\": 4, __proto__: 5}\n",
         "x = {constructor: 1, \"\": 2}\n", "'\n", "print 1", "fun f(a, a)\n  1\n", "f a\n", 'f "s", nil, true\n', "return\n", "fun f()\n  return\n"]


def run_cli(exe, args, stdin, cwd):
    try:
        r = subprocess.run([exe, *args], input=stdin, cwd=cwd, capture_output=True, timeout=20, preexec_fn=limited)
    except subprocess.TimeoutExpired as e:
        return {"status": "timeout", "out": "", "err": ""}
    return {"status": r.returncode, "out": r.stdout.decode("utf-8", "backslashreplace"),
            "err": r.stderr.decode("utf-8", "backslashreplace")}


def debug_of(exe, cases, work):
    """The programs as the library prints them, by id."""
    i, o = os.path.join(work, "d.in"), os.path.join(work, "d.out")
    with open(i, "w") as f:
        for c in cases:
            f.write(json.dumps({"id": c["id"], "mode": c["mode"], "lines": c["lines"]}) + "\n")
    subprocess.run([exe, "debug", i, o], timeout=300, preexec_fn=limited, capture_output=True)
    with open(o) as f:
        return {v["id"]: v["out"] for v in map(json.loads, f)}


def c18(check):
    from concurrent.futures import ThreadPoolExecutor
    exe, cli = build_harness(), build_cli()
    s = Suite()
    r = rng(SEED, "C18")
    for t in EDGES:
        s.add("edge", t)
    general(s, r, times(350, 8000))
    for t in EDGES:
        if "\n" not in t[:-1] and "\r" not in t[:-2]:
            s.add("session-edge", ([t] if not t.endswith("\n") else [t, t]) if t else ["\n"], mode="repl")
    for _ in range(times(200, 5000)):
        lines = []
        for _ in range(r.randrange(1, 9)):
            k = r.randrange(8)
            if k < 4:
                t = r.choice([m for m in MENU if "\n" not in m[:-2]])
            elif k == 4:
                t = gens.soup(r, r.randrange(1, 8))
            else:
                t = Gen(r, **SC).simple(dict(ind=0, loop=False, fun=False, cls=False, sub=False, init=False))
            t = re.sub("[\r\n].*", "", t, flags=re.S)
            lines.append(t + r.choice(["\n", "\n", "\n", "\r\n"]))
        if r.random() < 0.3:
            lines[-1] = lines[-1].rstrip("\r\n")
        if lines[-1] == "":
            lines.pop()
        if lines:
            s.add("session", lines, mode="repl")
    for n in [255, 256, 300]:
        s.add("longsession", ["var n%d = n%d\n" % (i, i // 2) for i in range(n)], mode="repl", coarse=True)
    scaled(s, ["causes", "scancauses", "rescauses", "stmts", "args", "locals", "or"], [1, 10, 100, 300])
    scaled(s, ["parens", "whiles", "funs", "classes"], [1, 10, 40])
    for n in [100, 1000, 4000, 4094, 4095, 4096, 4097, 8192, 65536, 100000]:
        s.add("long", ["a //", ("c", n)], coarse=True)
        s.add("long", [(" ", n), "a"], coarse=True)
        s.add("long", [("\n", n), "print a"], coarse=True)
        s.add("longline", [["a //", ("c", n), "\n"], ["x = ", (" ", n), "b + )\n"], ["y", (" ", n)]], mode="repl", coarse=True)
    for x in ("exit", "quit", ":q", "help", "q", "exit()", "\u0004", "clear", ".exit", "version"):
        s.add("special", ["a\n", x + "\n", "b\n"], mode="repl")
        s.add("special", ["a\n", x], mode="repl")
        s.add("special", x + "\n")
    for n in [1000, 65536, 100000]:
        s.add("long", ["x = \"", ("a", n), "\"\n"], coarse=True)
        s.add("long", [("\n", n), "a )\n"], coarse=True)
        s.add("long", [("a", n), " b )\n"], coarse=True)
        s.add("long", ["// ", ("é", n), "\na\n"], coarse=True)
    exp = expected(check, s)
    lib = run_harness(exe, exp, check.work)
    shown = debug_of(exe, exp, check.work)
    d = os.path.join(check.work, "files")
    os.mkdir(d)
    jobs = [e for e in exp if not lib[e["id"]].get("skip")]

    def run(k):
        e = jobs[k]
        texts = [text_of(l) for l in e["lines"]]
        if e["mode"] == "repl":
            return run_cli(cli, [], "".join(texts).encode(), d)
        name = os.path.join(d, "%d.ws" % k)
        with open(name, "w", newline="") as f:
            f.write(texts[0])
        res = run_cli(cli, [name], b"", d)
        os.remove(name)
        return res
    with ThreadPoolExecutor(CORES) as ex:
        results = list(ex.map(run, range(len(jobs))))
    programs_ = 0
    for e, got in zip(jobs, results):
        bad = None
        for x, y in zip(e["res"], lib[e["id"]]["res"]):
            bad = bad or difference(project(x, True, {"verdict", "astlocs", "bind", "causes"}),
                                    project(y, False, {"verdict", "astlocs", "bind", "causes"}))
        progs = shown.get(e["id"]) or []
        out = ""
        for k in e["cli"]["out"]:
            out += "> " if k == 0 else "%s\n" % (progs[k - 1] if k <= len(progs) else "?")
            programs_ += k > 0
        err = "".join(l + "\n" for l in e["cli"]["err"])
        want = {"status": e["cli"]["status"], "err": err, "out": out}
        bad = bad or difference(want, got)
        if bad:
            check.violation({k: e[k] for k in ("id", "mode", "lines")}, bad)
    validated(check, len(jobs), len(exp) - len(jobs))
    check.coverage["programs_printed"] = programs_


def c19(check):
    wasm, exe = build_wasm(), build_harness()
    s = Suite()
    r = rng(SEED, "C19")
    for t in EDGES:
        s.add("edge", t)
    general(s, r, times(1600, 15000))
    statements(s, r, two=times(600, 6000))
    expressions(s, r, two=times(600, 6000), three=times(300, 6000), ones=times(0.5, 1.0))
    for k in ("args", "params", "array", "map", "mapl", "locals", "globals", "globuses", "stmts", "methods", "or", "mix", "causes", "scancauses", "rescauses", "siblings"):
        scaled(s, [k], [1, 2, 9, 10, 11, 64, 100, 128, 200, 254, 255, 256, 300] if Q else sizes())
    scaled(s, ["parens", "brackets", "maps", "nots", "whiles", "funs", "classes", "assigns", "juxta", "fors", "ifs", "blocks"], [1, 2, 5, 9, 16, 24])
    for n in [1, 1000, 65535, 65536]:
        s.add("long", ["x = \"", ("a", n), ("é", n), "\" + z\n"], coarse=True)
        s.add("long", [("\n", n), "a + b )\n"], coarse=True)
        s.add("long", [("\n", n), "a + b\n"], coarse=True)
        s.add("long", ["x = ", (" ", n), "a + b\n"], coarse=True)
    # Errors far down and far to the right, at long texts; odd characters at
    # the beginning and the end.
    for n in [20, 21, 24, 40, 64, 127, 128, 254, 255, 256, 257, 300, 1000, 4096]:
        for t in ([("\n", n), "a )\n"], [(" ", n), ")\n"], ["a + ", (" ", n), ")\n"], ["a + ", (" ", n), "@\n"], [("\n", n), (" ", n), "#\n"], ["a ", ("b", n), " c ", ("d", n), "\n"], ["var a = a ", "\"", ("é", n), "\" var\n"],
                  ["fun ", ("f", n), "(", ("p", n), ", ", ("p", n), ")\n  1\n"], ["1 2", ("0", n), "\n"], ["a )", ("\n", n), "b )", ("\n", n), "  @\n"], [("\n", n), "fun f()\n  var ", ("x", n), "\n  var ", ("x", n), "\n"],
                  ["var ", ("y", n), " = ", ("y", n), "\n"], [("\n", n), (" ", n), "this\n", (" ", n), "super.", ("a", n), "\n"], ["x = \"", ("s", n), "\n\"\n"]):
            s.add("far", t, coarse=True)
    for x in ["\0", "\u0001", "\u0004", "\u001a", "\u007f", "\u0085", "\u00a0", "\u2028", "\ufeff", "\ufffe", "\u200b", "\v", "\f", "\r", "\t", " ", ";", "\\", "é", "\U0010ffff"]:
        for t in (x, "a" + x, "a\n" + x, x + "a\n", "a" + x + "\n", '"' + x + '"\n', "x = \"a" + x, "// " + x, "fun f()\n  a" + x, "a" + x + x + x, "b )" + x):
            s.add("odd", t)
    exp_ = ["a", "1.5", '"é"', "nil", "true", "false", "[a, 1]", "{p: a, q: {}}", "f(a)", "f a, b", "a.b", "a[0]", "a.b = 1", "a[0] = 1", "a = b", "-a", "!a", "(a)", "a or b", "fun(x) {}", "a == 1"]
    for t in rng(SEED, "C19", "nest").sample(["".join(x) for x in itertools.product(["x = ", "f(", "", "[", "return ", "print ", "while (a)\n  ", "if (", "fun f(p)\n  var q = ", "class C < D\n  init(p)\n    this.x = "],
                                             exp_, [" + ", ", "], exp_, ["\n", ")\n", "]\n", ") b\n"])], times(6000, 35280)):
        s.add("nest", t)
    for t in number_texts(r, times(300, 4000)) + ["%d" % (2 ** k + d) for k in (8, 15, 16, 24, 31, 32, 33, 48, 52, 53, 54, 62, 63, 64, 65, 100, 1023) for d in (-1, 0, 1)] + ["2147483648.5", "4294967295.75", "0.1", "0.0", "1.0", "10.0"]:
        s.add("number", r.choice(["%s\n", "x = %s\n", "f(%s)\n", "{k: %s}", "x = {k: %s}\n", "[%s, 1]\n"]) % t)
    lists(s, r, times(300, 6000))
    pairs(s, r, times(600, 10000))
    programs(s, "C19", times(200, 5000), family="braces", blocks=4)
    exp = expected(check, s)
    lib = run_harness(exe, exp, check.work)
    exp = [e for e in exp if not lib[e["id"]].get("skip")]
    i, o = os.path.join(check.work, "w.in"), os.path.join(check.work, "w.out")
    with open(i, "w") as f:
        for e in exp:
            f.write(json.dumps({"id": e["id"], "lines": e["lines"]}) + "\n")
    p = subprocess.run(["node", "--stack-size=4000", os.path.join(VERIF, "tools/wasm.mjs"), wasm, i, o], capture_output=True, text=True, timeout=600)
    with open(o) as f:
        got = {v["id"]: v for v in map(json.loads, f)}
    if p.returncode != 0 or len(got) != len(exp):
        raise ToolError("node: %s" % p.stderr[-2000:])
    trees = thrown = 0
    for e in exp:
        x, g = e["res"][0], got[e["id"]]
        if str(g.get("died", "")).startswith("unsupported"):
            raise ToolError(g["died"])
        bad = None
        if "died" in g or "shape" in g:
            bad = ("no tree and no message", None, g.get("died") or g.get("shape"))
        elif x["by"] == "":
            if "thrown" in g:
                bad = ("throws", None, g["thrown"])
            else:
                trees += 1
                bad = difference({"ast": numbers(x["ast"]), "bind": sorted(x["bind"])}, {"ast": g["ast"], "bind": sorted(g["bind"])})
        elif "thrown" not in g:
            bad = ("accepts", [c["m"] for c in x["errs"]], None)
        else:
            thrown += 1
            # Every cause in order, with its place, text and message.
            at, msg = 0, g["thrown"]
            for c in x["errs"]:
                for piece in ["%d:%d" % (c["l"], c["c"])] + ([c["t"]] if c["h"] else []) + [c["m"]]:
                    found = [k for k in (msg.find(v, at) for v in spellings(piece)) if k >= 0]
                    if not found:
                        bad = ("message lacks", piece, msg[at:at + 200])
                        break
                    at = min(found) + 1
                if bad:
                    break
            n = len([l for l in msg.split("\n") if re.match(r"\d+:\d+", l)])
            if not bad and n != len(x["errs"]):
                bad = ("number of causes", len(x["errs"]), msg[:300])
        if bad:
            check.violation({k: e[k] for k in ("id", "mode", "lines")}, bad)
    validated(check, len(exp))
    check.coverage["trees_compared"] = trees
    check.coverage["messages_compared"] = thrown


def spellings(piece):
    """A text as it is, or escaped as Rust escapes it (beginning only, where
    the escape of a character is not one of the simple ones)."""
    esc = piece.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t").replace("\0", "\\0")
    odd = re.search("[^\u0020-\u007e\u00a1-\u00ac\u00ae-\u02ff\u0391-\u03ff\u0410-\u044f]", esc)
    return [piece, esc] + ([esc[:odd.start()]] if odd else [])


# ------------------------------------------------------------------ purity

def nolines(t):
    """A tree without line numbers."""
    if isinstance(t, list):
        if len(t) == 2 and type(t[0]) is int and type(t[1]) is int:
            return ["col", t[1]]
        return [nolines(x) for x in t]
    return t


def c20(check):
    exe = build_harness()
    s = Suite()
    r = rng(SEED, "C20")
    # Pieces that are complete on their own, and what they make together.
    pieces = ["a\n", "var a = 1\n", "if (a)\n  b\n", "if (a)\n    b\n", "while (a)\n b\n", "fun f()\n  return 1\n", "class A < B\n  m()\n    super.x\n", "f 1, 2\n", "x = {a: 1}\n", "f(\n1)\n",
              "a +\n  b\n", "a \\\n  b\n", "// c\na\n", "a // c\n", "\n\na\n", "for (;;)\n  break\n", "var m =\n  p: 1\n", "if (a) b\nelse c\n", "{\na\n}\n", '"x\ny"\n', "a\r\n",
              "x = fun() {\nreturn 1\n}\n", "print a\n", "var s = \"\"\n", "  // c\na\n", "a\n   \n", "(a)\n", "-a\n", "[1]\n", "var a\n", "fun g(a)\n  fun h()\n    a\n"]
    s.grid("concat", [pieces, pieces])
    for p in pieces:
        s.add("piece", p)
    s.grid("concat3", [pieces[:12], pieces[12:], pieces[::3]])
    each = [t + "\n" for t in gens.STMTS]
    s.grid("concatall", [each, each])
    for p in each:
        s.add("piece", p)
    combos = []
    progs = []
    for _ in range(times(300, 6000)):
        t = Gen(r).program(n=r.choice([1, 1, 2]))
        if r.random() < 0.3:
            t = broken_lines(r, t)
        if r.random() < 0.2:
            t = edits(r, t, set(r.sample(STYLES, 2)))
        if not t.endswith("\n"):
            t += "\n"
        progs.append(t)
        s.add("piece", t)
    for t in r.sample(contexts(r), times(250, 4000)):
        progs.append(t)
        s.add("piece", t)
    for _ in range(times(450, 6000)):
        k = r.choice([2, 2, 3, 5])
        parts = [r.choice(progs + pieces) for _ in range(k)]
        combos.append(parts)
        s.add("concat", "".join(parts))
    for k in times([20, 60], [20, 60, 100, 200]):
        parts = [r.choice(progs) for _ in range(k)]
        combos.append(parts)
        s.add("concat", "".join(parts), coarse=True)
    for a in pieces:
        for b in pieces:
            combos.append([a, b])
    for a in each:
        for b in each:
            combos.append([a, b])
    for a in pieces[:12]:
        for b in pieces[12:]:
            for c in pieces[::3]:
                combos.append([a, b, c])
    # Rejected texts and sessions take part in the repetition.
    for _ in range(times(250, 5000)):
        s.add("rejected", mutate(r, Gen(r).program(n=2), r.choice([1, 2, 4])))
        s.add("soup", gens.soup(r, r.randrange(2, 14)))
    for _ in range(times(60, 1000)):
        s.add("session", [r.choice(MENU) for _ in range(r.randrange(2, 8))], mode="repl")
    scaled(s, ["causes", "rescauses", "map", "locals", "globals", "methods"], [3, 50, 255, 300])

    def steady(res, expected, case):
        return {"verdict": res["by"] not in ("panic", "crash", "hang")}
    exp, act = conform(check, s, None, exe=exe, project_fn=steady)
    # The same again, otherwise.
    i, o = os.path.join(check.work, "p.in"), os.path.join(check.work, "p.out")
    live = [e for e in exp if all(y["by"] not in ("panic", "crash", "hang") for y in act[e["id"]].get("res", []))]
    small = [e for e in live if not e["id"].startswith(("concat3", "concat:", "concatall"))] + [e for e in live if e["id"].startswith("concat:")][::5]
    with open(i, "w") as f:
        for e in small:
            f.write(json.dumps({"id": e["id"], "mode": e["mode"], "lines": e["lines"]}) + "\n")
        # Long texts, made of many of them; in some, what is rejected is at the end.
        whole = {}
        texts = [e for e in small if e["mode"] == "file" and not e["id"].startswith("scale")]
        fine = [e for e in texts if act[e["id"]]["res"][0]["by"] == ""]
        for k in range(40):
            es = [r.choice(fine if k % 4 else texts) for _ in range(r.choice([30, 60, 120, 300]))]
            t = "\n".join([text_of(e["lines"][0]) for e in es] + [["a\n", "break\n", "this\n", "return 1\n", "super.x\n"][k % 5]])
            whole["big#%d" % k] = {"id": "big#%d" % k, "mode": "file", "lines": [line_of(t)]}
            f.write(json.dumps(whole["big#%d" % k]) + "\n")
    p = subprocess.run([exe, "pure", i, o], capture_output=True, text=True, timeout=800, preexec_fn=limited)
    byid = dict({e["id"]: e for e in exp}, **whole)
    if p.returncode != 0:
        check.violation({"id": "pure", "exit": p.returncode}, "parsing on several threads fails: exit status %d" % p.returncode)
    else:
        with open(o) as f:
            v = json.load(f)
        check.coverage["repeated_runs"] = v["runs"]
        for d in v["differs"]:
            e = byid[d["id"]]
            check.violation({k: e[k] for k in ("id", "mode", "lines")}, "another result " + d["how"])
    # In another process, too.
    again = run_harness(exe, live[::-1], check.work)
    for e in live:
        if again[e["id"]] != act[e["id"]]:
            check.violation({k: e[k] for k in ("id", "mode", "lines")},
                            ("another result in another process", act[e["id"]], again[e["id"]]))
    # Concatenation, on the code's trees; the specification says which pieces
    # are complete (all but a bare map at the seam).
    by_text = {show(e["lines"][0]): e for e in exp if e["mode"] == "file"}
    same = 0
    for parts in combos:
        es = [by_text.get(t) for t in parts]
        whole = by_text.get("".join(parts))
        if whole is None or any(e is None for e in es):
            continue
        if any(e["res"][0]["by"] in ("scan", "parse") for e in es):
            continue
        joined = [x for e in es for x in nolines(numbers(e["res"][0]["ast"]))]
        if whole["res"][0]["by"] in ("scan", "parse") or nolines(numbers(whole["res"][0]["ast"])) != joined:
            if not any(":" in t for t in parts):
                raise ToolError("the specification does not concatenate: %r" % parts)
            continue
        if any(act[e["id"]].get("skip") for e in es + [whole]):
            continue
        ys = [act[e["id"]]["res"][0] for e in es]
        y = act[whole["id"]]["res"][0]
        if any(z["by"] in ("scan", "parse", "panic", "crash", "hang") for z in ys):
            continue
        want = [x for z in ys for x in nolines(z["ast"])]
        if y["by"] in ("scan", "parse", "panic", "crash", "hang") or nolines(y["ast"]) != want:
            check.violation({"id": whole["id"], "mode": "file", "lines": whole["lines"]},
                            ("not what its pieces are", parts, y["by"] or y["ast"]))
        else:
            same += 1
    check.coverage["concatenations_compared"] = same
