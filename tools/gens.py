"""Inputs: random programs, mutations, scaled constructs."""
import random, re

KEYWORDS = ["and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil",
            "or", "print", "return", "super", "this", "true", "var", "while"]
BINARY = ["or", "and", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/"]
LEXEMES = (["(", ")", "{", "}", "[", "]", ":", ",", ".", "-", "+", ";", "*", "!", "!=", "=",
            "==", "<", "<=", ">", ">=", "/", "//", "\\", "\n", "\n  ", "\n ", " ", "\t", "\r\n",
            '"s"', '"', "1", "2.5", "a", "init", "é"] + KEYWORDS)


LONG = ["longer_name", "Nine_Char", "aVeryMuchLongerIdentifier_0123456789"]
# Names a language might treat in a way of their own (this one does so with
# init alone).
SPECIAL = ["init", "new", "constructor", "initialize", "__init__", "toString", "to_string", "call", "main", "self", "Self", "This", "length", "len",
           "clock", "_", "__", "object", "Object", "import", "let", "const", "function", "def", "do", "in", "of", "not", "null", "undefined", "Nil",
           "True", "None", "static", "get", "set", "eval", "arguments", "typeof", "switch", "match", "end", "then", "elif", "elsif", "begin", "Init",
           "init_", "_init", "initi", "ini", "Print", "println", "puts", "exit", "quit", "this_", "super_", "base", "parent", "inherit", "extends", "global", "local", "it"]


class Gen:
    """Random programs, mostly accepted.  Knobs:
    names      pool of identifiers
    calls, maps, arrays, lambdas, classes, loops, braces: weights"""

    def __init__(self, rng, **knobs):
        self.r = rng
        self.k = dict(names=list("abcdefg") + ["foo", "x1", "_y", "init", "this_", "été"] + LONG + (["new", "call", "main", "constructor"] if rng.random() < 0.2 else []),
                      calls=3, juxta=2, maps=1, arrays=1, lambdas=0.5, classes=1, loops=2, funs=2,
                      ifs=2, blocks=0.5, jumps=1, returns=1, assign=1, ops=3, this=0.5, supers=0.3,
                      strings=1, step=None, vars=3, locals_fresh=0.8, depth=3, unary=0.7)
        self.k.update(knobs)
        self.fresh = 0

    def w(self, *pairs):
        tot = sum(p[0] for p in pairs)
        x = self.r.random() * tot
        for p in pairs:
            x -= p[0]
            if x < 0:
                return p[1]
        return pairs[-1][1]

    def name(self):
        return self.r.choice(self.k["names"])

    def newname(self):
        if self.r.random() < self.k["locals_fresh"]:
            self.fresh += 1
            return "v%d" % self.fresh
        return self.name()

    def number(self):
        r = self.r
        return r.choice(["0", "1", "2", "10", "3.14", "0.5", "123456", "007", "1.50",
                         str(r.randrange(10**6)), "%d.%d" % (r.randrange(1000), r.randrange(1000))])

    def string(self):
        return '"' + "".join(self.r.choice(["a", "b", " ", "//", "\\", "é", "{", "'", "0"])
                             for _ in range(self.r.randrange(5) if self.r.random() < 0.9
                                            else self.r.randrange(60))) + '"'

    def many(self, few):
        """Mostly one of the few, sometimes more."""
        return self.r.choice(few) if self.r.random() < 0.96 else self.r.randrange(4, 11)

    def atom(self, ctx):
        k = self.k
        return self.w(
            (5, self.name), (3, self.number), (k["strings"], self.string),
            (0.4, lambda: self.r.choice(["true", "false", "nil"])),
            (k["this"] if ctx["cls"] else 0, lambda: "this"),
            (k["supers"] if ctx["sub"] else 0, lambda: "super." + self.name()))()

    def args(self, d, ctx):
        return ", ".join(self.operand(d - 1, ctx) for _ in range(self.many([0, 1, 1, 2, 3])))

    def postfix(self, d, ctx):
        k = self.k
        e = self.atom(ctx) if self.r.random() < 0.75 or d <= 0 else "(" + self.expr(d - 1, ctx) + ")"
        if e[0] in "0123456789\"":
            return e
        for _ in range(self.r.choice([0, 0, 0, 1, 1, 2])):
            e += self.w((1, lambda: "." + self.name()),
                        (1, lambda: "[" + self.expr(d - 1, ctx) + "]"),
                        (k["calls"], lambda: "(" + self.args(d, ctx) + ")"))()
        return e

    def operand(self, d, ctx):
        """An expression that may stand where assignments and calls without
        parentheses would reach too far: mostly in parentheses."""
        e, loose = self.expr_(d, ctx)
        if loose and self.r.random() < 0.93:
            return "(" + e + ")"
        return e

    def expr(self, d, ctx):
        return self.expr_(d, ctx)[0]

    def expr_(self, d, ctx):
        """An expression, and whether it is an assignment or open call."""
        loose = [False]

        def mark(s):
            loose[0] = True
            return s
        return self.expr__(d, ctx, mark), loose[0]

    def expr__(self, d, ctx, mark):
        k = self.k
        if d <= 0:
            return self.atom(ctx)
        return self.w(
            (3, lambda: self.postfix(d, ctx)),
            (k["ops"], lambda: self.operand(d - 1, ctx) + " " + self.r.choice(BINARY) + " " + self.operand(d - 1, ctx)),
            (k["unary"], lambda: self.r.choice("!-") + self.postfix(d - 1, ctx)),
            (k["juxta"], lambda: mark(self.name() + " " + ", ".join(
                self.start(self.operand(d - 1, ctx)) for _ in range(self.r.choice([1, 1, 2, 3]))))),
            (k["assign"], lambda: mark(self.target(d, ctx) + " = " + self.expr(d - 1, ctx))),
            (k["arrays"], lambda: "[" + self.args(d, ctx) + "]"),
            (k["maps"], lambda: "{" + ", ".join(
                "%s: %s" % (self.r.choice([n, '"%s"' % n]), self.operand(d - 1, ctx))
                for n in self.r.sample(list("pqrstuvwxyz"), self.many([0, 1, 2, 3]))) + "}"),
            (k["lambdas"], lambda: self.lam(d, ctx)))()

    def start(self, e):
        """A first argument of a call without parentheses may not look like an
        operator, an index or this."""
        return "(" + e + ")" if e[0] in "!-[" or e.startswith("this") else e

    def target(self, d, ctx):
        return self.w((3, self.name), (1, lambda: self.name() + "." + self.name()),
                      (1, lambda: self.name() + "[" + self.expr(d - 1, ctx) + "]"))()

    def params(self):
        n = self.many([0, 1, 1, 2, 3])
        return ", ".join(self.r.sample(self.k["names"], min(n, len(self.k["names"]))))

    def lam(self, d, ctx):
        inner = dict(ctx, fun=True, loop=False, init=False)
        body = self.r.choice([
            "", lambda: "\nreturn %s\n" % self.expr(d - 1, inner),
            lambda: "\n%s\n" % self.expr(d - 1, inner),
            lambda: "\nvar %s = %s\nreturn %s\n" % (self.newname(), self.expr(d - 1, inner),
                                                   self.expr(d - 1, inner))])
        if d > 0 and self.r.random() < 0.15:    # any statements
            lines = []
            for _ in range(self.r.choice([1, 1, 2])):
                lines += self.stmt(self.r.choice([0, 1]), dict(inner, ind=0))
            body = lambda: "\n" + "\n".join(lines) + "\n"
        if body:
            # Lines of a braced body are not indented further.
            body = body().replace("\n", "\n" + " " * ctx["ind"])
        return "fun%s(%s) {%s}" % (self.r.choice(["", " "]), self.params(), body)

    # Statements: lists of lines.

    def ind(self, ctx):
        return " " * ctx["ind"]

    def block(self, d, ctx, n=None, **changes):
        step = self.k["step"] or self.r.choice([1, 2, 2, 4])
        inner = dict(ctx, ind=ctx["ind"] + step, **changes)
        out = []
        for _ in range(n or self.many([1, 1, 2, 3])):
            out += self.stmt(d - 1, inner)
        return out

    def simple(self, ctx):
        k = self.k
        e = lambda: self.expr(self.r.choice([0, 1, 1, 2, k["depth"]]), ctx)
        return self.w(
            (3, lambda: self.plain(e())), (2, lambda: "print " + e()),
            (k["vars"], lambda: "var %s = %s" % (self.newname(), e())),
            (0.3, lambda: "var " + self.newname()),
            (k["jumps"] if ctx["loop"] else 0, lambda: self.r.choice(["break", "continue"])),
            (k["returns"] if ctx["fun"] else 0,
             lambda: self.r.choice(["return", "return nil"]) if ctx["init"]
             else self.r.choice(["return", "return " + e()])))()

    def plain(self, e):
        return "(" + e + ")" if e[0] == "{" or e.startswith("fun") else e

    def stmt(self, d, ctx):
        k, i = self.k, self.ind(ctx)
        if d <= 0:
            return [i + self.simple(ctx)]
        return self.w(
            (4, lambda: [i + self.simple(ctx)]),
            (k["ifs"], lambda: self.if_(d, ctx)),
            (k["loops"], lambda: self.loop(d, ctx)),
            (k["funs"], lambda: [i + "fun %s(%s)" % (self.newname(), self.params())]
             + self.block(d, ctx, fun=True, loop=False, init=False)),
            (k["classes"], lambda: self.class_(d, ctx)),
            (k["blocks"], lambda: self.braced(d, ctx)),
            (k["maps"] / 2, lambda: self.bigmap(ctx)))()

    def braced(self, d, ctx):
        """Blocks in braces, the next statement on the line that closes them."""
        i, e = self.ind(ctx), lambda: self.expr(1, ctx)

        def inside(**changes):
            out = []
            for _ in range(self.r.choice([0, 1, 1, 2, 3])):
                out += self.stmt(d - 1, dict(ctx, **changes))
            return out
        form = self.r.choice(["block", "if", "ifelse", "while", "for", "fun", "class"])
        if form == "block":
            out = [i + "{"] + inside()
        elif form == "if":
            out = [i + "if (%s) {" % e()] + inside()
        elif form == "ifelse":
            out = [i + "if (%s) {" % e()] + inside() + [i + "}else {"] + inside()
        elif form in ("while", "for"):
            out = [i + ("while (%s) {" % e() if form == "while" else "for (%s; ; ) {" % self.r.choice(["", "var %s = %s" % (self.newname(), e())]))] + inside(loop=True)
        elif form == "fun":
            out = [i + "fun %s(%s) {" % (self.newname(), self.params())] + inside(fun=True, loop=False, init=False)
        else:
            sub = self.r.random() < 0.4
            out = [i + "class %s%s {" % (self.newname(), " < " + self.name() if sub else "")]
            for _ in range(self.r.choice([0, 1, 2])):
                name, kind = self.r.choice(["init", "m", self.name()]), self.r.choice(["", "class "])
                out += [i + "%s%s(%s) {" % (kind, name, self.params())]
                out += inside(fun=True, loop=False, cls=True, sub=sub, init=name == "init" and kind == "")
                # The next method follows at once.
                out += [i + "}"]
        # What follows a block follows it at once.
        s = i + "}" + self.simple(ctx)
        if form == "class":
            body, out = out[1:], out[:1]
            for l in body + [s]:
                if out[-1] == i + "}":
                    out[-1] += l.lstrip(" ")
                else:
                    out.append(l)
            return out
        return out + [s]

    def bigmap(self, ctx):
        i = self.ind(ctx)
        n = self.r.choice([1, 2, 3, 5, 6])
        return [i + "var %s =" % self.newname()] + [
            i + "  %s: %s%s" % (x, self.operand(1, dict(ctx)), self.r.choice(["", "", ","]))
            for x in self.r.sample(["p", "q", "r", "s", '"t u"', "_"], n)]

    def if_(self, d, ctx):
        i = self.ind(ctx)
        c = self.expr(1, ctx)
        form = self.r.choice(["line", "block", "block", "else", "else", "elseif", "oneelse"])
        if form == "line":
            return [i + "if (%s) %s" % (c, self.oneline(ctx))]
        out = [i + "if (%s)" % c] + self.block(d, ctx)
        if form == "else":
            out += [i + "else"] + self.block(d, ctx)
        elif form == "elseif":
            out += [i + "else if (%s)" % self.expr(1, ctx)] + self.block(d, ctx)
            if self.r.random() < 0.5:
                out += [i + "else"] + self.block(d, ctx)
        elif form == "oneelse":
            out += [i + "else " + self.oneline(ctx)]
        return out

    def oneline(self, ctx):
        s = self.simple(ctx)
        while s.startswith("var"):
            s = self.simple(ctx)
        return s

    def loop(self, d, ctx):
        i = self.ind(ctx)
        e = lambda: self.expr(1, ctx)
        if self.r.random() < 0.5:
            head = "while (%s)" % e()
        else:
            init = self.r.choice(["var %s = %s;" % (self.newname(), e()), ";", e() + ";",
                                  "var %s;" % self.newname()])
            head = "for (%s %s; %s)" % (init, self.r.choice(["", e()]), self.r.choice(["", e()]))
        if self.r.random() < 0.2:
            return [i + head + " " + self.oneline(dict(ctx, loop=True))]
        return [i + head] + self.block(d, ctx, loop=True)

    def class_(self, d, ctx):
        i = self.ind(ctx)
        sub = self.r.random() < 0.4
        step = self.k["step"] or self.r.choice([1, 2, 2, 4])
        out = [i + "class %s%s" % (self.newname(), " < " + self.name() if sub else "")]
        for _ in range(self.many([1, 1, 2, 3])):
            kind = self.r.choice(["", "", "class "])
            name = self.r.choice(["init", "m", "n", self.name(), self.r.choice(SPECIAL)])
            m = dict(ctx, ind=ctx["ind"] + step, cls=True, sub=sub)
            out += [m["ind"] * " " + "%s%s(%s)" % (kind, name, self.params())]
            out += self.block(d - 1, m, fun=True, loop=False,
                              init=name == "init" and kind == "")
        return out

    def program(self, n=None, d=2):
        ctx = dict(ind=0, loop=False, fun=False, cls=False, sub=False, init=False)
        out = []
        for _ in range(n or self.r.choice([1, 2, 2, 3, 4])):
            out += self.stmt(d, ctx)
        return "\n".join(out) + "\n"


def rng(seed, *tags):
    return random.Random("%s/%s" % (seed, "/".join(map(str, tags))))


def tokens_of(text):
    """A rough split, for mutations."""
    import re
    from vlib import clusters
    # Clusters of several characters as single ones for the while.
    cs = clusters(text)
    multi = sorted({c for c in cs if len(c) > 1 and c != "\r\n"})
    text = "".join(chr(0x3400 + multi.index(c)) if c in multi else c for c in cs)
    return [re.sub("[\u3400-\u34ff]", lambda m: multi[ord(m[0]) - 0x3400], t)
            for t in re.findall(r'\n *|"[^"]*"|\w+|[!=<>]=|//[^\n]*| +|.', text, re.S)]


def mutate(r, text, times=1):
    """Change a program at random places by whole lexemes."""
    ts = tokens_of(text)
    for _ in range(times):
        i = r.randrange(len(ts) + 1)
        how = r.choice(["del", "dup", "ins", "rep", "swap", "ins", "rep"])
        if how == "ins" or not ts:
            ts.insert(i, r.choice(LEXEMES))
            continue
        i = min(i, len(ts) - 1)
        if how == "del":
            del ts[i]
        elif how == "dup":
            ts.insert(i, ts[i])
        elif how == "rep":
            ts[i] = r.choice(LEXEMES)
        else:
            j = r.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
    return "".join(ts)


def soup(r, n):
    return "".join(r.choice(LEXEMES) + r.choice(["", " ", " "]) for _ in range(n))


# ------------------------------------------------------------ everything in everything

EXPRS = ["a", "1.5", '"s"', "nil", "true", "false", "this", "super.m", "(a)", "a + b", "a or b", "a and b", "a == b", "a < b", "a * b", "-a", "!a", "a = b", "o.p = b",
         "o[a] = b", "o.p", "o[a]", "f()", "f(a, b)", "f a", "f a, b", "[]", "[a, b]", "{}", "{p: a, q: b}", "fun() {}", "fun(x) {\nreturn x\n}", "p: a, q: b", "(nil)", "init"]
HOLES = (["({e})", "!{e}", "-{e}", "{e}(z)", "{e}()", "f({e})", "f(z, {e})", "f({e}, z)", "f {e}", "f z, {e}", "{e} z", "{e}.p", "{e}[z]", "f[{e}]", "x = {e}", "{e} = z", "o.p = {e}", "{e}.p = z",
          "o[z] = {e}", "o[{e}] = z", "{e}[y] = z", "[{e}]", "[z, {e}]", "[{e}, z]", "{k: {e}}", "{j: z, k: {e}}", "{j: {e}, k: z}", "fun() {\n{e}\n}", "fun(p) {\nreturn {e}\n}"]
         + ["z %s {e}" % o for o in BINARY] + ["{e} %s z" % o for o in BINARY])
LINES = ["{e}\n", "print {e}\n", "var v = {e}\n", "return {e}\n", "if ({e}) z\n", "if (z) {e}\n", "if (z) y\nelse {e}\n", "if (z) {e}\nelse y\n", "while ({e}) z\n", "while (z) {e}\n",
         "for ({e}; z; y) x\n", "for (var v = {e}; ; ) z\n", "for (; {e}; ) z\n", "for (;; {e}) z\n", "for (;;) {e}\n", "fun f()\n  {e}\n", "fun f(p)\n  return {e}\nz\n",
         "class A\n  m()\n    {e}\n", "class A < B\n  init(p)\n    this.p = {e}\n  class n()\n    {e}\n", "if (z)\n  {e}\nelse\n  {e}\n", "var m =\n  k: {e}\n  l: z\n",
         "while (z)\n  {e}\n  y\nx\n", "fun f(o, v)\n  while (z)\n    var a = 1\n    v = {e}\n  {e}\n", "x = {e}; y\n", "{\n{e}\n}\n", "class A < B\n  init()\n    print {e}\n"]


def expressions(s, r, two=500, three=250, kinds=EXPRS, holes=HOLES, lines=LINES, ones=1.0, family="expr"):
    """Every kind of expression in every place for one, and some deeper."""
    for l in lines:
        for e in kinds:
            if r.random() < ones:
                s.add(family, l.replace("{e}", e))
    for h in holes:
        for e in kinds:
            if r.random() < ones:
                s.add(family + "2", r.choice(["{e}\n", "x = {e}\n", "var v = {e}\n", "print {e}\n"]).replace("{e}", h.replace("{e}", e)))
    for k, n in ((2, two), (3, three)):
        for _ in range(n):
            e = r.choice(kinds)
            for _ in range(k):
                e = r.choice(holes).replace("{e}", e)
            s.add(family + str(k + 1), r.choice(lines).replace("{e}", e))


# Statements as lists of lines; of a body only what stands in it is indented.
STMTS = ["a", "nil", "1", '"s"', "true", "{}", "(a)", "[]", "-a", "f a", "f(a)", "x = a", "this", "super.m", "fun() {}", "print a", "print nil", "var v = a", "var v", "return", "return nil", "return a", "break",
         "continue", "if (a) b", "if (a)\n  b", "if (a)\n  b\nelse\n  c", "if (a) b\nelse c", "while (a) b", "while (a)\n  b", "while (a)\n  break", "for (;;) b", "for (var i = 0; i; i = 1)\n  i\n  continue", "for (x = 0; ; )\n  b",
         "fun g()\n  a", "fun g(a)\n  return a\n", "class A\n  m()\n    a", "class A < B\n  init(a)\n    super.m\n  class m()\n    return this\n  n(b)\n    b\n  class init()\n    return 1", "{a\n}", "{}\n{}",
         "var m =\n  p: 1\n  q: 2", "var m = {p: 1}", "", "// c", "f(\n1)", "a +\nb", "x = fun(p) {\nreturn p\n}", ")", "@", "{a\n}b", "if (a) {b\n}c", "if (a) {b\n}else {c\n}d",
         "while (a) {b\n}c", "for (;;) {b\n}c", "fun g(a) {a\n}b", "class A {m() {a\n}class n() {\nb\n}}b", "{{a\n}}b", "{}a", "{}", "class A {}b", "class A < B {}b", "class A {m() {}}b", "fun g(a, b) {}c"]
BODIES = ["{s}\n", "z\n{s}\n", "{s}\nz\n", "if (z)\n  {s}\n", "if (z) {s}\n", "if (z) {s}\nelse y\n", "if (z) y\nelse {s}\n", "if (z)\n  {s}\nelse\n  {s}\n", "if (z)\n  y\nelse\n  {s}\nx\n", "if (z)\n  y\nelse if (x)\n  {s}\n",
          "if (z) if (y)\n  {s}\nelse\n  x\n", "while (z)\n  {s}\n", "while (z) {s}\n", "while (z)\n  y\n  {s}\n  x\n", "for (;;)\n  {s}\n", "for (var i = 0; i; i = i)\n  {s}\ny\n", "for (i; ; ) {s}\n", "fun f()\n  {s}\n",
          "fun f(p, q)\n  y\n  {s}\nx\n", "class C\n  m()\n    {s}\n", "class C < D\n  init()\n    {s}\n  n()\n    y\n", "class C\n  class init(p)\n    y\n    {s}\nz\n", "class C\n  m()\n    z\n  {s}\n", "class C\n  {s}\n  m()\n    z\n",
          "{\n{s}\n}\n", "{ {s} }\n", "x = fun() {\n{s}\n}\n", "x = fun() {\nwhile (z)\n  {s}\n}\n", "while (z)\n  fun f()\n    {s}\n  break\n", "fun f()\n  while (z)\n    {s}\n  y\n", "if (z)\n  while (y)\n    {s}\n", "while (z)\n  if (y)\n    {s}\n  else\n    {s}\n",
          "while (z)\n  {s}\n  break\ny\n", "fun f() {s}\n", "{s} ; z\n", "{s} // c\nz\n", "if (z)\n  if (y)\n    {s}\nx\n", "class C\n  m()\n    fun f()\n      {s}\n    this\n", "  // c\n{s}\n\n  // c\nz\n", "{s}\n{s}\n{s}\n",
          "{\n{s}\n}z\n", "{{\n{s}\n}y\n}z\n", "{y\n{\n{s}\n}}z\n", "if (z) {\n{s}\n}y\n", "if (z) {\n{s}\n}else {\n{s}\n}y\n", "while (z) {\n{s}\n}y\n", "for (i = 0; i; i = 1) {\n{s}\n}y\n", "for (var i = 0; i; ) {\n{s}\n}y\n", "fun f(p) {\n{s}\n}z\n",
          "class C < D {\nm() {\n{s}\n}init() {\n{s}\n}}z\n", "while (z)\n  {\n  {s}\n  }y\n", "if (z)\n  while (y) {\n  {s}\n  }x\n", "if (z) y\nelse {\n{s}\n}x\n", "while (z) while (y) {\n{s}\n}x\n", "while (z) if (y) {\n{s}\n}else while (y) {\n{s}\n}x\n",
          "fun f()\n  x = fun(p) {\n  {s}\n  }\n  y\n", "f(fun() {\n{s}\n}, fun() {\n{s}\n})\n"]


def within(body, stmt):
    """A statement in its place, each of its lines indented."""
    out = []
    for l in body.split("\n"):
        if "{s}" not in l:
            out.append(l)
            continue
        i = " " * (len(l) - len(l.lstrip(" ")))
        first, *rest = l.replace("{s}", stmt).split("\n")
        out += [first] + [i + x for x in rest]
    return "\n".join(out)


def statements(s, r, two=500, kinds=STMTS, bodies=BODIES, ones=1.0, family="stmt"):
    """Every kind of statement in every place for one, and some deeper."""
    for b in bodies:
        for t in kinds:
            if r.random() < ones:
                s.add(family, within(b, t))
    for _ in range(two):
        t = r.choice(kinds)
        if r.random() < 0.5:
            t += "\n" + r.choice(kinds)
        for _ in range(r.choice([1, 1, 2, 3])):
            t = within(r.choice(bodies), t).rstrip("\n")
        s.add(family + "2", within(r.choice(bodies), t))


def lists(s, r, n, kinds=EXPRS, family="list"):
    """Lists of many, of which one or two are of another kind."""
    plain = ["a", "b", "1", '"s"', "z", "nil", "c.d"]
    for _ in range(n):
        k = r.choice([4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33])
        es = [r.choice(plain) if r.random() < 0.8 else "n%d" % i for i in range(k)]
        for _ in range(r.choice([1, 1, 2])):
            es[r.randrange(k)] = r.choice(kinds)
        sep = r.choice([", ", ", ", ", ", ",", ",\n  ", ", // c\n"])
        form = r.choice(["f(%s)", "f %s", "x = g.h(%s)", "x = g.h %s", "[%s]", "x = [%s,]", "super.m(%s)", "{%s}", "x = {%s,}", "x = %s", "var m =\n  %s", "chain", "lines", "loop", "class", "params", "else", "sum"])
        if form in ("{%s}", "x = {%s,}", "x = %s", "var m =\n  %s"):
            ks = r.sample(["k%d" % i for i in range(40)] + ["init", "A", "été", "_"], k)
            es = ["%s: %s" % (('"%s"' if r.random() < 0.2 else "%s") % x, e) for x, e in zip(ks, es)]
            if form.startswith("var"):
                sep = r.choice(["\n  ", "\n  ", ",\n  ", ", "])
            t = form % sep.join(es) + "\n"
            t = "(" + t[:-1] + ")\n" if t[0] == "{" else t
        elif form == "chain":
            t = "x = " + r.choice(["%s", "%s", "f(%s)"]) % "".join(e + r.choice([" or ", " and ", " + ", " == ", " * ", " < "]) for e in es) + "z\n"
        elif form == "sum":
            t = (" %s " % r.choice(BINARY)).join(es) + "\n"
        elif form == "lines":
            t = "\n".join(es) + "\n"
        elif form == "loop":
            t = r.choice(["while (a)\n", "fun f(p)\n", "if (a)\n", "for (var i; ; )\n", "class A\n m()\n"])
            t += "".join("  " + e + "\n" for e in es) + r.choice(["", "z\n"])
        elif form == "class":
            t = r.choice(["class A\n", "class A < B\n"]) + "".join("  %s%s(%s)\n    %s\n" % (r.choice(["", "", "class "]), r.choice(["init", "m%d" % i]), ", ".join("ab"[:i % 3]), e) for i, e in enumerate(es))
        elif form == "params":
            ps = ["p%d" % i for i in range(k)]
            if r.random() < 0.3:
                ps[r.randrange(k)] = r.choice(["p0", "init", "1", "fun", "", "a b", "_", "x = 1"])
            t = r.choice(["fun f(%s)\n  return p1\n", "x = fun(%s) {\np0 = p1\n}\n", "class A\n  m(%s)\n    p2\n"]) % ", ".join(ps)
        elif form == "else":
            t = "".join("%sif (%s)\n  %s\n" % ("else " if i else "", e, "b%d" % i) for i, e in enumerate(es[:9])) + "else\n  z\n"
        else:
            t = form % sep.join(es) + "\n"
        s.add(family, t)


PAIRS = ["x = {a} or {b}\n", "x = {a} and {b}\n", "{a} + {b}\n", "{a} == {b}\n", "{a} < {b}\n", "f({a}, {b})\n", "f {a}, {b}\n", "x = [{a}, {b}]\n", "x = {p: {a}, q: {b}}\n", "{a}[{b}]\n", "o[{a}] = {b}\n", "{a}[i] = {b}\n", "{a}.p = {b}\n",
         "{a}({b})\n", "{a} {b}\n", "{a} = {b}\n", "if ({a}) {b}\n", "while ({a}) {b}\n", "for ({a}; {b}; )\n  z\n", "for (; {a}; {b}) z\n", "for (var v = {a}; ; {b}) z\n", "if (z) {a}\nelse {b}\n", "{a}\n{b}\n", "print {a}\nreturn {b}\n",
         "var v = {a}\nvar w = {b}\n", "fun f(p)\n  {a}\n  return {b}\n", "class A < B\n  m()\n    {a}\n  class init()\n    {b}\n", "-{a} - {b}\n", "!{a} != {b}\n", "({a}) or ({b})\n", "f({a})({b})\n", "x = fun(p) {\n{a}\nreturn {b}\n}\n", "a * {a} - {b} / c\n"]


def pairs(s, r, n, forms=PAIRS, kinds=EXPRS, family="pair"):
    """Two kinds of expression in one place."""
    all_ = [(f, a, b) for f in forms for a in kinds for b in kinds]
    for f, a, b in r.sample(all_, min(n, len(all_))):
        s.add(family, f.replace("{a}", a).replace("{b}", b))


def deep(r, n, wrong=0.1, pool=None):
    """Constructs of all kinds nested n deep, with declarations before, uses in
    the middle, and both on the way out.  wrong: how often a use may be one that
    its place does not allow, or a name declared twice."""
    pre, post = [], []
    ind = 0
    st = dict(loop=0, fun=False, cls=False, sub=False, init=False)
    names, here = [], set()
    levels = []

    def name():
        if pool:
            return r.choice(pool)
        return "%s%d" % (r.choice(["v", "longer_name", "Q"]), r.randrange(1000))

    def fresh():
        for _ in range(20):
            x = name()
            if x not in here or r.random() < wrong * wrong:
                break
        else:
            x = "u%d" % r.randrange(10 ** 6)
        here.add(x)
        names.append(x)
        return x

    def ref():
        return r.choice(names[-30:] + names[:10] + ["g"]) if names else "g"

    def lines():
        out = []
        for _ in range(r.choice([0, 1, 1, 2])):
            k = r.randrange(10)
            odd = r.random() < wrong
            if k < 2:
                out.append("var %s = %s" % (lambda a: (fresh(), a))(ref()))
            elif k < 4:
                out.append("%s + %s" % (ref(), ref()))
            elif k == 4:
                out.append("%s = %s" % (ref(), ref()))
            elif k == 5 and (st["cls"] or odd):
                out.append(r.choice(["this", "this.p = %s" % ref(), "f(this)"]))
            elif k == 6 and (st["sub"] or odd):
                out.append(r.choice(["super.m", "super.m(%s)" % ref(), "x = super.n"]))
            elif k == 7 and (st["fun"] or odd):
                out.append("return" if st["init"] and not odd else "return " + ref())
            elif k == 8 and (st["loop"] or odd):
                out.append(r.choice(["break", "continue"]))
            elif k == 9:
                out += r.choice([["fun %s()" % fresh(), "  " + ref()], ["class %s" % fresh(), "  m()", "    " + ref()], ["x = fun(p) {}"], ["print %s" % ref()], ["[%s, {p: %s}]" % (ref(), ref())],
                                 ["{", ref(), "}" + ref()], ["if (%s) {" % ref(), "var b = %s" % ref(), "}else {", ref(), "}" + ref()]])
        return [" " * ind + l for l in out]

    for i in range(n):
        pre += lines()
        kind = r.choice(["while", "for", "forv", "if", "else", "fun", "fun", "class", "sub", "lam", "elseif", "braces", "bwhile", "bfun"])
        levels.append((ind, dict(st), here))
        i_ = " " * ind
        step = r.choice([1, 2, 2, 3])
        if kind in ("while", "for", "forv"):
            v = "i%d" % i
            pre.append(i_ + {"while": "while (%s)" % ref(), "for": "for (%s = 0; %s; )" % (ref(), ref()), "forv": "for (var %s = %s; %s; %s = %s)" % (v, ref(), v, v, ref())}[kind])
            if kind == "forv":
                names.append(v)
            post.append([])
            st["loop"] += 1
            here = set()
        elif kind in ("braces", "bwhile"):
            pre.append(i_ + r.choice(["{", "if (%s) {" % ref()]) if kind == "braces" else i_ + "while (%s) {" % ref())
            post.append([i_ + "}" + ref()])
            step = 0
            here = set()
            if kind == "bwhile":
                st["loop"] += 1
        elif kind in ("if", "else", "elseif"):
            pre.append(i_ + "if (%s)" % ref())
            if kind == "elseif":
                pre += [i_ + " " + ref(), i_ + "else if (%s)" % ref()]
            if kind == "else":
                pre += [i_ + " " + ref(), i_ + "else"]
            post.append([])
            here = set()
        else:
            tail = []
            if kind in ("class", "sub"):
                c = fresh()
                pre.append(i_ + "class %s" % c + (" < " + ref() if kind == "sub" else ""))
                ind += step
                m = r.choice(["init", "init", "m", "class init", "class m"])
                for _ in range(r.choice([0, 0, 1, 2])):
                    pre += [" " * ind + r.choice(["n()", "k(a)", "class n()"]), " " * ind + "  " + ref()]
                st.update(cls=True, sub=kind == "sub", init=m == "init")
                for _ in range(r.choice([0, 0, 1])):
                    tail += [" " * ind + "z()", " " * ind + "  " + r.choice(["this", ref()])]
            else:
                st["init"] = False
            st.update(fun=True, loop=0)
            here = set()
            ps = [fresh() for _ in range(r.choice([0, 1, 1, 2, 3, r.randrange(40)]))]
            if kind == "lam":
                pre.append(i_ + r.choice(["x = fun(%s) {", "var l%d = fun(%%s) {" % i, "f(fun(%s) {"]) % ", ".join(ps))
                tail = [i_ + ("})" if "f(fun" in pre[-1] else "}")]
                step = 0
            elif kind == "bfun":
                pre.append(i_ + "fun f%d(%s) {" % (i, ", ".join(ps)))
                tail = [i_ + "}" + ref()]
                step = 0
            elif kind == "fun":
                f = "f%d" % i
                pre.append(i_ + "fun %s(%s)" % (f, ", ".join(ps)))
            else:
                pre.append(" " * ind + "%s(%s)" % (m, ", ".join(ps)))
            post.append(tail)
        ind += step
    st_in = [" " * ind + x for x in r.choice([["%s + %s" % (ref(), ref())], ["x = %s" % ref(), ref()], ["var w = %s" % ref()]])]
    for k in ("this", "super.m", "return", "break", "continue", "return " + ref()):
        ok = {"this": st["cls"], "super.m": st["sub"], "return": st["fun"], "break": st["loop"], "continue": st["loop"]}.get(k.split(" ")[0]) and not (st["init"] and " " in k)
        if r.random() < (0.5 if ok else wrong / 4):
            st_in.append(" " * ind + k)
    out = pre + st_in
    for (i, s_, h), tail in zip(levels[::-1], post[::-1]):
        if r.random() < 0.5:
            out += lines()
        out += tail
        ind, st, here = i, dict(s_), h
        if r.random() < 0.5:
            out += lines()
    return "\n".join(out) + "\n"


# ------------------------------------------------------------ scaled constructs

# A name of every kind in every place a name can be.
NAMEPLACES = ["{n}\n", "x = {n}\n", "{n} = 1\n", "var {n}\n", "var {n} = 1\nx = {n}\n", "var {n} = {n}\n", "fun {n}()\n  return {n}\n", "fun f({n})\n  {n} = 1\n  return {n}\n",
              "fun f()\n  return\n", "fun {n}({n})\n  var a = {n}\n", "{n}()\n", "{n}(a, b)\n", "{n} a, b\n", "{n} 1\n", "{n} -1\n", "a {n}, {n}\n", "a.{n}\n", "a.{n} = 1\n", "a.{n}()\n", "a.{n} b\n",
              "class {n}\n  m()\n    {n}\n", "class A < {n}\n  m()\n    super.m\n", "class {n} < {n}\n  m()\n    1\n", "class A\n  {n}()\n    return 1\n", "class A\n  {n}()\n    return\n",
              "class A\n  {n}()\n    this\n", "class A\n  {n}(a, b)\n    this.{n} = a\n", "class A\n  class {n}()\n    return 1\n", "class A < B\n  {n}()\n    super.{n}\n  class {n}(a)\n    super.{n} = a\n",
              "class A\n  {n}() {\n    fun() {\nreturn {n}\n}\n  }\n", "class A\n  {n}()\n    fun f()\n      return 1\n    return 2\n", "class A\n  {n}()\n    1\n  {n}()\n    2\n",
              "x = {{n}: 1}\n", "x = {a: 1, {n}: {n}, b: 2}\n", "{n}: 1\n", "x = [{n}, {n}]\n", "x = fun({n}) {\n{n}\n}\n", "for (var {n} = 0; {n} < 9; {n} = {n} + 1)\n  {n}\n", "while ({n})\n  break\n",
              "if ({n})\n  {n}\nelse\n  {n}\n", "print {n}\n", "print({n})\n", "return {n}\n", "{n} or {n}\n", "!{n} == -{n}\n", "({n})\n", "{n}\n  {n}\n", "{\n  var {n} = 1\n  {n}\n}\n",
              "fun f()\n  var {n} = 1\n  fun g()\n    return {n}\n  {n} = 2\n", "fun f()\n  var {n}\n  var {n}\n", "fun f({n}, {n})\n  1\n", "{n} {n}\n", "{n}[{n}] = {n}\n", "{n}.{n}.{n}\n", "else {n}\n", "break {n}\n"]


def named(suite, r, names=None, places=None, ones=None, family="named"):
    """The names in the places: all, or of every name some."""
    for n in names or SPECIAL:
        for p in (r.sample(places or NAMEPLACES, ones) if ones else places or NAMEPLACES):
            suite.add(family, p.replace("{n}", n))


def names(n, p="n"):
    return ["%s%d" % (p, i) for i in range(n)]


def nested_lines(n, head, last, step=1):
    return "".join(" " * (i * step) + head(i) + "\n" for i in range(n)) + " " * (n * step) + last + "\n"


SCALED = {
    "args": lambda n: "f(%s)\n" % ", ".join(names(n)),
    "args0": lambda n: "f %s\n" % ", ".join(names(max(n, 1))),
    "argslit": lambda n: "f(%s)\n" % ",".join(str(i) for i in range(n)),
    "params": lambda n: "fun f(%s)\n  1\n" % ", ".join(names(n)),
    "paramsx": lambda n: "var f = fun(%s) {}\n" % ", ".join(names(n)),
    "mparams": lambda n: "class A\n  m(%s)\n    1\n" % ", ".join(names(n)),
    "array": lambda n: "[%s]\n" % ", ".join(names(n)),
    "array,": lambda n: "[%s,]\n" % ", ".join(names(max(n, 1))),
    "map": lambda n: "var m = {%s}\n" % ", ".join("%s: %d" % (x, i) for i, x in enumerate(names(n))),
    "mapv": lambda n: "fun f(a, b, z)\n  var m = {%s, y: z}\n" % ", ".join("%s: %s" % (x, "ab"[i % 2]) for i, x in enumerate(names(max(n, 1)))),
    "arrayv": lambda n: "fun f(a, b, z)\n  [%s, z]\n" % ", ".join("ab"[i % 2] for i in range(max(n, 1))),
    "stmtsv": lambda n: "fun f(a, b, z)\n" + "".join("  %s\n" % ["a", "b = a", "print b", "this_ = a"][i % 4] for i in range(n)) + "  var y = z\n",
    "methodsv": lambda n: "class A < B\n" + "".join("  m%d(a)\n    %s\n" % (i, ["a", "this.x = a", "super.y"][i % 3]) for i in range(max(n, 1))),
    "chainv": lambda n: "fun f(a, b)\n  a" + "".join([".p", "[b]", "(a, g)"][i % 3] for i in range(n)) + "\n",
    "orv": lambda n: "fun f(a, b)\n  " + " or ".join(["a", "b", "g"][i % 3] for i in range(n + 1)) + "\n",
    "plusv": lambda n: "fun f(a, b)\n  " + " + ".join(["a", "b", "g"][i % 3] for i in range(n + 1)) + "\n",
    "elsesv": lambda n: "fun f(a, b)\n  if (a)\n    b\n" + "".join("  else if (a)\n    var c = b\n    c\n" for i in range(min(n, 100))) + "  else\n    b = a\n",
    "mapl": lambda n: "var m =\n" + "".join("  %s: %d\n" % (x, i) for i, x in enumerate(names(max(n, 1)))),
    "mapdup": lambda n: "var m = {%s, n0: 1}\n" % ", ".join("%s: %d" % (x, i) for i, x in enumerate(names(max(n, 1)))),
    "mapdup2": lambda n: "var m = {%s, \"n%d\": 1}\n" % (", ".join("%s: %d" % (x, i) for i, x in enumerate(names(max(n, 1)))), max(n, 1) - 1),
    "stmts": lambda n: "".join("%s\n" % x for x in names(max(n, 1))[:200]) + "a\n" * max(0, n - 200),
    "blockstmts": lambda n: "while (a)\n" + "".join("  a%d = %d\n" % (i % 50, i) for i in range(max(n, 1))),
    "methods": lambda n: "class A\n" + "".join("  m%d(a)\n    %d\n" % (i, i) for i in range(max(n, 1))),
    "or": lambda n: " or ".join(names(n + 1)[:250] + ["z"] * max(0, n - 249)) + "\n",
    "mix": lambda n: "".join("n%d %s " % (i % 100, BINARY[(i * 7) % len(BINARY)]) for i in range(n)) + "z\n",
    "minus": lambda n: " - ".join(["a"] * (n + 1)) + "\n",
    "div": lambda n: " / ".join(["a"] * (n + 1)) + "\n",
    "eq": lambda n: " == ".join(["a"] * (n + 1)) + "\n",
    "lt": lambda n: " < ".join(["a"] * (n + 1)) + "\n",
    "calls": lambda n: "f" + "".join("(%d)" % i for i in range(n)) + "\n",
    "gets": lambda n: "f" + "".join(".p%d" % i for i in range(n)) + "\n",
    "idx": lambda n: "f" + "".join("[%d]" % i for i in range(n)) + "\n",
    "chain": lambda n: "f" + "".join([".p", "[%d]" % i, "(%d)" % i][i % 3] for i in range(n)) + "\n",
    "elseifs": lambda n: "if (a)\n  b\n" + "".join("else if (a%d)\n  b%d\n" % (i, i) for i in range(min(n, 100))) + "else\n  c\n",
    "causes": lambda n: "".join("print )\n" for _ in range(max(n, 1))),
    "scancauses": lambda n: "a @\n" * max(n, 1),
    "rescauses": lambda n: "return 1\nvar ok = 1\n" * max(n, 1),
    "locals": lambda n: "fun f()\n" + "".join("  var %s = %d\n" % (x, i) for i, x in enumerate(names(max(n, 1)))) + "  n0 + n%d\n" % (max(n, 1) - 1),
    "blocklocals": lambda n: "while (a)\n" + "".join("  var %s\n" % x for x in names(max(n, 1))) + "  n0\n",
    "globals": lambda n: "".join("var %s\n" % x for x in names(max(n, 1))) + "n%d\nn0\n" % (max(n, 1) - 1),
    "globals2": lambda n: "".join("var %s\n" % x for x in names(max(n, 1))) + "".join("var %s\n" % x for x in names(max(n, 1))),
    "globuses": lambda n: "".join("%s\n" % x for x in names(max(n, 1))) + "var n0\nn%d\n" % (max(n, 1) - 1),
    "globfuns": lambda n: "".join("fun %s()\n  a\n" % x for x in names(max(n, 1))) + "n0\n",
    "globset": lambda n: "".join("%s = 1\n" % x for x in names(max(n, 1))) + "n0\n",
    "localfuns": lambda n: "fun f()\n" + "".join("  fun %s()\n    1\n" % x for x in names(max(n, 1))),
    "localclasses": lambda n: "fun f()\n" + "".join("  class %s\n    m()\n      1\n" % x for x in names(max(n, 1))),
    "parlocals": lambda n: "fun f(%s)\n" % ", ".join(names(n // 2)) + "".join("  var %s = 1\n" % x for x in names(n - n // 2, "k")) + "  n0\n",
    "siblings": lambda n: "".join("while (a)\n  var x = %d\n  x\n" % i for i in range(max(n, 1))),
}
# These nest, so they stay smaller.
NESTED = {
    "parens": lambda n: "(" * n + "a" + ")" * n + "\n",
    "brackets": lambda n: "[" * n + "]" * n + "\n" if n else "a\n",
    "maps": lambda n: "var x = " + "{a: " * n + "1" + "}" * n + "\n",
    "nots": lambda n: "!" * n + "a\n",
    "minuses": lambda n: "-" * n + "a\n",
    "assigns": lambda n: "".join("n%d = " % i for i in range(n)) + "1\n",
    "juxta": lambda n: "".join("n%d " % i for i in range(n)) + "1\n",
    "argsinargs": lambda n: "f(" * n + ")" * n + "\n",
    "whiles": lambda n: nested_lines(n, lambda i: "while (a)", "break" if n else "b"),
    "fors": lambda n: nested_lines(n, lambda i: "for (var i%d = 0; ; i%d = 1)" % (i, i), "i0 + i%d" % (n - 1) if n else "b", 2),
    "ifs": lambda n: nested_lines(n, lambda i: "if (a%d)" % i, "b", 3),
    "ifs1": lambda n: "if (a) " * n + "b\n",
    "funs": lambda n: nested_lines(n, lambda i: "fun f%d(p%d)" % (i, i), "p0 + f0 + p%d + z" % (n - 1) if n else "b", 2),
    "classes": lambda n: "".join(" " * (2 * i) + "class A%d%s\n" % (i, " < B" if i % 2 else "") + " " * (2 * i + 1) + "m(a)\n" for i in range(n)) + " " * (2 * n) + ("this\n" if n else "b\n"),
    "blocks": lambda n: nested_lines(n, lambda i: "while (a)\n" + " " * (i + 1) + "var x%d = %d" % (i, i), "x0 + x%d + g" % (n - 1) if n else "b"),
    "braces": lambda n: "{" * n + "}" * n + "\n",
    "dedent": lambda n: nested_lines(n, lambda i: "if (a)", "b") + "c\n",
    "dedent2": lambda n: nested_lines(n, lambda i: "if (a)", "b") + " " * (n // 2) + "c\n",
    "loopsfun": lambda n: "".join(" " * i + "while (a)\n" for i in range(n)) + " " * n + "fun f()\n" + " " * n + " b\n" + "".join(" " * i + ("continue\n" if i % 2 else "break\n") for i in range(n, -1, -1)),
    "loopslam": lambda n: "".join(" " * i + "for (;;)\n" for i in range(n)) + " " * n + "x = fun() {\nreturn 1\n}\n" + "".join(" " * i + ("break\n" if i % 2 else "continue\n") for i in range(n, 0, -1)) + "y\n",
    "loopfun": lambda n: "".join(" " * (2 * i) + "while (a)\n" + " " * (2 * i + 1) + "fun f()\n" for i in range(n)) + " " * (2 * n) + "while (b)\n" + " " * (2 * n + 1) + "break\n",
    "loopfun2": lambda n: "".join(" " * (2 * i) + "while (a)\n" + " " * (2 * i + 1) + "fun f()\n" for i in range(n)) + " " * (2 * n) + "break\n",
}
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200,
         253, 254, 255, 256, 257, 258, 300]
SIZES_T = sorted(set(SIZES + list(range(0, 70)) + [90, 110, 150, 191, 192, 193, 250, 251, 252, 400,
                                                    511, 512, 513, 600]))
DEPTHS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 80]
DEPTHS_T = sorted(set(DEPTHS + list(range(0, 40)) + [100, 120, 127, 128, 129, 150]))


def jumbled(text):
    """The same text with the numbered names n0, n1, ... in no order."""
    def name(m):
        i = int(m.group(1))
        return "".join("zqaMbX_k"[(i * 37 + 11) // 8 ** j % 8] for j in range(1 + i * 7 % 5)) + "%d" % (i * 101 % 1009)
    return re.sub(r"(?<![A-Za-z0-9_])n(\d+)(?![A-Za-z0-9_])", name, text)


def scaled(suite, keys, sizes, prefix="scale"):
    for k in keys:
        table = SCALED if k in SCALED else NESTED
        for i, n in enumerate(sizes):
            t = table[k](n)
            j = jumbled(t)
            if j == t or 8 <= n <= 70 or (i + len(k)) % 2 == 0:
                suite.add("%s-%s" % (prefix, k), t, coarse=True)
            if j != t and (8 <= n <= 70 or (i + len(k)) % 2 == 1):
                suite.add("%s-%s" % (prefix, k), j, coarse=True)


def inner(suite, r, keys, sizes, each=4, bodies=BODIES):
    """Long things within others."""
    for k in keys:
        for n in sizes:
            t = (SCALED if k in SCALED else NESTED)[k](n).rstrip("\n")
            for b in r.sample(bodies, each):
                suite.add("inner-" + k, within(b, t), coarse=True)
