"""python3 -X utf8 tools/mutants.py [N...]: are the laws (spec/Laws.tla) more than
what the machines do anyway?  Changes a copy of the machines in one place, runs
a check on it and reports which law or invariant TLC finds broken.  Not a check
of the code: it judges the specification."""
import os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUTANTS = [
    ("Scanner", "IN  IF b = top THEN", "IN  IF b = top \\/ b = 1 THEN", "C02"),
    ("Scanner", "!.cont = TRUE, !.abut", "!.abut", "C03"),
    ("Scanner", "THEN RunEnd(IsDigit, s, a + 1) ELSE a", "THEN a + 2 ELSE a", "C05"),
    ("Scanner", "two == c \\in MayTakeEqual /\\ At", "two == c \\in MayTakeEqual \\ {\"!\"} /\\ At", "C05"),
    ("Parser", "Bind(Bin(g, i + 1, lv + 1), LAMBDA r :\n             BinRest", "Bind(Bin(g, i + 1, lv), LAMBDA r :\n             BinRest", "C08"),
    ("Parser", "THEN Bind(Unary(g, i + 1), LAMBDA r", "THEN Bind(Bin(g, i + 1, 6), LAMBDA r", "C08"),
    ("Parser", "<<\"Call\", f, r.v, At1(g, i)>>))\n    [] OTHER", "<<\"Call\", f, r.v, At1(g, i-1)>>))\n    [] OTHER", "C09"),
    ("Parser", "LET es == Append(acc, <<key, r.v>>) IN", "LET es == <<<<key, r.v>>>> \\o acc IN", "C10"),
    ("Parser", "IN  Ok(IF init.v = <<>> THEN w", "IN  Ok(IF init.v = <<>> \\/ inc.v = <<>> THEN w", "C11"),
    ("Parser", "Block([g EXCEPT !.loop = FALSE], i2 + 2", "Block(g, i2 + 2", "C12"),
    ("Resolver", "op.o, op, Depth(rs) - j, Index(rs.sc[j], op.x) - 1", "op.o, op, Depth(rs) - j, Index(rs.sc[j], op.x)", "C13"),
    ("Resolver", "\\A q \\in in : q <= j", "\\A q \\in in : q >= j", "C13"),
    ("Resolver", "ELSE IF Globally(rs) THEN Enter(rs, op.x, \"def\") ELSE Again(rs, op)", "ELSE Enter(rs, op.x, \"def\")", "C15"),
    ("Resolver", "IF op.x = \"this\" /\\ rs.cl = <<>>", "IF op.x = \"this\" /\\ rs.fn = <<>>", "C16"),
    ("Resolver", "op.a = \"value\"\n", "op.a = \"none\"\n", "C16"),
    ("Resolver", "ELSE IF Last(rs.cl) # \"sub\"", "ELSE IF rs.cl[1] # \"sub\"", "C16"),
]


def main():
    for n in [int(a) for a in sys.argv[1:]] or range(len(MUTANTS)):
        module, old, new, prop = MUTANTS[n]
        d = tempfile.mkdtemp(prefix="mutant")
        try:
            for x in ("spec", "tools", "harness"):
                shutil.copytree(os.path.join(HERE, x), os.path.join(d, "verif", x))
            os.symlink("/repo", os.path.join(d, "repo"))
            for x in ("known-findings.txt", "properties.jsonl"):
                shutil.copy(os.path.join(HERE, x), os.path.join(d, "verif"))
            for x in ("evidence", "replay"):
                os.mkdir(os.path.join(d, "verif", x))
            os.symlink(os.path.join(HERE, "build"), os.path.join(d, "verif", "build"))
            p = os.path.join(d, "verif", "spec", module + ".tla")
            with open(p) as f:
                s = f.read()
            if s.count(old) != 1:
                print(n, prop, module, "does not apply")
                continue
            with open(p, "w") as f:
                f.write(s.replace(old, new))
            r = subprocess.run(["tools/check", prop], cwd=os.path.join(d, "verif"), capture_output=True, text=True)
            m = re.search(r"Invariant (\w+) is violated", r.stdout)
            print(n, prop, module, m.group(1) if m else "exit status %d, no invariant" % r.returncode, flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
