import glob, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build_harness()
vlib.build_cli()
vlib.build_wasm()
spec = os.path.join(vlib.VERIF, "spec")
for m in sorted(glob.glob(os.path.join(spec, "*.tla"))):
    r = subprocess.run(["tla-sany", m], cwd=spec, capture_output=True, text=True)
    bad = r.returncode != 0 or "*** Errors" in r.stdout or "Could not parse" in r.stdout
    print(os.path.basename(m), "DOES NOT PARSE" if bad else "parses")
    if bad:
        print(r.stdout[-2000:])
        sys.exit(1)
