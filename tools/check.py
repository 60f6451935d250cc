"""python3 -X utf8 tools/check.py C02: decides a property (see ../DESIGN.md)."""
import os, sys, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks


def main():
    prop = sys.argv[1]
    check = vlib.Check(prop)
    try:
        getattr(checks, prop.lower())(check)
        code = check.finish()
    except vlib.ToolError as e:
        print("check error: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        import shutil
        shutil.rmtree(check.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


# Deep trees need room.
sys.setrecursionlimit(200000)
threading.stack_size(1 << 30)
t = threading.Thread(target=main)
t.start()
t.join()
