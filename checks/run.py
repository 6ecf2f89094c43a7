import importlib
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '/repo')


def go():
    import os
    if os.environ.get("SYMX_COV"):       # development aid: record executed lines
        from tools.cov import start
        global DUMP
        DUMP = start(os.environ["SYMX_COV"])
    prop = sys.argv[1].upper()
    sys.argv = [sys.argv[0], sys.argv[2]]
    from symx.check import main
    try:
        mod = importlib.import_module("checks." + prop.lower())
    except Exception as e:
        from symx.check import Checker, in_repo
        import traceback
        traceback.print_exc()
        if in_repo(e):
            ck = Checker(prop, sys.argv[1])
            ck.violate("import of the code under test", {"exception": repr(e)[:400]})
            ck.finish()
            sys.exit(1)
        sys.exit(2)
    main(prop, mod.run, getattr(mod, "SHARDS", None))


go()
