"""dev tool: lines of /repo/feax executed by a check (run under SYMX_COV=<dir>)"""
import atexit, os, sys, json
def start(d):
    hits = {}
    m = sys.monitoring
    m.use_tool_id(3, "cov")
    def line(code, n):
        f = code.co_filename
        if "/repo/feax/" in f:
            hits.setdefault(f.split("/repo/")[-1], set()).add(n)
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    def dump():
        os.makedirs(d, exist_ok=True)
        json.dump({k: sorted(v) for k, v in hits.items()}, open(f"{d}/{os.getpid()}.json", "w"))
    return dump
