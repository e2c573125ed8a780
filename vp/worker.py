"""Worker process: executes symbolic ('sym') or concrete ('con') contract tasks."""
import json
import os
import sys
import time
import resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup(mode):
    sys.path[:0] = [VERIF]
    repo = os.environ.get("VP_REPO", "/repo")
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    sys.setrecursionlimit(20000)
    if mode == "sym":
        from vp import loader
        loader.install()
        from vp import patches
        import opinf
        patches.apply(opinf)
    else:
        sys.path.insert(0, os.path.join(repo, "src"))
        import opinf
    assert os.path.realpath(opinf.__file__ if mode == "con" else opinf.__file__).startswith(
        os.path.realpath(repo)), opinf.__file__
    return opinf


def monitor():
    """record which functions of /repo are executed"""
    repo = os.path.realpath(os.environ.get("VP_REPO", "/repo")) + "/src/"
    seen = set()
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "vp")

    def start(code, off):
        f = code.co_filename
        if f.startswith(repo):
            seen.add(f[len(repo):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)

    def take():
        s = sorted(seen)
        seen.clear()
        mon.restart_events()
        return s
    return take


def main():
    mode = sys.argv[1]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    setup(mode)
    from vp import harness
    loaded = set()
    take = monitor()
    take()
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        t = json.loads(line)
        if t["prop"] not in loaded:
            harness.load_contracts(t["prop"])
            loaded.add(t["prop"])
        c = harness.REGISTRY[(t["prop"], t["name"])]
        case = list(c.tasks())[t["case"]]
        t0 = time.time()
        try:
            if mode == "sym":
                from vp import shim
                shim.ASSUMED.clear()
                r = harness.run_symbolic(c, case, t["budget"], t.get("fixed"))
            else:
                r = harness.run_concrete(c, case, t["trials"], t["budget"], t["seed"], t.get("hints"), t.get("only"), t.get("known") or ())
        except MemoryError:
            r = {"error": "out of memory"}
        except BaseException as ex:
            import traceback
            r = {"error": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-2000:]}
        r["funcs"] = take()
        r["wall"] = time.time() - t0
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
