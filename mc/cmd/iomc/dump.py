"""Reads the files named on stdin with the shipped readers and prints what they
return, one JSON object a line."""
import contextlib, io, json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
import numpy as np

def plain(x):
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "vals": [float(v) for v in x.reshape(-1)]}
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    return str(x)

# All of it first: exit(), which the readers call, closes the input.
for line in sys.stdin.read().splitlines():
    kind, path = line.rstrip("\n").split(" ", 1)
    out = {}
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink):
            if kind == "grid":
                import gotetra
                hd = gotetra.read_header(path)
                out["text"] = str(hd)
                for part in ("type", "cosmo", "render", "loc"):
                    out[part] = {k: plain(v) for k, v in vars(getattr(hd, part)).items()}
                out["top"] = {"dim": plain(hd.dim), "pw": plain(hd.pw), "axis": plain(hd.axis), "version": hd.version}
                out["grid"] = plain(gotetra.read_grid(path))
            elif kind == "script":
                import runpy
                argv, sys.argv = sys.argv, ["gotetra.py", path]
                try:
                    runpy.run_path(argv[1] + "/gotetra.py", run_name="__main__")
                except SystemExit as e:
                    if e.code:
                        raise
                finally:
                    sys.argv = argv
                    out["text"] = sink.getvalue()
            else:
                import gtet
                f = gtet.File(path)
                out["sheet"] = {k: plain(v) for k, v in vars(f).items()}
    except (Exception, SystemExit) as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    out["printed"] = sink.getvalue()
    print(json.dumps(out), flush=True)
