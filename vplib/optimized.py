"""Solving in another Python process that runs with -O (no assertions, __debug__ is False)."""
import json
import os
import subprocess
import sys

_SERVER = []


def solve(abbr, inst, single, minimize_K):
    """('ok', solution) or ('error', what)"""
    if not _SERVER or _SERVER[0].poll() is not None:
        _SERVER[:] = [subprocess.Popen([sys.executable, "-O", os.path.abspath(__file__)], stdin=subprocess.PIPE,
                                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)]
    p = _SERVER[0]
    p.stdin.write(json.dumps([abbr, inst, single, minimize_K]) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        return "error", "the process ended"
    return tuple(json.loads(line))


def serve():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from vplib import boot
    boot.setup_path()
    from vplib import gen, solve as s
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        abbr, inst, single, mk = json.loads(line)
        try:
            pts, D, d, C, L, st, wtt = gen.solver_args(inst)
            r = "ok", [int(x) for x in s.algorithm(abbr)[3](pts, D, d, C, L, st, wtt, single, mk) or []]
        except Exception as e:
            r = "error", repr(e)
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    serve()
