"""Calls that never return: sys.exit, parser.error, project functions that always raise."""
import ast
from .util import always_raises

EXITS = {"sys.exit", "builtins.exit", "builtins.quit", "os._exit", "os.abort"}


def noreturn(prj, f):
    def nr(call):
        e = prj.ext_name(call.func, f, f.module)
        if e in EXITS:
            return True
        if isinstance(call.func, ast.Attribute) and call.func.attr in ("error", "exit"):
            b = call.func.value
            if isinstance(b, ast.Name):
                t = prj.lookup(b.id, f, f.module)
                src = None
                if isinstance(t, tuple) and t[0] == "global" and len(t[1].globals.get(t[2], [])) == 1:
                    src = t[1].globals[t[2]][0]
                    src = getattr(src, "value", None)
                elif isinstance(t, tuple) and t[0] == "local":
                    from .consts import single_assignment
                    src = single_assignment(t[1], b.id)
                if isinstance(src, ast.Call):
                    return prj.ext_name(src.func, f, f.module) == "argparse.ArgumentParser"
        gs, exact = prj.callees(call, f, f.module)
        return exact and bool(gs) and all(always_raises(g.body, prj, g) for g in gs)
    return nr
