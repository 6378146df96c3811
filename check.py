#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   decides one property on /repo's current sources
   check.py --selfcheck                          runs every check's examples (broken and correct snippets)
   check.py --all                                every property, one line each"""
import importlib, os, shutil, sys, tempfile, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)
from sa.core import Project, AnchorLost      # noqa: E402
from sa.consts import Folder                 # noqa: E402
from sa.report import Report, conclude       # noqa: E402


def all_checks():
    d = os.path.join(HERE, "sa", "checks")
    return sorted(f[:-3] for f in os.listdir(d) if f.startswith("P") and f.endswith(".py"))


def load(pid):
    return importlib.import_module("sa.checks." + pid)


def examples(mod, pid):
    """every example snippet must be reported, or stay quiet, as it says.  Returns a list of failures"""
    bad, n = [], 0
    for name, files, want in getattr(mod, "EXAMPLES", []):
        d = tempfile.mkdtemp(prefix="sldrsa")
        try:
            os.makedirs(os.path.join(d, "lib", "sldr"))
            for p, src in files.items():
                p = os.path.join(d, p)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w", encoding="utf-8") as f:
                    f.write(src)
            prj = Project(d, expand=False)
            prj.example = True
            rep = Report(pid)
            mod.run(prj, Folder(prj), rep)
            got = sorted(f["rule"] for f in rep.findings.values())
            if (want is True and not got) or (want is False and got) or (isinstance(want, list) and got != sorted(want)) or (isinstance(want, str) and set(got) != {want}):
                bad.append("%s: wanted %s got %s" % (name, want, [f["key"] for f in rep.findings.values()]))
            n += 1
        except Exception:
            bad.append("%s: %s" % (name, " | ".join(traceback.format_exc().splitlines()[-4:])))
        finally:
            shutil.rmtree(d)
    return bad, n


def run(pid, tier):
    mod = load(pid)
    rep = Report(pid, tier)
    try:
        bad, n = examples(mod, pid)
        if bad:
            print("ERROR self test of %s failed: %s" % (pid, "\n".join(bad)))
            return 2
        rep.count("self_test_examples", n)
        prj = Project()
        prj.example = False
        mod.run(prj, Folder(prj), rep)
    except AnchorLost as e:
        print("ERROR property=%s anchor lost: %s" % (pid, e))
        return 2
    except SyntaxError as e:
        print("ERROR property=%s cannot parse: %s" % (pid, e))
        return 2
    except Exception:
        # a construct the analysis cannot handle is not a violation: what was found so far counts, the rest is recorded as not analysed
        if os.environ.get("SLDR_STRICT"):
            raise
        at = " | ".join(traceback.format_exc().splitlines()[-3:])
        rep.note("INCOMPLETE: the analysis stopped before the end at a construct it does not know (%s)" % at)
        rep.count("analysis_incomplete")
        print("NOTE property=%s analysis incomplete: %s" % (pid, at))
    return conclude(rep, mod.TECHNIQUE, mod.NOTE)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    if argv and argv[0] == "--selfcheck":
        rc, total = 0, 0
        for pid in all_checks():
            bad, n = examples(load(pid), pid)
            total += n
            for b in bad:
                print("FAILED", pid, b)
                rc = 1
        print("selfcheck: %d checks, %d examples" % (len(all_checks()), total))
        return rc
    if argv and argv[0] == "--all":
        rc = 0
        for pid in all_checks():
            rc = max(rc, run(pid, tier))
        return rc
    return run(argv[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
