#!/usr/bin/python3
"""writes sa/known_funcs.txt: the functions the rules were reviewed with (run only after such a review)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.core import Project
from sa import inline
p = Project(expand=False)
names = sorted({q for m in p.modules.values() for q, *_ in inline.quals(m.tree, m.name)})
import ast      # noqa: E402
for m in p.modules.values():
    for pre, body in [(m.name, m.tree.body)] + [(m.name + "." + c.name, c.body) for c in m.tree.body if isinstance(c, ast.ClassDef)]:
        names += [pre + "." + t.id for s in body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
names = sorted(set(names))
with open(os.path.join(inline.HERE, "known_funcs.txt"), "w") as f:
    f.write("\n".join(names) + "\n")
print(len(names))
