#!/usr/bin/env python3
# development aid: try.py HARNESS 'q1|q2' MAXV [-D...]  : one run, native output of the first violations
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from symlib import *
caps = dict(Tree.CAPS)
for a in sys.argv[4:]:
    if a.startswith("cap:"): k, v = a[4:].split("="); caps[k] = int(v)
t = Tree(caps); o = Obj(t)
defs = (['-DQUERIES=' + ",".join('"%s"' % x for x in sys.argv[2].split("|"))] if sys.argv[2] else []) + [a for a in sys.argv[4:] if not a.startswith("cap:")]
b = o.link_sym(HAR + "/" + sys.argv[1], t.query_c(), defs=defs, concrete=t.parser_c() + t.dfa_cpp())
st = run(b, time_s=int(os.environ.get("T", "100")), maxv=int(sys.argv[3]))
print("paths", st["paths"], "viol", st["violations"], "known", st["known"], "complete", not st["timeout"] and not st["incomplete"], st["wall_s"], {m[1] for m in st["engine_msgs"]})
if st["viol"]:
    n = o.link_native(HAR + "/" + sys.argv[1], t.query_c() + t.parser_c() + t.dfa_cpp(), defs=defs)
    seen = {}
    for v in sorted(st["viol"], key=lambda v: len(v[2])):
        k = (v[0], v[1]); seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2: continue
        r = replay(n, v[2]); i0 = r[1].find("chunk:"); ls = [l for l in r[1][max(0, i0):].splitlines() if not re.match(r"thread \d|The execution|worker autom|combiner|start reproc|the \d+th unit|stream part|file part", l)]
        print("==", v[0], v[1], r[0]); print("\n".join(ls[:int(os.environ.get("L", "16"))]))
    print(seen)
