#!/usr/bin/env python3
"""l.py LIB... [-f REGEX] [-r RLIMIT]: verify lib files alone (proof lemmas of the last LIB)"""
import sys, os, re, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
args = sys.argv[1:]
rl = "10"
if "-r" in args:
    i = args.index("-r"); rl = args[i + 1]; del args[i:i + 2]
HEAD = "#![allow(unused, nonstandard_style)]\n#![verifier::exec_allows_no_decreases_clause]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::core::*;\nuse core::cmp::Ordering;\nuse core::ops::*;\nuse std::collections::HashMap;\nuse vstd::std_specs::hash::*;\nverus! {\nglobal size_of usize == 8;\n"
mods, txt = [], ""
for n, t in run.lib_text(args):
    txt += "// LIB " + n + "\n" + t + "\n"
for nm, fl in [("KnotVector", "(pub Vec<R>);"), ("NurbsCurve", "{ pub control_points: Vec<OPoint>, pub degree: usize, pub knots: KnotVector }"), ("NurbsSurface", "{ pub control_points: Vec<Vec<OPoint>>, pub u_degree: usize, pub v_degree: usize, pub u_knots: KnotVector, pub v_knots: KnotVector }")]:
    if "struct %s " % nm not in txt and "OPoint" in txt: txt += "pub struct %s%s\n" % (nm, fl)
if "wfs(" in txt:
    t = open("contracts/30_surface.cv").read(); i = t.index("spec:", t.index("struct NurbsSurface")); txt += t[i + 5:t.index("\nfn ", i)]
if "mult_of(" in txt:
    t = open("contracts/10_knots.cv").read(); i = t.index("spec:", t.index("struct KnotMultiplicity")); txt += "pub struct KnotMultiplicity { pub multiplicity: usize, pub knot: R }\n" + t[i + 5:t.index("\nfn ", i)]
vv = os.environ.get("VF")
src = HEAD + txt + "\n}\nfn main() {}\n"
open("/tmp/l.rs", "w").write(src)
p = subprocess.run(["timeout", "150", "verus", "--rlimit", rl, *(["--verify-root", "--verify-function", vv] if vv else []), "--multiple-errors", "5", "/tmp/l.rs"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=run.dev_env(), text=True)
o = p.stdout
o = re.sub(r"(?m)^note: .*\n(?:.*\n)*?\n", "", o)
print(o[-6000:])
