#!/usr/bin/env python3
"""show.py FILE IMP[/TRAIT] NAME...  : print what the extractor makes of functions (development)
   show.py scan                      : every function of /repo/src, extracted or the reason why not"""
import sys, json, subprocess, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
EX = HERE + "/../extract/target/debug/cvextract"
def ex(spec):
    json.dump(spec, open("/tmp/show.json", "w"))
    return json.loads(subprocess.run([EX, os.environ.get("CV_REPO", "/repo"), "/tmp/show.json"], stdout=subprocess.PIPE, text=True, check=True).stdout)
if sys.argv[1] == "scan":
    spec = []
    for d, _, fs in os.walk("/repo/src"):
        for f in fs:
            if not f.endswith(".rs"): continue
            p = os.path.join(d, f); imp = tr = ""
            for ln in open(p):
                if ln.startswith("mod tests") or "#[cfg(test)]" in ln: break
                if ln.startswith("impl"):
                    h = ln[4:].rstrip("{ \n")
                    if h.startswith("<"):
                        k = d_ = 0
                        while True:
                            d_ += {"<": 1, ">": -1}.get(h[k], 0) if not (h[k] == ">" and h[k-1] == "-") else 0
                            k += 1
                            if d_ == 0 or k >= len(h): break
                        h = h[k:]
                    tr = ""
                    if " for " in h:
                        tr, h = h.split(" for ", 1); tr = re.match(r"[\w:]+", tr.strip()).group(0).split("::")[-1]
                    imp = (re.match(r"&?(?:'a )?([\w]+)", h.strip()) or re.match(r"()", "")).group(1)
                m = re.match(r"(\s*)(?:pub(?:\(crate\))? )?fn (\w+)", ln)
                if m:
                    i = imp if m.group(1) else ""
                    spec.append({"id": "%s %s/%s %s" % (p[10:], i, tr, m.group(2)), "file": p[10:], "imp": i, "tr": tr if i else "", "frag": "", "name": m.group(2), "kind": "fn"})
    for x in ex(spec):
        print(x["id"], "->", x.get("error", "ok")[:int(os.environ.get("W", "150"))])
else:
    f, imp = sys.argv[1:3]
    imp, _, tr = imp.partition("/")
    frag = os.environ.get("FRAG", "")
    for x in ex([{"id": n, "file": f, "imp": imp if imp != "-" else "", "tr": tr, "frag": frag, "name": n, "kind": "fn"} for n in sys.argv[3:]]):
        print("#", x["id"], x.get("error", ""))
        if "body" in x:
            print(x["self"], [(p["name"], p["ty"]) for p in x["params"]], "->", x["ret"], "loops", x["loops"])
            print(x["body"])
