"""Deductive engine: extraction, contracts, Verus. See DESIGN.md.

run(prop, tier, outdir, env) -> dict with obligations, discharged, failed, undecided, ...
Command line:  run.py PROP|all [--emit FILE] [--only FN]   (development)
               run.py baseline                              (rewrites baseline.json)
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CV_REPO", "/repo")
CON = os.path.join(HERE, "contracts")
LIB = os.path.join(HERE, "lib")
BASE = os.path.join(HERE, "baseline.json")
WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


# ---------------------------------------------------------------- contract files
class Fn:
    def __init__(self, id):
        self.id = id
        self.file = self.imp = self.tr = self.frag = self.header = ""
        self.kind = "fn"
        self.props, self.libs, self.structs = [], [], []
        self.ret = "r"
        self.spec = ""
        self.loops, self.at, self.attrs = {}, {}, ""
        self.rename = ""
        self.sigret = ""
        self.subst, self.types = [], []
        self.deps = []
        self.skip = []
        self.trusted = ""

    @property
    def name(self):
        return self.id.split("::")[-1].split("#")[0]


def parse_contracts():
    fns = {}
    order = []
    for f in sorted(os.listdir(CON)):
        if not f.endswith(".cv"):
            continue
        cur, block, defaults = None, None, {}
        for ln in open(os.path.join(CON, f)):
            ln = ln.rstrip("\n")
            if not ln.strip():
                continue
            if ln.startswith("//"):
                continue
            if ln[0] not in " \t":
                block = None
                k, _, v = ln.partition(" ")
                v = v.strip()
                if k == "defaults":
                    defaults = dict(x.split("=", 1) for x in v.split())
                elif k in ("fn", "struct", "external"):
                    cur = Fn(v)
                    cur.kind = k
                    cur.file = defaults.get("file", "")
                    cur.imp = defaults.get("imp", "")
                    cur.libs = [x for x in defaults.get("libs", "").split(",") if x]
                    cur.src = f
                    fns[v] = cur
                    order.append(v)
                elif k in ("file", "imp", "tr", "ret", "attrs", "header", "rename", "sigret", "frag", "trusted"):
                    setattr(cur, k, v)
                elif k == "props":
                    cur.props = v.split()
                elif k == "libs":
                    cur.libs = cur.libs + v.split()
                elif k == "deps":
                    cur.deps = v.split()
                elif k == "skip":
                    # same-named methods of other types that the body does not call (a wrong entry leaves the call unresolved)
                    cur.skip = v.split()
                elif k == "noimp":
                    cur.imp = ""
                elif k == "ty":
                    cur.types.append(v.split(None, 1))
                elif k == "subst":
                    cur.subst.append(tuple(x.strip() for x in v.split("=>")))
                elif k == "spec:":
                    block = ("spec",)
                elif k == "loop":
                    block = ("loop", v.rstrip(":"))
                    cur.loops[block[1]] = ""
                elif k == "at":
                    block = ("at", v.rstrip(":"))
                    cur.at.setdefault(block[1], "")
                else:
                    raise SystemExit("%s: bad line %r" % (f, ln))
            else:
                if block[0] == "spec":
                    cur.spec += ln + "\n"
                elif block[0] == "loop":
                    cur.loops[block[1]] += ln + "\n"
                else:
                    cur.at[block[1]] += ln + "\n"
    return fns, order


def lib_text(names):
    """lib files in dependency order"""
    out, seen = [], set()

    def add(n):
        if n in seen:
            return
        seen.add(n)
        t = open(os.path.join(LIB, n + ".rs")).read()
        m = re.match(r"// needs:(.*)", t)
        if m:
            for d in m.group(1).split():
                add(d)
        out.append((n, t))

    add("base")
    for n in names:
        add(n)
    return out


# ---------------------------------------------------------------- extraction
def build_extract(env):
    d = os.path.join(HERE, "extract")
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("extractor does not build: " + p.stdout[-2000:])
    return os.path.join(d, "target", "debug", "cvextract")


def extract(fns, env, tmp):
    exe = build_extract(env)
    spec = [{"id": f.id, "file": f.file, "imp": f.imp, "tr": f.tr, "frag": f.frag, "name": f.name, "kind": f.kind} for f in fns.values() if f.kind != "external"]
    sp = os.path.join(tmp, "spec.json")
    json.dump(spec, open(sp, "w"))
    p = subprocess.run([exe, REPO, sp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise RuntimeError("extractor failed: " + p.stderr[-2000:])
    return {x["id"]: x for x in json.loads(p.stdout)}


# ---------------------------------------------------------------- assembly
def contract_words(f):
    t = f.spec + "".join(f.loops.values()) + "".join(f.at.values())
    return set(WORD.findall(re.sub(r"//.*", "", t))) | {k.split("_", 1)[1].rsplit("_", 1)[0] for k in f.at if k.startswith("let_")} | {a for a, _ in f.types}


def anchor(f, ex, base):
    """None if the contract still fits the function, else the reason; plus renaming"""
    if "error" in ex:
        return ex["error"], {}
    b = base.get(f.id)
    if b is None:
        return None, {}
    if ex["loops"] != b["loops"] and f.loops:
        return "loop structure changed (%d loops, contract written for %d)" % (ex["loops"], b["loops"]), {}
    if ex["self"] != b["self"] or [p["ty"] for p in ex["params"]] != [p["ty"] for p in b["params"]] or ex["ret"] != b["ret"]:
        return "signature changed", {}
    words = contract_words(f)
    old = [p["name"] for p in b["params"]] + b["bindings"]
    new = [p["name"] for p in ex["params"]] + ex["bindings"]
    ren = {}
    # parameters by position
    for p, q in zip(b["params"], ex["params"]):
        if p["name"] != q["name"]:
            ren[p["name"]] = q["name"]
    used = [w for w in old if w in words]
    if all((ren.get(w, w) in new) for w in used):
        return None, ren
    if len(old) != len(new):
        return "a name used by the contract is gone", {}
    for a, c in zip(old, new):
        if ren.get(a, c) != c:
            return "names used by the contract are ambiguous", {}
        if a != c:
            ren[a] = c
    return None, ren


def rn(text, ren):
    if not ren:
        return text
    return WORD.sub(lambda m: ren.get(m.group(0), m.group(0)), text)


MARK = re.compile(r'^[ \t]*__cv!\(\s*"([^"]*)"\s*\);[ \t]*\n', re.M)
LOOP = re.compile(r'\{\s*__cv_loop!\(\s*"(\d+)"\s*\);')


def body_text(f, ex, ren):
    t = ex["body"]
    used = set()

    def mark(m):
        k = m.group(1)
        # let-markers are keyed by the original name
        if k.startswith("let_") and ren:
            for a, c in ren.items():
                if k.startswith("let_%s_" % c):
                    k = k.replace("let_%s_" % c, "let_%s_" % a, 1)
        if k in f.at:
            used.add(k)
            return rn(f.at[k], ren)
        return "__CV_SEP__\n" if k.startswith("after_") else ""

    t = MARK.sub(mark, t)

    def loop(m):
        k = m.group(1)
        if k in f.loops:
            used.add("L" + k)
            return "\n" + rn(f.loops[k], ren) + "{"
        return "{"

    t = LOOP.sub(loop, t)
    t = re.sub(r"__CV_SEP__\n(\s*)\{", r"assert(true);\n\1{", t).replace("__CV_SEP__\n", "")
    lost = [k for k in f.at if k not in used] + ["loop " + k for k in f.loops if "L" + k not in used]
    for a, c in f.types:
        a = ren.get(a, a)
        t, n = re.subn(r"\blet (mut )?%s = (?!&)" % re.escape(a), lambda m: "let %s%s: %s = " % (m.group(1) or "", a, c), t)
        if n == 0 and not re.search(r"\blet (mut )?%s: " % re.escape(a), t):
            lost.append("type of " + a)
    for a, c in f.subst:
        if a not in t:
            lost.append("subst " + a)
        t = t.replace(a, c)
    return t, lost


LIVES = set()  # structs holding references


def emit_fn(f, ex, ren, body):
    """body None -> external_body (contract assumed)"""
    ps = ([ex["self"]] if ex["self"] else []) + ["%s%s: %s" % ("mut " if (p["mut"] and body) else "", p["name"], p["ty"]) for p in ex["params"]]
    nm = f.rename or f.name
    ret = f.sigret or ex["ret"]
    sig = "%sfn %s(%s)" % ("" if f.header else "pub ", nm, ", ".join(ps))
    if ret:
        sig += " -> (%s: %s)" % (f.ret, ret)
    s = ""
    if body is None:
        s += "#[verifier::external_body]\n"
    elif f.attrs:
        s += f.attrs + "\n"
    s += sig + "\n" + rn(f.spec, ren) + (body if body is not None else "{ unimplemented!() }") + "\n"
    if f.header:
        return f.header + "\n" + s + "}\n"
    if f.imp:
        return "impl %s%s {\n%s}\n" % (f.imp, "<'_>" if f.imp in LIVES else "", s)
    return s


def emit_vac(f, ex, ren, i):
    """a proof-mode twin with the same precondition that claims false: it has to fail"""
    req = re.split(r"\bensures\b|\bdecreases\b", rn(f.spec, ren))[0]
    req = re.sub(r"\bno_unwind\b", "", req)
    if "requires" not in req:
        return None
    ps = []
    if ex["self"]:
        ps.append(("self_: %s" if "&" not in ex["self"] else "self_: &%s") % f.imp)
    req = re.sub(r"\bold\(\s*(\w+)\s*\)", r"\1", req)
    req = re.sub(r"\bself\b", "self_", req)
    for p in ex["params"]:
        ty = p["ty"].replace("& mut", "&")
        ps.append("%s: %s" % (p["name"], ty))
    return "proof fn __vac_%d(%s)\n%s ensures false,\n{ }\n" % (i, ", ".join(ps), req)


def cone(fns, ex, prop):
    """functions whose body is verified for prop: those listing it, plus every contracted function they call"""
    byname = {}
    for f in fns.values():
        if f.kind in ("fn", "external"):
            byname.setdefault(f.rename or f.name, []).append(f)
            byname.setdefault(f.name, []).append(f)
    todo = [f for f in fns.values() if f.kind == "fn" and (prop == "all" or prop in f.props)]
    seen = {}
    while todo:
        f = todo.pop()
        if f.id in seen:
            continue
        seen[f.id] = f
        e = ex.get(f.id, {})
        for n in set(e.get("methods", [])) | set(f.deps):
            for g in byname.get(n, []):
                if g.id not in seen and g.id not in f.skip:
                    todo.append(g)
        # a call by path names its type
        for c in e.get("calls", []):
            q = c.split("::")
            for g in byname.get(q[-1], []):
                if g.id not in seen and (g.imp == q[-2] if len(q) > 1 else not g.imp or g.kind == "external"):
                    todo.append(g)
        for g in fns.values():
            if g.header and g.imp in (f.imp, ) and g.id not in seen and g.kind == "fn":
                todo.append(g)
            # operator impls of the types mentioned
            if g.header and g.id not in seen and g.kind == "fn" and g.imp and g.imp in json.dumps(e):
                todo.append(g)
    return [fns[i] for i in fns if i in seen]


def assemble(fns, ex, sel, lost, base, vac=False):
    libs = []
    for f in sel:
        for l in f.libs:
            if l not in libs:
                libs.append(l)
    parts = []
    # structs mentioned anywhere, and the libs they need
    structs = [f for f in fns.values() if f.kind == "struct"]
    chosen, grew = [], True
    while grew:
        grew = False
        ltext = lib_text(libs)
        alltext = "\n".join(t for _, t in ltext) + json.dumps([ex.get(f.id, {}) for f in sel]) + "".join(f.spec for f in sel) + "".join(ex[s.id].get("text", "") + s.spec for s in chosen)
        for s in structs:
            if s not in chosen and re.search(r"\b%s\b" % s.name, alltext):
                chosen.append(s)
                libs += [l for l in s.libs if l not in libs]
                grew = True
    # libs with struct-specific text live in the struct's contract (spec block)
    out = []
    for n, t in ltext:
        out.append(("lib:" + n, t))
    for s in structs:
        if s in chosen:
            e = ex[s.id]
            if "error" in e:
                return None, "struct %s: %s" % (s.name, e["error"])
            out.append(("struct:" + s.name, e["text"] + "\n" + s.spec))
            if e.get("life"):
                LIVES.add(s.name)
    k = 0
    for f in sel:
        if f.kind == "external":
            out.append(("ext:" + f.id, f.spec))
            continue
        if f.id in lost and "error" in ex.get(f.id, {"error": 1}):
            e = base.get(f.id)
            if e is None:
                continue
            out.append(("assumed:" + f.id, emit_fn(f, e, {}, None)))
            continue
        e = ex[f.id]
        why, ren = anchor(f, e, base)
        if f.id in lost:
            b = base.get(f.id, e)
            out.append(("assumed:" + f.id, emit_fn(f, b, {}, None)))
        else:
            bt, _ = body_text(f, e, ren)
            out.append(("fn:" + f.id, emit_fn(f, e, ren, None if vac else bt)))
            if vac:
                v = emit_vac(f, e, ren, k)
                if v:
                    out.append(("vac:" + f.id, v))
        k += 1
    text, index, line = "", [], 1
    head = "#![allow(unused, nonstandard_style)]\n#![verifier::exec_allows_no_decreases_clause]\nuse vstd::prelude::*;\nuse vstd::std_specs::ops::*;\nuse vstd::std_specs::cmp::*;\nuse vstd::std_specs::core::*;\nuse core::cmp::Ordering;\nuse core::ops::*;\nuse std::collections::HashMap;\nuse vstd::std_specs::hash::*;\nverus! {\nglobal size_of usize == 8;\n"
    text = head
    line = head.count("\n") + 1
    bc = {n: re.findall(r"(?m)^broadcast use .*$", t) for n, t in ltext}
    for i, (tag, t) in enumerate(out):
        # one module per part: parts are checked in parallel, each with the definitions it uses
        if tag.startswith("vac:"):
            t = "// ==== %s\n%s\n" % (tag, t)
        else:
            f = fns.get(tag.split(":", 1)[1]) if tag.startswith("fn:") else None
            b = sorted({x for l in (f.libs if f else []) for x in bc.get(l, [])})
            t = re.sub(r"(?m)^proof fn", "pub proof fn", t)
            t = "// ==== %s\npub mod b%d {\nuse super::*;\n%s\n}\npub use b%d::*;\n" % (tag, i, "\n".join(b + [t]), i)
        n = t.count("\n")
        index.append((line, line + n - 1, tag))
        line += n
        text += t
    text += "fn main() {}\n}\n"
    return (text, index), None


def verus(path, env, rlimit, extra=()):
    e = dict(env)
    e.pop("RUSTUP_TOOLCHAIN", None)
    t0 = time.time()
    p = subprocess.run(["timeout", "-k", "5", "360", "verus", "--num-threads", "8", "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", "3", *extra, path, "--error-format=json"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, cwd=os.path.dirname(path))
    try:
        j = json.loads(p.stdout)
    except Exception:
        j = {}
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                diags.append(json.loads(l))
            except Exception:
                pass
    return j, diags, p.stderr, time.time() - t0


def tags_of(d, index, fname):
    """the parts of the generated file a diagnostic points at; the primary span decides"""
    out = []
    for s in d.get("spans", []):
        if os.path.basename(s["file_name"]) != fname:
            continue
        for a, b, t in index:
            if a <= s["line_start"] <= b:
                out.append((s["is_primary"], t, s["line_start"]))
    return out


BODY_ERR = ("precondition not satisfied",)


def blame(d, index, fname):
    ts = tags_of(d, index, fname)
    # a failed precondition of a callee points into the callee's contract as well: the caller is to blame
    fnt = [t for t in ts if t[1].startswith(("fn:", "lib:"))]
    m = d["message"]
    if "precondition" in m:
        prim = [t for t in ts if t[0]] or ts
        return prim[0][1] if prim else None
    if "postcondition" in m or "invariant" in m or "assert" in m:
        prim = [t for t in ts if t[0]] or ts
        return prim[0][1] if prim else None
    prim = [t for t in ts if t[0]] or fnt or ts
    return prim[0][1] if prim else None


def is_proof_failure(d):
    m = d["message"]
    keys = ("precondition not satisfied", "postcondition not satisfied", "invariant not satisfied", "assertion failed", "assertion not satisfied",
            "possible arithmetic", "possible division by zero", "possible bit shift", "decreases not satisfied", "requirement not met",
            "recommendation not met", "loop ensures not satisfied", "unreachable", "index out of bounds", "could not prove termination", "assert_by", "index in bounds",
            "fails to satisfy", "not satisfied", "failed")
    return any(k in m for k in keys)


def is_rlimit(d):
    return "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() or "time out" in d["message"].lower()


def run(prop, tier, outdir, env, only=None, emit=None, verbose=False):
    t0 = time.time()
    tmp = os.path.join(outdir, "ded")
    os.makedirs(tmp, exist_ok=True)
    res = {"functions": [], "obligations": 0, "discharged": 0, "failed": [], "undecided": [], "cmd": "", "trusted": [], "solver_s": 0.0, "assumptions": [], "output": ""}
    fns, order = parse_contracts()
    if not any(prop in f.props or prop == "all" for f in fns.values()):
        return res
    try:
        ex = extract(fns, env, tmp)
    except Exception as e:
        res["undecided"].append({"function": "*", "reason": str(e)[:500]})
        return res
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    sel = cone(fns, ex, prop)
    if only:
        keep = [f for f in sel if re.search(only, f.id)]
        sel = keep + [f for f in sel if f not in keep]
    lost = {}
    for f in sel:
        if f.kind == "external":
            continue
        why, ren = anchor(f, ex[f.id], base)
        if not why:
            _, l = body_text(f, ex[f.id], ren)
            if l:
                why = "proof anchors lost: " + ", ".join(l)
        if why:
            lost[f.id] = why
    if only:
        for f in sel:
            if not re.search(only, f.id) and f.id not in lost and f.kind == "fn":
                lost[f.id] = "skipped"
    path = os.path.join(tmp, "%s.rs" % prop)
    rl = 30 if tier == "quick" else 120
    res["cmd"] = "verus --rlimit %d %s" % (rl, path)
    failed, out, j = {}, "", {}
    for rnd in range(12):
        asm, err = assemble(fns, ex, sel, lost, base)
        if err:
            res["undecided"].append({"function": "*", "reason": err})
            return res
        text, index = asm
        open(path, "w").write(text)
        if emit:
            return res
        j, diags, out, w = verus(path, env, rl)
        errs = [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting")]
        vr = j.get("verification-results", {})
        hard = [d for d in errs if not is_proof_failure(d) and not is_rlimit(d)]
        if "verified" in vr and not vr.get("encountered-vir-error") and not hard:
            break
        # the file does not compile or uses something unsupported: the functions at fault lose their anchor
        bad = set()
        for d in hard or errs:
            b = blame(d, index, os.path.basename(path))
            allt = [t for _, t, _ in tags_of(d, index, os.path.basename(path))]
            for t in ([b] if b else []) + allt:
                if t.startswith("fn:") and t[3:] not in lost:
                    bad.add((t[3:], d["message"]))
                    break
        if verbose:
            for d in (hard or errs)[:7]:
                print("\n".join(l[:170] for l in d["rendered"].splitlines()[:10]))
        if not bad:
            res["undecided"].append({"function": "*", "reason": "the verifier does not accept the generated file: " + " | ".join(d["message"] for d in (hard or errs))[:600]})
            res["output"] = out
            return res
        for i, m in bad:
            lost[i] = "not accepted by the verifier: " + m[:200]
    else:
        res["undecided"].append({"function": "*", "reason": "no stable set of functions"})
        return res
    vr = j.get("verification-results", {})
    if not vr.get("verified"):
        # a crash of the verifier leaves nothing checked
        res["undecided"].append({"function": "*", "reason": "the verifier checked nothing: " + out[-300:]})
        return res
    for d in diags:
        if d["level"] != "error":
            continue
        b = blame(d, index, os.path.basename(path))
        if is_rlimit(d):
            if b and b.startswith("fn:"):
                lost.setdefault(b[3:], "solver limit: " + d["message"])
            else:
                res["undecided"].append({"function": b or "*", "reason": d["message"]})
            continue
        if not is_proof_failure(d):
            continue
        failed.setdefault(b or "*", []).append(d)
    # one more try for the failures with a larger limit is not needed: a failure is not a timeout
    for b, ds in failed.items():
        if b.startswith("fn:"):
            if b[3:] in lost:
                continue
            d = ds[0]
            sp = [s for s in d["spans"]]
            txt = "; ".join((s["label"] or "") + " `" + " ".join(x["text"].strip() for x in s["text"])[:160] + "`" for s in sp[:3])
            res["failed"].append({"function": b[3:], "message": d["message"] + ": " + txt, "rendered": "".join(x["rendered"] for x in ds)[:6000]})
        else:
            # a lemma of ours: never an alarm
            res["undecided"].append({"function": b, "reason": "lemma fails: " + ds[0]["message"]})
    fb = []
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        fb += m.get("function-breakdown", [])
    fb = [x for x in fb if not x["function"].startswith("vstd::")]
    res["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    res["discharged"] = vr.get("verified", 0)
    res["solver_s"] = round(sum(x["time-micros"] for x in fb) / 1e6, 3)
    slow = sorted(fb, key=lambda x: -x["time"])[:4]
    failed_ids = {x["function"] for x in res["failed"]}
    for f in sel:
        if f.kind != "fn":
            continue
        if f.id in lost:
            if lost[f.id] != "skipped":
                res["undecided"].append({"function": f.id, "reason": lost[f.id]})
            continue
        clauses = f.spec.count(",\n") + sum(v.count(",\n") for v in f.loops.values())
        res["functions"].append({"function": f.id, "file": "src/" + f.file, "contract_clauses": clauses, "status": "failed" if f.id in failed_ids else "discharged", "extraction": ex[f.id].get("rules", [])})
    # vacuity: every precondition must be satisfiable
    asm, err = assemble(fns, ex, sel, lost, base, vac=True) if not os.environ.get("CV_NOVAC") else (None, "skipped")
    if not err:
        text, index = asm
        vp = os.path.join(tmp, "%s_vac.rs" % prop)
        nv = sum(1 for _, _, t in index if t.startswith("vac:"))
        # lemmas are not checked again here
        open(vp, "w").write(text)
        j2, d2, out2, w2 = verus(vp, env, 5, ["--verify-root", "--verify-function", "__vac_*"]) if nv else ({}, [], "", 0)
        hit = set()
        hard2 = [d for d in d2 if d["level"] == "error" and not is_proof_failure(d) and not is_rlimit(d) and not d["message"].startswith("aborting")]
        for d in d2:
            for _, t, _ in tags_of(d, index, os.path.basename(vp)):
                if t.startswith("vac:"):
                    hit.add(t)
        for _, _, t in index:
            if t.startswith("vac:") and t not in hit:
                res["undecided"].append({"function": t[4:], "reason": "precondition may be contradictory (reachability check did not fail)"})
        res["vacuity"] = {"preconditions": nv, "reachable": len(hit)}
        if verbose:
            print("vacuity: %d preconditions, %d reachable" % (nv, len(hit)), [d["message"] for d in hard2][:5])
    # trusted base
    tb = set()
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof |spec )?(?:fn|struct) (\w+)|assume_specification[^\[]*\[([^\]]*\]?[^\]]*)\]|(admit\(\)|assume\()", open(path).read()):
        tb.add((m.group(1) or m.group(2) or m.group(3)).strip())
    res["trusted"] = sorted(tb)
    res["assumptions"] = [
        "machine arithmetic on scalars is treated as exact real arithmetic (type R, operators assumed in lib/base.rs)",
        "generics are instantiated: T -> R, OPoint/OVector of any dimension -> coordinate functions; trait bounds, attributes and error texts are dropped",
        "functions of std and nalgebra listed in trusted_base carry assumed contracts",
        "termination of while loops without a decreases clause is not claimed",
    ]
    res["explanation"] = "deductive: %d functions under contract re-extracted from the source and verified in this run; slowest: %s; vacuity: %s" % (
        len(res["functions"]), ", ".join("%s %d ms" % (x["function"].split("::", 1)[-1], x["time"]) for x in slow), res.get("vacuity"))
    if res["failed"]:
        res["output"] = out
    res["wall"] = time.time() - t0
    if verbose:
        for d in diags:
            if d["level"] == "error" or (d["level"] == "warning" and "trigger" in d["message"]):
                print("\n".join(l[:150] for l in d["rendered"].splitlines()[:14]))
        for x in sorted(fb, key=lambda x: -x["time"])[:8]:
            print("   %6d ms %s" % (x["time"], x["function"]))
        print("verified", vr.get("verified"), "errors", vr.get("errors"), "smt %.1fs" % res["solver_s"], "wall %.1fs" % res["wall"])
        print("undecided:", json.dumps(res["undecided"], indent=1))
        print("failed:", [x["function"] for x in res["failed"]])
    return res


def dev_env():
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR",):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
    return e


if __name__ == "__main__":
    a = sys.argv[1]
    if a == "baseline":
        fns, order = parse_contracts()
        tmp = "/tmp/cvded"
        os.makedirs(tmp, exist_ok=True)
        ex = extract(fns, dev_env(), tmp)
        b = {}
        for i in order:
            if fns[i].kind == "fn":
                if "error" in ex[i]:
                    print("NOT EXTRACTED", i, ex[i]["error"])
                    continue
                b[i] = {k: ex[i][k] for k in ("self", "params", "ret", "loops", "bindings", "methods", "calls")}
        json.dump(b, open(BASE, "w"), indent=0, sort_keys=True)
        print(len(b), "functions")
    else:
        only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
        out = "/tmp/cvded"
        os.makedirs(out, exist_ok=True)
        if os.path.exists(BASE) and "--nobase" in sys.argv:
            BASE = "/nonexistent"
        run(a, "quick", out, dev_env(), only=only, verbose=True)
