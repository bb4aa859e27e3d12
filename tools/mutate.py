#!/usr/bin/env python3
"""mutate.py OUT.jsonl [-f FILE-REGEX] [-n MAX] [-j JOBS]
Measures the checks: makes one-token changes to copies of /repo's sources (in /tmp), runs the checks of the properties the
file is relevant to, and records which check reports each change. Survivors are read by hand."""
import json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf, threading
REPO = "/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("container/vec.c", "C01 C10 C07 C06 C09 C28"), ("container/plist.c", "C02 C10 C07 C05 C06 C09 C28"), ("container/common", "C25 C01 C02 C03 C07 C10 C06 C11 C09 C28"),
       ("container/span", "C06 C10 C11"), ("container/str.c", "C03 C04 C05 C10 C11 C07 C06 C09 C28"), ("mallocator", "C08 C09 C28"),
       ("core/conv", "C12 C16"), ("core/core", "C27 C08 C28 C09 C01 C16"), ("core/version", ""), ("core/compiler", ""), ("math/", "C22 C23 C25 C24"), ("algorithm/comparison", "C24"),
       ("network/", "C26"), ("fileio", "C17 C09 C28"), ("system/path", "C18 C19 C09 C28"), ("datetime", "C13 C14 C15"), ("argopt", "C16 C09 C28"),
       ("util/debug", "C21 C20 C10"), ("util/log", "C20 C21")]
def props(f):
    for k, v in MAP:
        if k in f: return v.split()
    return []
REL = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}
def mask(src):   # same length, comments and strings blanked
    out, i = list(src), 0
    for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', src, re.S):
        for k in range(m.start(), m.end()):
            if out[k] != "\n": out[k] = " " if src[m.start()] == "/" else "_"
    return "".join(out)
def sites(path):
    src = open(path).read(); mk = mask(src); res = []
    macros = "conv." in path or "comparison." in path
    depth = 0; inb = [False] * len(mk)
    for i, c in enumerate(mk):
        if c == "{": depth += 1
        if c == "}": depth -= 1
        inb[i] = depth > 0
    pre = [False] * len(mk)
    for m in re.finditer(r"^[ \t]*#(?:\\\n|[^\n])*", mk, re.M):
        for k in range(m.start(), m.end()): pre[k] = True
    def add(a, b, new, op):
        ln = src.count("\n", 0, a); line = src.splitlines()[ln]
        if "VT_DEBUG_ASSERT" in line or "VT_DEBUG_PRINTF" in line or "va_end" in line or line.strip().startswith("assert(") or "(void)" in line: return
        if not macros and (not inb[a] or pre[a]): return
        res.append((a, b, new, op, ln + 1, line.strip()))
    for m in re.finditer(r"(?<![-<>=!&|+*/%])(<=|>=|==|!=|&&|\|\||<|>)(?![=<>&|])", mk):
        if mk[m.start()-1] == "-" : continue
        for n in REL[m.group(1)]: add(m.start(), m.end(), n, "rel")
    for m in re.finditer(r"(?<=[\w\)\]])( ?)([-+])( ?)(?=[\w\(])(?![-+>])", mk):
        if m.group(1) != m.group(3): continue
        add(m.start(2), m.end(2), "-" if m.group(2) == "+" else "+", "arith")
    for m in re.finditer(r"(?<=[\w\)\]]) ?([*/%]) ?(?=[\w\(])", mk):
        w = re.search(r"(\w+)\s*$", mk[:m.start(1)])
        if m.group(1) == "*" and w and w.group(1) in ("char", "void", "int", "vt_str_t", "vt_vec_t", "vt_plist_t", "vt_span_t", "const", "FILE", "return", "vt_mallocator_t", "VitaBaseAllocatorType", "vt_argopt_t"): continue
        for n in {"*": ["+"], "/": ["*"], "%": ["/"]}[m.group(1)]: add(m.start(1), m.end(1), n, "arith")
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", mk):
        v = int(m.group(1))
        for n in {0: [1], 1: [0, 2]}.get(v, [v + 1, v - 1]): add(m.start(), m.end(), str(n), "const")
    for m in re.finditer(r"!(?=[\w(])", mk): add(m.start(), m.end(), "", "not")
    for m in re.finditer(r"\+\+|--", mk): add(m.start(), m.end(), "--" if m.group() == "++" else "++", "incdec")
    for m in re.finditer(r"\btrue\b|\bfalse\b", mk): add(m.start(), m.end(), "false" if m.group() == "true" else "true", "bool")
    for m in re.finditer(r"->len\b", mk): add(m.start(), m.end(), "->capacity", "field")
    for m in re.finditer(r"->capacity\b", mk): add(m.start(), m.end(), "->len", "field")
    for m in re.finditer(r"^[ \t]+([\w>\-\[\]\.\*]+ *[-+*]?= *[^;\n]+|[\w]+\([^\n]*\));[ \t]*$", mk, re.M):
        t = m.group(1)
        if re.match(r"return|const |(?:size_t|int\w*|char|struct|bool|time_t|float|double|vt_\w+_t|void) ", t): continue
        add(m.start(1), m.end(1) + 1, ";", "delete")
    for m in re.finditer(r"\bmin\b|\bmax\b", mk): pass
    return src, res
# conditional changes: the changed statement runs only when a condition on the function's arguments holds
CONDS = {"arr": ["{x}->len == {x}->capacity", "{x}->len == 1", "{x}->len > 100", "{x}->len > 1000", "{x}->len % 16 == 15", "{x}->alloctr != NULL && {x}->len > 20", "{x}->capacity > {x}->len + 50", "{x}->len == 0", "{x}->len == 2"],
         "txt": ["strlen({x}) > 64", "strlen({x}) > 700", "strlen({x}) == 1", "(signed char){x}[0] < 0", "{x}[0] == 0", "strlen({x}) == 2", "strchr({x}, '%') != NULL"],
         "num": ["{x} > 64", "{x} == 1", "({x} & 7) == 7", "{x} > 1000", "{x} == 0", "{x} == 2"], "int": ["{x} < 0", "{x} == 0", "{x} > 1000", "{x} == 1", "{x} < -100"],
         "flt": ["{x} < 0", "{x} > 1000", "{x} == 0", "{x} < 1"], "dt": ["{x}.year < 1970", "{x}.month == 2 && {x}.month_day == 29", "{x}.year % 100 == 0", "{x}.hour == 0", "{x}.second == 59", "{x}.month == 12", "{x}.year > 2038"]}
def params(sig):
    r = []
    for a in sig.split(","):
        a = a.strip(); m = re.match(r"(.*?)(\w+)(\[.*\])?$", a)
        if not m: continue
        ty, nm = m.group(1), m.group(2)
        if re.search(r"vt_(str|vec|plist)_t *\*", ty) or "VitaBaseArrayType" in ty: r += [(nm, "arr")]
        elif re.search(r"\bchar *\*", ty) and ty.count("*") == 1: r += [(nm, "txt")]
        elif re.search(r"\b(size_t|uint\d+_t)\b", ty) and "*" not in ty: r += [(nm, "num")]
        elif re.search(r"\b(int\d*_t|int|time_t)\b", ty) and "*" not in ty: r += [(nm, "int")]
        elif re.search(r"\b(float|double|real)\b", ty) and "*" not in ty: r += [(nm, "flt")]
        elif "vt_datetime_t" in ty and "*" not in ty: r += [(nm, "dt")]
    return r
def csites(path, rnd):
    src, ss = sites(path); res = []; starts = [0]
    for l in src.splitlines(True): starts.append(starts[-1] + len(l))
    lines = src.splitlines(True)
    for a, b, new, op, ln, text in ss:
        fn = None
        for k in range(ln - 1, -1, -1):
            if re.match(r"\w.*\(.*\) \{\s*$", lines[k]): fn = lines[k]; break
            if lines[k].startswith("}"): break
        if not fn: continue
        ps = params(fn[fn.index("(") + 1:fn.rindex(")")])
        if not ps: continue
        l0, l1 = starts[ln - 1], starts[ln]; line = src[l0:l1].rstrip("\n"); mut = src[l0:a] + new + src[b:l1].rstrip("\n")
        if "\n" in mut: continue
        x, kind = rnd.choice(ps); cond = rnd.choice(CONDS[kind]).format(x=x)
        if kind == "arr" or kind == "txt": cond = "%s && %s" % (x, cond)
        m = re.match(r"(\s*)(if|while) \((.*)\) \{$", line); m2 = re.match(r"(\s*)(if|while) \((.*)\) \{$", mut)
        d = re.match(r"(\s*(?:const |struct )*\w+ (?:\*const |\*)?\w+ = )(.*);$", line); d2 = re.match(r"(\s*(?:const |struct )*\w+ (?:\*const |\*)?\w+ = )(.*);$", mut)
        if m and m2: repl = "%s%s ((%s) ? (%s) : (%s)) {" % (m.group(1), m.group(2), cond, m2.group(3), m.group(3))
        elif d and not line.strip().startswith("return"):
            if not d2: continue
            repl = "%s(%s) ? (%s) : (%s);" % (d.group(1), cond, d2.group(2), d.group(2))
        elif re.match(r"\s*[\w*(\[].*;$", line) and not re.match(r"\s*(for|else|case|goto|break|continue|static|va_list|char|struct|vt_|\.)", line.replace("vt_str_", "X").replace("vt_plist_", "X").replace("vt_mem", "X").replace("vt_vec_", "X").replace("vt_array_", "X")): repl = "if (%s) { %s } else { %s }" % (cond, mut.strip(), line.strip())
        else: continue
        res.append((l0, l1 - 1, repl, "cond-" + op, ln, text))
    return src, res
def main():
    a = sys.argv[1:]; out = a[0]; rx = a[a.index("-f") + 1] if "-f" in a else "."; mx = int(a[a.index("-n") + 1]) if "-n" in a else 10**9; jobs = int(a[a.index("-j") + 1]) if "-j" in a else 8
    done = set()
    if os.path.exists(out):
        for l in open(out): d = json.loads(l); done.add((d["file"], d["at"], d["new"]))
    todo = []
    for root, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            p = os.path.join(root, f); rel = os.path.relpath(p, REPO)
            if f.endswith(".c") and re.search(rx, rel) and props(rel):
                src, ss = csites(p, random.Random(len(rel))) if "-c" in a else sites(p)
                todo += [(rel, s) for s in ss if (rel, s[0], s[2]) not in done]
    random.Random(7).shuffle(todo); todo = todo[:mx]
    print(len(todo), "mutants", flush=True)
    if "-l" in a: return
    lock = threading.Lock(); q = iter(todo); cnt = {}
    def worker(w):
        d = "/tmp/mutate/w%d" % w; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copytree(REPO + "/src", d + "/r/src"); shutil.copytree(REPO + "/inc", d + "/r/inc")
        env = dict(os.environ, VP_REPO=d + "/r", VP_WORKERS="1", VP_OUT=d, VP_SHRINK="0", VERIF_SEED="1", VP_BUILD=d + "/build")
        shutil.copytree(V + "/build/o", d + "/build/o"); base = set(os.listdir(d + "/build/o"))
        while True:
            with lock:
                t = next(q, None)
            if t is None: break
            rel, (s, e, new, op, ln, line) = t
            src = open(REPO + "/" + rel).read(); open(d + "/r/" + rel, "w").write(src[:s] + new + src[e:])
            killed, t0, note = None, time.time(), ""
            c = subprocess.run(["clang", "-std=gnu11", "-fsyntax-only", "-w", "-D_GNU_SOURCE", "-I" + d + "/r/inc", d + "/r/" + rel], stderr=subprocess.DEVNULL)
            if c.returncode: killed = "compile"
            else:
                for pct, p in [(2, p) for p in props(rel)] + [(20, p) for p in props(rel)]:
                    r = subprocess.run([sys.executable, V + "/check.py", p, "quick"], env=dict(env, VP_PCT=str(pct)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    if r.returncode == 1: killed = p; note = "".join(re.findall(r"FAILED[^\n]*", r.stdout))[:200]; break
                    if r.returncode != 0: note += " %s:rc%d %s" % (p, r.returncode, r.stdout[-200:])
            open(d + "/r/" + rel, "w").write(src)
            for x in os.listdir(d + "/build/o"):
                if x not in base: os.unlink(d + "/build/o/" + x)
            for x in os.listdir(d + "/build"):
                if x.startswith("x-"): os.unlink(d + "/build/" + x)
            with lock:
                cnt[killed and (killed == "compile" and "compile" or "killed") or "survived"] = cnt.get(killed and (killed == "compile" and "compile" or "killed") or "survived", 0) + 1
                open(out, "a").write(json.dumps({"file": rel, "at": s, "new": new, "old": src[s:e], "op": op, "line": ln, "text": line, "killed": killed, "pct": pct if killed != "compile" else 0, "secs": round(time.time() - t0, 1), "note": note}) + "\n")
                if sum(cnt.values()) % 20 == 0: print(cnt, flush=True)
        shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(worker, range(jobs)))
    print(cnt)
main()
