#!/usr/bin/env python3
"""Is the specification held in place?  Changes it, one small change at a time, and counts the changes
that TLC notices.  Not a check of jsparse-rs; run while developing.

  selftest.py grammar   productions of JsGrammar removed, opened or closed, their symbols dropped, contexts
                        and lookahead changed: do the examples (MCExamples) still come out as meant?
  selftest.py traces    what the real tokenizer and parser answered, with one answer altered: does TLC still
                        take it as a behaviour of JsLex, or of JsPull?
"""
import copy, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)

def tlc(changed, module, cfg, env=None, timeout=300):
    """TLC on a copy of the specification in which some modules have another text; its exit code and output."""
    d = tempfile.mkdtemp(prefix="selftest-", dir=os.path.join(ROOT, "build"))
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): shutil.copy(os.path.join(SPEC, f), d)
        for f, text in changed.items(): open(os.path.join(d, f), "w").write(text)
        open(os.path.join(d, "t.cfg"), "w").write(cfg)
        e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xmx2g -Djava.io.tmpdir=" + d, JDK_JAVA_OPTIONS="-Xss128m", **(env or {}))
        p = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", "1", "-metadir", d + "/meta", "-config", d + "/t.cfg", module + ".tla"],
                           cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def read(f): return open(os.path.join(SPEC, f)).read()

# ------------------------------------------------------------------ JsGrammar
PROD = re.compile(r"\b(P|L|PY|PA|PI|PR)\(<<((?:[^<>]|<(?!<)|>(?!>))*)>>\)")
def grammar():
    s = read("JsGrammar.tla")
    start = s.index("RulesNames ==")
    rule = lambda at: re.findall(r'"(\w+)" :>', s[start:at + 1])[-1]
    out = []
    def put(a, b, new, what): out.append((what, s[:a] + new + s[b:]))
    uses, knows = {}, set()      # who depends on `in' being allowed: only there does the context matter
    for m in PROD.finditer(s, start):
        r = rule(m.start())
        if m.group(1) == "PI": knows.add(r)
        uses.setdefault(r, set()).update(re.findall(r'(?<![A-Z])S\("(\w+)"\)', m.group(2)))
    while True:
        more = {r for r in uses if r not in knows and uses[r] & knows}
        if not more: break
        knows |= more
    for m in PROD.finditer(s, start):
        a, b = m.span(); k, body = m.group(1), m.group(2); r = rule(a); name = "%s: %s" % (r, " ".join(re.findall(r'"(\w+|[^"\w]+)"', body)))
        syms = re.findall(r'(?:S|NI|NX)\("[^"]*"\)|M\("[^"]*","[^"]*"\)', body)
        # the production removed: it can begin with a token that does not exist
        put(a, b, 'P(<<S("NAF"), S("NDEF"), S("enum"), S("enum"), S("enum")>>)', "removed " + name)
        if k == "L": put(a, b, m.group(0).replace("L(", "P(", 1), "closed " + name)
        else: put(a, b, "L(<<" + body + ">>)", "opened " + name)
        if k[1:]: put(a, b, "P(<<" + body + ">>)", "guard dropped " + name)
        for i, x in enumerate(syms):
            with_ = lambda y: "%s(<<%s>>)" % (k, ", ".join(syms[:i] + y + syms[i + 1:]))
            put(a, b, with_([]), "symbol %s dropped from %s" % (x, name))
            n = re.match(r'\w+\("([^"]*)"', x).group(1)
            if x.startswith(("NI", "NX", "M")): put(a, b, with_(['S("%s")' % n]), "context of %s dropped in %s" % (x, name))
            if x.startswith("M"):
                for c in "FGAWV":
                    if x != 'M("%s","%s")' % (n, c): put(a, b, with_(['M("%s","%s")' % (n, c)]), "context of %s made %s in %s" % (x, c, name))
            if x.startswith("S") and n in knows: put(a, b, with_(['NX("%s")' % n]), "%s without in, in %s" % (x, name))
    for m in re.finditer(r'^    (\w+) +\|-> \{([^}]*)\}|^  \[ (\w+) +\|-> \{([^}]*)\}', s, re.M):
        n = m.group(1) or m.group(3); g = 2 if m.group(1) else 4
        els = [x.strip() for x in re.findall(r'"[^"]*"', m.group(g))]
        for e in els:
            put(m.start(g), m.end(g), ",".join(x for x in els if x != e), "%s without %s" % (n, e))
    return "JsGrammar.tla", out, "MCExamples", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AsMeant\n", dict(FOR="all")

def campaign(kind):
    f, muts, module, cfg, env = kind()
    seen, todo = set(), []
    for what, text in muts:
        if text not in seen: seen.add(text); todo.append((what, text))
    random.Random(int(os.environ.get("SEED", "1"))).shuffle(todo)
    part = os.environ.get("PART")
    if part: todo = [x for x in todo if re.search(part, x[0])]
    rc, out = tlc({}, module, cfg, env)
    assert rc == 0, out[-2000:]
    def one(x):
        rc, out = tlc({f: x[1]}, module, cfg, env, 150)
        w = re.search(r'"WRONG@(.*)"', out)
        return x[0], rc, w.group(1) if w else ""
    counts = {}
    with ThreadPoolExecutor(int(os.environ.get("LANES", "7"))) as ex:
        for what, rc, why in ex.map(one, todo):
            k = "noticed" if rc in (10, 11, 12, 13) else "not noticed" if rc == 0 else "no answer (%d)" % rc
            counts[k] = counts.get(k, 0) + 1
            if sum(counts.values()) % 100 == 0: print(sum(counts.values()), "so far:", counts, flush=True)
            if k != "noticed" or os.environ.get("ALL"): print(k, "|", what, "|", why, flush=True)
    print(len(todo), "changes:", counts)

# ------------------------------------------------------------------ recorded traces
def record(args):
    """Traces of the real code, recorded by the conformance harness (which a check has built)."""
    d = tempfile.mkdtemp(prefix="selftest-", dir=os.path.join(ROOT, "build"))
    try:
        subprocess.run([os.path.join(ROOT, "build/target/debug/conform")] + args + ["seed=%s" % os.environ.get("SEED", "1"), "secs=3", "nrecord=6", "record=" + d + "/t"],
                       stdout=subprocess.DEVNULL, check=True)
        out = []
        for f in sorted(os.listdir(d)): out += [json.loads(l) for l in open(os.path.join(d, f))]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tables_for_harness():
    import tables
    B = lambda f: os.path.join(ROOT, "build", f)
    for module, js, txt, conv in (("ExportLex", "self.lex.json", "self.lex.txt", tables.lex), ("ExportGrammar", "self.grammar.json", "self.grammar.txt", tables.grammar)):
        rc, out = tlc({}, module, "\n", dict(OUT=B(js)))
        assert rc == 0, out[-1500:]
        conv(B(js), B(txt))
    return B("self.lex.txt"), B("self.grammar.txt")

def lex_alterations(t, r):
    """One field of one answer changed, or an answer left out or given twice."""
    q = t["reqs"]
    said = [i for i in range(len(q)) if q[i]["k"] != "refused"]   # a refusal has no range to alter
    if not said: return
    for f in ("so", "sl", "sc", "eo", "el", "ec"):
        u = copy.deepcopy(t); u["reqs"][r.choice(said)][f] += r.choice([-1, 1]); yield f, u
    u = copy.deepcopy(t); i = r.choice(said); u["reqs"][i]["k"] = "word" if q[i]["k"] != "word" else "num"; yield "kind", u
    for f in ("a", "b"):
        u = copy.deepcopy(t); u["reqs"][r.choice(said)][f].append(97); yield "payload", u
    i = r.randrange(len(q))
    if q[i]["k"] not in ("eof", "refused"):
        u = copy.deepcopy(t); del u["reqs"][i]; yield "left out", u
        u = copy.deepcopy(t); u["reqs"].insert(i, q[i]); yield "given twice", u
    if q[i]["v"] != -1: u = copy.deepcopy(t); u["reqs"][i]["v"] += 1; yield "value", u
    if q[-1]["k"] == "refused":
        u = copy.deepcopy(t); u["reqs"][-1].update(k="word", eo=q[-1]["so"] + 1); yield "not refused", u

def parse_alterations(t, r):
    """The verdict, the goal of a request, or the number of requests changed."""
    u = copy.deepcopy(t); u["v"] = "reject" if t["v"] == "accept" else "accept"; yield "verdict", u
    q = t["r"]
    for i in [i for i in range(len(q)) if q[i][0] in ("/", "/=", "re")][:2]:
        u = copy.deepcopy(t); u["r"][i][2] = not q[i][2]; yield "goal of a slash", u
    for i in [i for i in range(len(q)) if q[i][0] in ("}", "tplM", "tplT")][:2]:
        u = copy.deepcopy(t); u["r"][i][3] = not q[i][3]; yield "goal of a brace", u
    if t["v"] == "accept":
        u = copy.deepcopy(t); u["r"].pop(); yield "end of input not read", u
        u = copy.deepcopy(t); u["r"].append(q[-1]); yield "end of input read twice", u
        i = r.randrange(len(q))
        if q[i][0] in "(){}[]": u = copy.deepcopy(t); del u["r"][i]; yield "bracket left out", u

def traces():
    import props
    lex, gram = tables_for_harness()
    r = random.Random(1)
    jobs = []
    for k in ("L02", "L04", "L06", "L10"):
        c = props.LEX[k]
        for t in record(["lex", "lex=" + lex, "props=" + k, "alpha=" + c["classes"], "frags=" + " ".join(c["frags"])])[:12]:
            jobs += [("TraceLex", w, u) for w, u in lex_alterations(t, r)]
    for k in ("P01", "P02", "P03"):
        c = props.PARSE[k]
        got = record(["random", "grammar=" + gram, "over=0"] + ["%s=%s" % (x, c[x]) for x in ("goals", "alpha", "ops", "nl", "seq", "depth", "cap")])
        for t in got[:25]: jobs += [("TraceParse", w, u) for w, u in parse_alterations(t, r)]
    def one(x):
        module, what, u = x
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", dir=os.path.join(ROOT, "build"), delete=False)
        f.write(json.dumps(u) + "\n"); f.close()
        rc, out = tlc({}, module, read(module + ".cfg"), dict(TRACE=f.name))
        os.unlink(f.name)
        return rc, out
    counts = {}
    with ThreadPoolExecutor(int(os.environ.get("LANES", "7"))) as ex:
        for (module, what, u), (rc, out) in zip(jobs, ex.map(one, jobs)):
            k = "refused" if "MISMATCH@" in out else "taken" if rc == 0 else "no answer"
            counts.setdefault((module, what), {}).setdefault(k, 0)
            counts[module, what][k] += 1
            if k != "refused" and os.environ.get("ALL"): print(k, module, what, json.dumps(u)[:1500], flush=True)
    for (module, what), n in sorted(counts.items()): print(module, "|", what, "|", n)

if __name__ == "__main__":
    if sys.argv[1] == "traces": traces()
    else: campaign({"grammar": grammar}[sys.argv[1]])
