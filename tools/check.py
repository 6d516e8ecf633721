#!/usr/bin/env python3
"""Decides one property: check.py <id>.

TLC checks the property on the specification and writes out the behaviours it explored; the
conformance harness, built from /repo's working tree, replays them in the real code, explores
further from the specification's tables, and records what the real code does; TLC validates the
recordings against the specification.

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import json, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)
import props, tables

PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
QUICK = TIER == "quick"
REPO = "/repo"
T0 = time.time()
KNOWN_FILE = os.path.join(ROOT, "known-findings.txt")
EVIDENCE = os.path.join(ROOT, "evidence", PROP + ".json")
REPLAY = os.path.join(ROOT, "evidence", PROP + ".replay.json")
os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
WORK = tempfile.mkdtemp(prefix="run-%s-" % PROP, dir=os.path.join(ROOT, "build"))
W = lambda n: os.path.join(WORK, n)

class Broken(Exception): pass
SLOTS = threading.Semaphore(8)
def note(*a): print("[%5.1f s]" % (time.time() - T0), *a, flush=True)

def known(prop):
    """Findings that are recorded rather than repaired: `known: property=<id> input=<json string> <what fails>'."""
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            if line.startswith("known: property=%s input=" % prop):
                rest = line[len("known: property=%s input=" % prop):].strip()
                inp, end = json.JSONDecoder().raw_decode(rest)
                out.append((inp, rest[end:].strip()))
    return out

class Spec:
    """One run of TLC."""
    def __init__(self, name, module, cfg, env=None, timeout=600, heap="3g"):
        self.name, self.module, self.cfg, self.timeout = name, module, cfg, timeout
        self.out = W(name + ".out")
        self.heap = heap
        self.env = dict(os.environ, **(env or {}))
        self.states = self.generated = 0
        self.rc = None
    def run(self):
        cfg = W(self.name + ".cfg")
        open(cfg, "w").write(self.cfg)
        self.env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Djava.io.tmpdir=%s" % (self.heap, WORK)
        # TLC recurses as deep as the texts are long, and never ends once its stack has overflowed
        self.env["JDK_JAVA_OPTIONS"] = "-Xss128m"
        # one worker per run (TLC's evaluation of shared constants is not safe with more), many runs at once
        with SLOTS:
            t = time.time()
            for attempt in (1, 2):
                meta = W("%s.meta%d" % (self.name, attempt))
                with open(self.out, "w") as f:
                    try:
                        self.rc = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", "1", "-metadir", meta, "-config", cfg,
                            os.path.join(SPEC, self.module + ".tla")], cwd=WORK, env=self.env, stdout=f, stderr=subprocess.STDOUT, timeout=self.timeout).returncode
                    except subprocess.TimeoutExpired:
                        self.rc = -1
                shutil.rmtree(meta, ignore_errors=True)
                if self.rc in (0, 10, 11, 12, 13, 14): break
            self.wall = time.time() - t
        for line in open(self.out, errors="replace"):
            if " distinct states found" in line and "states generated" in line:
                w = line.replace(",", "").split()
                if w[0].isdigit(): self.generated, self.states = int(w[0]), int(w[3])
        return self
    def need_ok(self):
        if self.rc != 0:
            tail = [l for l in open(self.out, errors="replace") if not l.startswith(("<<\"", "\"E@", "\"T@", "\"P@"))]
            raise Broken("TLC %s (%s) ended with %s:\n%s" % (self.name, self.module, self.rc, "".join(tail[-40:])))
        return self

def parallel(jobs):
    """Runs thunks at the same time; re-raises the first failure."""
    res, errs = [None] * len(jobs), []
    def go(i):
        try: res[i] = jobs[i]()
        except BaseException as e: errs.append(e)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    for t in ts: t.start()
    for t in ts: t.join()
    if errs: raise errs[0]
    return res

# ---------------------------------------------------------------- harness
TARGET = os.path.join(ROOT, "build", "target")
BIN = os.path.join(TARGET, "debug", "conform")
def build():
    env = dict(os.environ, RUSTFLAGS="--cfg jsparse_verif -Awarnings", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0: raise Broken("the harness does not build:\n" + p.stdout[-3000:])
    shutil.copy(BIN, W("conform"))
    note("harness built")

class Result:
    def __init__(self): self.viol, self.known, self.stats, self.samples, self.states, self.feeds = [], [], {}, [], 0, 0
    def add(self, o):
        self.viol += o.viol; self.known += o.known; self.states += o.states; self.feeds += o.feeds
        self.samples += o.samples
        for k, v in o.stats.items(): self.stats[k] = self.stats.get(k, 0) + v

def conform(name, *args, timeout=900):
    """Runs the harness; a crash of the whole process is reported with the input that caused it."""
    cmd = [W("conform")] + [str(a) for a in args]
    journal = W(name + ".journal")
    def once(extra):
        try: return subprocess.run(cmd + extra, cwd=WORK, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired: return None
    p = once([])
    if p is not None and p.returncode == 3: raise Broken("%s: %s" % (name, p.stderr[-2000:]))
    res = Result()
    if p is None or p.returncode != 0:
        # stack overflow, abort: once more, keeping a journal of what each thread is doing
        q = once(["journal=" + journal])
        if q is not None and q.returncode == 0: p = q
        else:
            text = ""
            for i in range(64):
                f = "%s.%d" % (journal, i)
                if os.path.exists(f):
                    s = open(f, errors="replace").read()
                    if len(s) > len(text): text = s
            err = (q.stderr if q is not None else "")[-600:]
            if not text: raise Broken("%s ended with %s: %s" % (name, q and q.returncode, err))
            res.viol.append(dict(violation="the process died", text=text, tokens="", expected="an answer", got="%s %s" % (q and q.returncode, err)))
            return res
    for line in p.stdout.splitlines():
        d = json.loads(line)
        if "violation" in d: res.viol.append(d)
        elif "known" in d: res.known.append(d["known"])
        elif "stats" in d: res.stats, res.samples, res.states, res.feeds = d["stats"], d["samples"], d["states"], d["feeds"]
    return res

# ---------------------------------------------------------------- end of a run
def finish(res, mc, traces, samples, notes, assumptions):
    findings = known(PROP)
    fresh, hits = [], set()
    for v in res.viol:
        m = [k for k in findings if k[0] in (v.get("text"), v.get("tokens"))]
        if m: hits.add(m[0])
        else: fresh.append(v)
    for inp, what in findings: print("KNOWN-FINDING: property=%s %s %s" % (PROP, json.dumps(inp), what))
    level = "model_checking"
    cases = {k: v for k, v in res.stats.items()}
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, wall_s=round(time.time() - T0, 1), violations=len(fresh),
        coverage=dict(states=sum(m.states for m in mc), transitions=sum(m.generated for m in mc), traces_validated_against_impl=traces,
            samples=[x if len(x) <= 400 else x[:400] + "..." for x in samples[:12]], harness_cases=cases, engine_states=res.states, engine_steps=res.feeds, model_runs=[dict(name=m.name, states=m.states, transitions=m.generated, wall_s=round(m.wall, 1)) for m in mc], explanation=notes),
        assumptions=assumptions)
    with open(EVIDENCE, "w") as f: json.dump(ev, f, indent=1)
    if fresh:
        with open(REPLAY, "w") as f: json.dump(dict(property=PROP, seed=SEED, tier=TIER, violations=fresh,
            how="build the harness (tools/check.py does) and run `conform one file=<text>' on the text; tokens are token classes, \\n marks a line terminator before a token"), f, indent=1)
        for v in fresh[:3]: print(json.dumps(v))
        print("VIOLATION property=%s replay=%s" % (PROP, REPLAY), flush=True)
        return 1
    print("held: %d states, %d transitions of the specification; %d recorded traces validated; %s" % (ev["coverage"]["states"], ev["coverage"]["transitions"], traces, cases))
    return 0

def mismatches(spec, what):
    """What TLC could not match in recorded traces."""
    v = []
    for m in tables.tlc_lines(spec.out, "MISMATCH"):
        v.append(dict(violation="trace not allowed by the specification", text=m.get("text") if isinstance(m.get("text"), str) else "".join(map(chr, m.get("text", []))), tokens="", expected=json.dumps(m.get("want", "a behaviour of " + what)), got=json.dumps(m.get("got", m.get("what", ""))), trace=m))
    if spec.rc != 0 and not v: spec.need_ok()
    return v
def traced(spec):
    for line in open(spec.out, errors="replace"):
        if line.startswith('<<"TRACES", '): return int(line.split(",")[1])
    return 0
def gather(prefix, dst, limit):
    n = 0
    with open(dst, "w") as f:
        for i in range(64):
            p = "%s.%d" % (prefix, i)
            if os.path.exists(p):
                for line in open(p):
                    if n < limit: f.write(line); n += 1
    return n

COMMON = ["The specification says what ECMAScript 2018 (module code) requires; inputs it leaves open (early errors, unsupported syntax) are not judged.",
          "TLC, the JVM, rustc and the conformance harness are trusted; the harness's table interpreter is cross-checked against TLC on every behaviour TLC writes out."]

# ---------------------------------------------------------------- whole texts (JsProgram)
PROGINV = "PrefixOK GoalsRight InOrder TextBalanced SpaceIdle EndSpace CommentIdle RefusedRight"
def programs():
    """Runs of TLC that read this property's examples, and every text made of a few pieces."""
    out = []
    if PROP in props.EXAMPLES:
        out.append(Spec("examples", "MCExamples", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AsMeant Written\n", dict(FOR=PROP), timeout=400))
    for i, b in enumerate(props.PROG.get(PROP, [])):
        pts = lambda l: [[ord(c) for c in x] for x in l]
        k = min(len(b["prefixes"]), 3 if QUICK else 8)
        for j in range(k):
            f = W("pieces%d_%d.json" % (i, j))
            json.dump(dict(pieces=pts(b["pieces"]), prefixes=pts(b["prefixes"][j::k]), depth=b["depth"] if QUICK else b["depth2"], dump=True), open(f, "w"))
            out.append(Spec("prog%d_%d" % (i, j), "MCProgram", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS %s\nACTION_CONSTRAINT Edge\n" % PROGINV,
                dict(BOUNDS=f), timeout=400 if QUICK else 3000, heap="3g"))
    return out
def texts(res, runs, focus):
    """Replays those texts in the real parser, then programs and texts close to programs; validates recordings."""
    common = ["grammar=" + W("grammar.txt"), "lex=" + W("lex.txt"), "seed=%d" % SEED]
    n = 0
    for s in runs:
        n += tables.programs(s.out, W(s.name + ".txt"))
        res.add(conform("replay-" + s.name, "random", *common, "treplay=" + W(s.name + ".txt"), "secs=%d" % (40 if QUICK else 1200)))
        os.unlink(W(s.name + ".txt"))
    if runs: note("replayed", n, "texts")
    if res.viol: return 0
    res.add(conform("texts", "random", *common, *focus, "texts=100000000", "secs=%d" % (8 if QUICK else 200), "tleast=%d" % (2000 if QUICK else 0), "record=" + W("whole"), "nrecord=%d" % (40 if QUICK else 400)))
    note("texts and near texts parsed")
    if res.viol: return 0
    gather(W("whole"), W("whole.ndjson"), 10**9)
    tr = Spec("wholes", "TraceProgram", open(os.path.join(SPEC, "TraceProgram.cfg")).read(), dict(TRACE=W("whole.ndjson")), timeout=400 if QUICK else 3000).run()
    res.viol += mismatches(tr, "JsProgram")
    note("validated", traced(tr), "traces of whole texts")
    return traced(tr)
WHOLE = " Then whole texts (JsProgram: tokenizer and parser together): this property's examples (JsExamples: texts known to be, and not to be, programs) and every text TLC made of its pieces, if any, judged under TLC and replayed in the real parser; programs of the grammar and texts a few characters away from them, judged by the composed machine; and traces of these validated by TLC (TraceProgram)."

# ---------------------------------------------------------------- tokenizer properties
def check_lex():
    c = props.LEX[PROP]
    bounds = c["mc"] if QUICK else c["mc2"]
    export = Spec("export", "ExportLex", "\n", dict(OUT=W("lex.json")))
    edges = Spec("edges", "MCLexEdges", open(os.path.join(SPEC, "MCLexEdges.cfg")).read())
    mc = [Spec("mc%d" % i, "MCLex", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Alphabet = {%s}\n MaxLen = %d\n Dump = %s\nINVARIANTS %s Written\n"
               % (", ".join(map(str, props.cps(a))), n, "TRUE" if QUICK or i == 0 else "TRUE", " ".join(c["inv"])),
               timeout=400 if QUICK else 3000, heap="3g" if QUICK else "5g") for i, (a, n) in enumerate(bounds)]
    gexp = Spec("gexport", "ExportGrammar", "\n", dict(OUT=W("grammar.json")))
    progs = programs()
    whole = [gexp] if progs else []
    parallel([build] + [s.run for s in [export, edges] + mc + progs + whole])
    for s in [export, edges] + mc + progs + whole: s.need_ok()
    if progs: tables.grammar(W("grammar.json"), W("grammar.txt"))
    note("specification checked:", [(m.name, m.states, round(m.wall, 1)) for m in mc + progs])
    tables.lex(W("lex.json"), W("lex.txt"))
    res = Result()
    replayed = 0
    common = ["lex=" + W("lex.txt"), "props=" + PROP, "memory=%d" % c["memory"], "seed=%d" % SEED, "pump=%d" % (12 if QUICK else 200)]
    for s in [edges] + mc:
        replayed += tables.lexdump(s.out, W(s.name + ".txt"))
        res.add(conform("replay-" + s.name, "lex", *common, "replay=" + W(s.name + ".txt")))
        os.unlink(W(s.name + ".txt"))
    note("replayed", replayed, "behaviours")
    for i, (a, n) in enumerate(c["all"] if QUICK else c["all2"]):
        if res.viol: break
        res.add(conform("all%d" % i, "lex", *common, "chars=" + a, "len=%d" % n, "secs=%d" % (30 if QUICK else 900)))
    note("all short texts read")
    if not res.viol:
        res.add(conform("random", "lex", *common, "classes" and "alpha=" + c["classes"], "frags=" + " ".join(c["frags"]), "long=%d" % c.get("long", 2),
            "secs=%d" % (15 if QUICK else 300), "least=%d" % (20000 if QUICK else 0), "record=" + W("trace"), "nrecord=%d" % (60 if QUICK else 500)))
    note("random texts read")
    traces = 0
    if not res.viol:
        n = gather(W("trace"), W("trace.ndjson"), 10**9)
        tr = Spec("traces", "TraceLex", open(os.path.join(SPEC, "TraceLex.cfg")).read(), dict(TRACE=W("trace.ndjson")), timeout=400 if QUICK else 3000).run()
        traces = traced(tr)
        # only what concerns this property: TLC judges whole answers, the harness has attributed differences already
        for v in mismatches(tr, "JsLex"):
            if concerns(v): res.viol.append(v)
        note("validated", traces, "traces")
    if progs and not res.viol: traces += texts(res, progs, [])
    return finish(res, mc + progs + [edges], traces, res.samples + [json.dumps(bounds[0])],
        "states/transitions: of the tokenizer machine (JsLex) under TLC with this property's invariants (%s); every complete text TLC explored and every row of the transition table (MCLexEdges) was replayed in the real tokenizer (%d behaviours), then all texts over the same alphabets to a greater length and random texts along the machine's transitions; traces: request/answer sequences recorded from the real tokenizer and validated by TLC (TraceLex)." % (" ".join(c["inv"]), replayed) + (WHOLE if progs else ""),
        COMMON)

def concerns(v):
    m = v.get("trace", {})
    got, want = m.get("got", {}), m.get("want", {})
    toks = want.get("toks") or []
    kind = lambda k: {"num": "L04", "str": "L05", "tplN": "L06", "tplH": "L06", "tplM": "L06", "tplT": "L06", "lcom": "L07", "bcom": "L07", "lt": "L07", "re": "L08", "/": "L08", "/=": "L08", "eof": "L01"}.get(k, "L03")
    ps = set()
    if got.get("k") != "refused": ps.add(kind(got.get("k")))
    if toks: ps.add(kind(toks[0]["k"]))
    if want.get("st") == "err": ps.add("L10")
    if toks and (got.get("so"), got.get("eo")) == (toks[0]["sp"]["off"], toks[0]["ep"]["off"]) and got.get("k") == toks[0]["k"]: ps = {"L02", kind(got.get("k"))}
    return PROP in ps

# ---------------------------------------------------------------- parser properties
def check_parse():
    c = props.PARSE[PROP]
    export = Spec("export", "ExportGrammar", "\n", dict(OUT=W("grammar.json")))
    mc = []
    for i, b in enumerate(c["mc"]):
        pre = b["prefixes"]
        # prefixes are spread over several runs of TLC
        k = min(len(pre), 3 if QUICK else 8)
        for j in range(k):
            f = W("bounds%d_%d.json" % (i, j))
            json.dump(dict(alphabet=b["alphabet"], prefixes=pre[j::k], depth=b["depth"] if QUICK else b["depth2"], nl=b["nl"], dump=True), open(f, "w"))
            cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS PrefixOK %s\n%sACTION_CONSTRAINT Edge\n" % (
                " ".join(c["inv"]), "PROPERTIES %s\n" % " ".join(c["act"]) if c["act"] else "")
            mc.append(Spec("mc%d_%d" % (i, j), "MCParse", cfg, dict(BOUNDS=f), timeout=400 if QUICK else 3000, heap="3g"))
    pulls = []
    if c["pull"]:
        b = props.PULL[PROP]
        f = W("boundsp.json")
        json.dump(dict(alphabet=b["alphabet"], prefixes=b["prefixes"], depth=b["depth"] if QUICK else b["depth2"], dump=True), open(f, "w"))
        pulls.append(Spec("pull", "MCPull", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS %s\nACTION_CONSTRAINT Edge\n" % " ".join(b["inv"]),
            dict(BOUNDS=f), timeout=400 if QUICK else 3000, heap="3g"))
    lexp = Spec("lexport", "ExportLex", "\n", dict(OUT=W("lex.json")))
    progs = programs()
    parallel([build, export.run, lexp.run] + [s.run for s in mc + pulls + progs])
    for s in [export, lexp] + mc + pulls + progs: s.need_ok()
    note("specification checked:", [(m.name, m.states, round(m.wall, 1)) for m in mc + pulls + progs])
    tables.lex(W("lex.json"), W("lex.txt"))
    tables.grammar(W("grammar.json"), W("grammar.txt"))
    res = Result()
    common = ["grammar=" + W("grammar.txt"), "seed=%d" % SEED, "over=%d" % c["over"]]
    replayed = 0
    for s in mc + pulls:
        n = tables.edges(s.out, W(s.name + ".txt"))
        replayed += n
        res.add(conform("replay-" + s.name, "random", *common, "replay=" + W(s.name + ".txt"), "pull=%d" % (s in pulls), "secs=%d" % (40 if QUICK else 1200)))
        os.unlink(W(s.name + ".txt"))
    note("replayed", replayed, "edges of the state graph")
    focus = ["goals=" + c["goals"], "alpha=" + c["alpha"], "ops=" + c["ops"], "nl=%d" % c["nl"], "seq=%d" % c["seq"], "depth=%d" % c["depth"], "cap=%d" % c["cap"]]
    if not res.viol:
        res.add(conform("variants", "random", *common, *focus, "variants=%d" % (1 if QUICK else 6), "vgoals=%d" % (6 if QUICK else 40), "wide=%d" % (not QUICK), "pump=%d" % (60 if QUICK else 1500), "secs=%d" % (30 if QUICK else 900)))
        note("variants of the productions parsed")
    if not res.viol:
        res.add(conform("random", "random", *common, *focus, "secs=%d" % (20 if QUICK else 400), "least=%d" % (20000 if QUICK else 0), "record=" + W("trace"), "nrecord=%d" % (120 if QUICK else 1500)))
    note("random programs parsed")
    traces = 0
    if not res.viol:
        n = gather(W("trace"), W("trace.ndjson"), 10**9)
        tr = Spec("traces", "TraceParse", open(os.path.join(SPEC, "TraceParse.cfg")).read(), dict(TRACE=W("trace.ndjson")), timeout=400 if QUICK else 3000).run()
        traces = traced(tr)
        res.viol += mismatches(tr, "JsPull")
        note("validated", traces, "traces")
    if not res.viol: traces += texts(res, progs, focus)
    return finish(res, mc + pulls + progs, traces, res.samples,
        "states/transitions: of the parsing machine (JsParse on JsGrammar) under TLC, with this property's formulas (%s); every edge (configuration set, token) explored was completed to programs and replayed in the real parser (%d edges); then programs with every production, every production of every symbol in one, and every one-change variant of a production, then random programs and near-programs, with the machine's verdicts; traces: requests recorded from the real parser, validated by TLC against JsPull (goal of every slash and brace, order, end)." % (" ".join(c["inv"] + c["act"]) or "none beyond PrefixOK", replayed) + WHOLE,
        COMMON)

def main():
    if os.path.exists(REPLAY): os.unlink(REPLAY)
    try:
        return check_lex() if PROP in props.LEX else check_parse()
    except Broken as e:
        print("CHECK FAILED:", e)
        return 2
    finally:
        if not os.environ.get("KEEP"): shutil.rmtree(WORK, ignore_errors=True)
sys.exit(main())
