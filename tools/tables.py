#!/usr/bin/env python3
"""Turns the JSON tables that TLC exports into the flat text the harness reads."""
import json, sys

def grammar(src, dst):
    t = json.load(open(src))
    out = ["K " + " ".join(sorted(t["tokens"]))]
    for tag, key in (("T", "termsets"), ("X", "notsets"), ("O", "possets")):
        for n in sorted(t[key]):
            out.append(tag + " " + n + " " + " ".join(sorted(t[key][n])))
    for n in sorted(t["rules"]):
        out.append("N " + n)
    for n in sorted(t["rules"]):
        for p in t["rules"][n]:
            body = " ".join("%s %s" % x for x in zip(p["b"], p["m"]))
            out.append("\t".join(["R", n, str(int(p["l"])), p["g"], str(int(p["null"])),
                                  str(int(p["semi"])), " ".join(sorted(p["first"])), body]))
    for n in sorted(t["min"]):
        out.append("M " + n + " " + " ".join(t["min"][n]))
    open(dst, "w").write("\n".join(out) + "\n")

def lex(src, dst):
    t = json.load(open(src))
    cl = sorted(t["classes"])
    out = ["C " + " ".join(cl), "M " + " ".join(sorted(t["modes"])), "A " + " ".join(t["ascii"])]
    out.append("O " + " ".join("%d=%s" % (c, k) for c, k in sorted(t["other"])))
    for r in sorted(t["rows"], key=lambda r: (r["m"], r["k"], r["e"], r["t"])):
        out.append(" ".join(["R", r["m"].replace("\r", "\\r"), r["k"], str(int(r["e"])), str(int(r["t"])), r["op"],
                             (r["to"] or "-").replace("\r", "\\r"), r["kind"] or "-"]))
    out[1] = out[1].replace("\r", "\\r")
    open(dst, "w").write("\n".join(out) + "\n")

def printed(src, tag):
    """What TLC printed as a string "tag@...": one line each, unlike tuples, which it wraps."""
    head = '"%s@' % tag
    for line in open(src, errors="replace"):
        if line.startswith(head):
            yield json.loads(line)[len(tag) + 1:]
def tlc_lines(src, tag):
    for s in printed(src, tag): yield json.loads(s)

def lexdump(src, dst):
    out = []
    hint = lambda h: ("e" if h[0] else "-") + ("t" if h[1] else "-")
    for r in tlc_lines(src, "T"):
        toks = " ".join(" ".join(str(v) for v in t) for t in r["toks"])
        out.append("\t".join(["T", " ".join(map(str, r["text"])), " ".join(map(hint, r["hs"])), r["st"], toks]))
    for r in tlc_lines(src, "E"):
        out.append("\t".join(["E", " ".join(map(str, r["text"])), " ".join(map(hint, r["hs"]))]))
    open(dst, "w").write("".join(x + "\n" for x in out))
    return len(out)

def edges(src, dst):
    n = 0
    with open(dst, "w") as f:
        for s in printed(src, "E"):
            f.write("\t".join(s.split("@")).replace("\\\\n", "\\n") + "\n")
            n += 1
    return n

def programs(src, dst):
    n = 0
    with open(dst, "w") as f:
        for s in printed(src, "P"):
            f.write("\t".join(s.split("@")) + "\n")
            n += 1
    return n

if __name__ == "__main__":
    {"grammar": grammar, "lex": lex, "lexdump": lexdump, "edges": edges, "programs": programs}[sys.argv[1]](sys.argv[2], sys.argv[3])
