"""C24: replay of spec/Syntax.tla in the real tool."""
import json, os, re, shutil
import codec, exprs, layout, tool
from common import CheckError

TARGETS = [["-t", "c"], ["-t", "py"], ["-t", "go"], ["-t", "cpp"], ["-t", "cs"], ["-t", "java"], ["-t", "cjs"], ["-t", "kt"], ["-t", "esm"], ["-t", "c", "-memcpy", "-unroll", "0"]]
OUTSIDE = ["\u00e9", "\u6f22", "\U0001f600"]


def pool(run, n):
    """schemas that follow the grammar, from the other specifications"""
    texts = []
    for i, prof in enumerate(["access", "lits", "compose", "enums"]):
        for k, j in enumerate(codec.behaviours(run, prof, n, 1, shards=2, seed_off=500 + 10 * i)):
            texts.append("package s%d.p%d;\n" % (i, k) + codec.Behaviour(j, "0", "Q%d" % k).schema.text())
    for k, j in enumerate(codec.behaviours(run, "exprs", 2 * n, 1, shards=2, seed_off=560, module="Exprs")):
        texts.append('package e.p%d;\noption go_package = "x.y/z%d";\n' % (k, k) + exprs.EBehaviour(j, "0", "Q%d" % k).text())
    drawn = layout.draw(run, [("pool%d" % r, {"MODE": "random", "NDEFS": 3, "RATE": r}, n) for r in (15, 100)])
    for k, w in enumerate(drawn["pool15"] + drawn["pool100"]):
        texts.append(layout.render(w["defs"], k)[0])
    texts = [t for t in texts if len(t) < 1800 and t.isascii()]
    if len(texts) < n:
        raise CheckError("only %d schemas for the pool" % len(texts))
    return texts


def compile_text(run, d, text, args):
    src, out = os.path.join(d, "src"), os.path.join(d, "out")
    os.makedirs(src)
    with open(os.path.join(src, "a.bb"), "wb") as f:
        f.write(text.encode("utf-8"))
    return tool.bubbler(run.bin, args + ["-o", out, "a.bb"], src, out)


def replay(run, w, n):
    """-> list of what is wrong"""
    d = os.path.realpath(run.path("y%d" % n, "x"))[:-2]
    text = w["text"].replace("`", OUTSIDE[n % 3])
    args = TARGETS[n % len(TARGETS)]
    if args[-1] == "kt" and re.search(r"\bset\b", text):   # Kotlin has no setter without a getter
        args = TARGETS[0]
    r = compile_text(run, os.path.join(d, "v"), text, args)
    probs = []
    syn = [(int(a), int(b)) for a, b in re.findall(r"a\.bb:(\d+):(\d+): syntax error", r.err)]
    if r.crashed():
        probs.append("the tool crashes or hangs (exit %s): %s" % (r.rc, r.err[-500:]))
    elif w["wrong"] or w["junk"]:
        if r.rc == 0:
            probs.append("accepted, though it is not in the grammar")
        if r.files:
            probs.append("refused, yet wrote %s" % sorted(r.files))
        junk = [tuple(j) for j in w["junk"]]
        for j in junk:
            if j not in syn:
                probs.append("no syntax error reported at line %d, column %d, where there is a stray character, but at %s" % (j[0], j[1], syn))
        rest = [p for p in syn if p not in junk]
        if w["wrong"]:
            at = tuple(w["place"])
            if not rest or rest[0] != at:
                probs.append("the text goes wrong at line %d, column %d, but the syntax errors are at %s" % (at + (syn,)))
        elif rest:
            probs.append("syntax errors at %s, where nothing is wrong" % rest)
    else:
        if syn or "syntax error" in r.err:
            probs.append("syntax error reported in a text of the grammar: " + r.err[:300])
        if r.rc != 0 and (r.files or not r.err.strip()):
            probs.append("refused without a message, or with files written: %s" % sorted(r.files))
    if w["same"] and not w["wrong"] and not probs:
        c = compile_text(run, os.path.join(d, "c"), w["src"], args)
        plain = lambda x: re.sub(r"\S*a\.bb:\d+:\d+:?", "", x.err)
        if c.rc != r.rc or plain(c) != plain(r):
            probs.append("other blank space and comments, another verdict: exit %s instead of %s\n%s" % (r.rc, c.rc, r.err[:700]))
        elif r.files != c.files:
            diff = [k for k in sorted(set(r.files) | set(c.files)) if r.files.get(k) != c.files.get(k)]
            probs.append("another spelling (blank space, comments, empty statements) generates another %s" % diff)
    shutil.rmtree(d, ignore_errors=True)
    return text, args, probs


def check(run):
    run.bubbler()
    p = run.path("syntax", "pool.json")
    texts = pool(run, 60 if run.thorough else 24)
    with open(p, "w") as f:
        json.dump(texts, f)
    futs = []
    per = 2500 if run.thorough else 180
    for i in range(8):
        out = run.path("syntax", "%d.jsonl" % i)
        env = {"MODE": "draw", "OUT": out, "POOL": p, "SPOIL": [45, 0, 60, 30][i % 4], "MAXTOK": [60, 120, 30, 200][i // 2]}
        futs.append((out, run.pool.submit(run.tlc, "Syntax", None, env, per, 4000, run.seed * 40 + i, 1, 3000, "2g")))
    out = run.path("syntax", "all.jsonl")
    env = {"MODE": "all", "OUT": out, "POOL": "", "SPOIL": 0, "MAXTOK": 3 if run.thorough else 2}
    futs.append((out, run.pool.submit(run.tlc, "Syntax", None, env, None, 100, 1, 1, 3000, "6g")))
    ws = []
    for out, f in futs:
        f.result()
        with open(out) as fh:
            got = [json.loads(l) for l in fh]
        if out.endswith("all.jsonl"):
            run.notes["sequences"] = len(got)
            k = max(1, len(got) // (60000 if run.thorough else 3000))
            got = got[run.seed % k::k]
        ws += got
    tally = {"refused": 0, "grammatical": 0, "same": 0}
    for n, (text, args, probs) in enumerate(run.pool.map(lambda x: replay(run, x[1], x[0]), list(enumerate(ws)))):
        w = ws[n]
        tally["same" if w["same"] and not w["wrong"] else "refused" if w["wrong"] or w["junk"] else "grammatical"] += 1
        run.count("traces_validated_against_impl")
        for q in probs:
            run.violation("%s\n    (bubbler %s)\n%s" % (q, " ".join(args), text[:1500]), {"text": text, "args": args, "world": w, "problem": q})
    if min(tally.values()) < 50:
        raise CheckError("too few of a kind: %s" % tally)
    run.notes.update(tally)
    run.cov["samples"] = [w for w in ws if len(w["text"]) < 300][:3]
