#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property. Exit 0: held, 1: violated, 2: no answer."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, codec, exprs, layout, names, output, process, syntax, worlds
from common import CheckError

JS = ("cjs", "esm")
ALL = codec.ALL

# property -> the parts of its check: (profile, quick count, thorough count per round, steps, keywords)
CODEC = {
    "C01": [("gridenc", 252, 504, 4, {"grid": 1}), ("gridarr", 96, 126, 3, {"grid": 1}), ("enc", 160, 400, 10, {}), ("huge", 24, 60, 8, {})],
    "C02": [("griddec", 252, 504, 4, {"grid": 1}), ("gridarr", 96, 126, 6, {"grid": 1}), ("dec", 160, 400, 10, {}), ("huge", 24, 60, 8, {})],
    "C03": [("gridconst", 200, 400, 8, {"grid": 1}), ("const", 200, 400, 12, {})],
    "C04": [("dsize", 240, 600, 8, {}), ("hugesz", 24, 60, 4, {})],
    "C05": [("hostile", 320, 600, 14, {"asan": 1})],
    "C06": [("sizes", 240, 600, 10, {"asan": 1}), ("huge", 24, 60, 8, {"asan": 1})],
    "C07": [("griddirty", 126, 252, 6, {"grid": 1}), ("gridarrdirty", 63, 126, 6, {"grid": 1}), ("dirty", 200, 500, 10, {})],
    "C10": [("compose", 240, 600, 9, {})],
    "C13": [("enums", 240, 600, 8, {})],
    "C18": [("lits", 240, 600, 8, {})],
    "C21": [("access", 168, 400, 16, {"opts": [[]]}), ("access", 96, 240, 16, {"opts": [["-memcpy", "-unroll", "0"]]}),
            ("hugeacc", 16, 48, 9, {"opts": [[], ["-memcpy"]]})],
    "C22": [("forms", 72, 200, 16, {"opts": [["-memcpy"], ["-minimal", "-single"]]}), ("forms", 96, 240, 16, {"opts": [[]], "asan": 1}),
            ("forms", 72, 200, 16, {"opts": [["-compat"]], "asan": 1})],
    "C23": [("equal", 240, 600, 16, {"opts": [[], ["-memcpy"], ["-minimal"]], "targets": ("java", "cs")})],
}


def opts_c08(run):
    zero = [[]]
    copy = [["-memcpy"]]
    return zero, copy


def codec_parts(run, parts, off=0):
    """Draw the behaviours of every part and replay them in all targets."""
    probs = []
    for pi, (profile, nq, nt, steps, kw) in enumerate(parts):
        n = nt if run.thorough else nq
        b = draw(run, profile, n, steps, kw, off * 100 + pi * 10)
        cflags = {}
        if kw.get("asan"):
            cflags = {"c": ["-fsanitize=address"], "cpp": ["-fsanitize=address"]}
        probs += codec.replay_all(run, [b], kw.get("targets", ALL), kw.get("opts", ((),)), cflags=cflags, chunk=kw.get("chunk", 24), ctx=kw.get("ctx"))
        run.notes.setdefault("profiles", {})
        run.notes["profiles"][profile] = run.notes["profiles"].get(profile, 0) + n
        if b and not run.cov["samples"]:
            run.cov["samples"] = [codec.Behaviour(b[0], "0", "X").schema.text()[:1500]] + \
                [{k: v for k, v in e.items()} for e in b[0]["log"][:2]]
    return probs


def draw(run, profile, n, steps, kw, off):
    if kw.get("grid"):
        # 4032 cells; a stride coprime to it spreads a partial run over all kinds, offsets and orders
        return codec.behaviours(run, profile, n, steps, cstride=4032 // (8 * n) | 1 if 8 * n < 4032 else 1,
                                cell0=off * 7 + run.seed - 1, seed_off=off)
    return codec.behaviours(run, profile, n, steps, seed_off=off)


def rounds(run, fn, quick_s=0, thorough_s=600):
    """Once in the quick tier; in the thorough tier until the time is up or something is found."""
    i = 0
    while True:
        t = time.time()
        fn(i)
        i += 1
        took = time.time() - t
        if not run.thorough or run.violations or time.time() - run.t0 + took > thorough_s:
            run.notes["rounds"] = i
            return


def check_codec(run):
    run.bubbler()
    parts = CODEC[run.prop]
    laws = {"C01": "Laws", "C04": "Reader"}.get(run.prop)
    f = laws and run.pool.submit(run.tlc, laws, workers=2)    # exhaustive: what the specification itself promises
    rounds(run, lambda i: codec_parts(run, parts, i))
    if f:
        f.result()


def check_c08(run):
    run.bubbler()

    def one(i):
        n = 300 if run.thorough else 130
        b = draw(run, "alias", n, 6, {}, i * 100)
        codec.replay_all(run, [b], ALL, [["-memcpy"]], cflags=ASAN)
        # without -memcpy: strings are still detached outside C; where nothing is shared everything is
        codec.replay_all(run, [b], ["cjs", "esm", "java", "py"], [[]])
        codec.replay_all(run, [b], ["cpp", "cs", "go"], [[]], ctx={"strings_only": True})
        d = draw(run, "sizes", 150 if run.thorough else 60, 6, {}, i * 100 + 50)
        codec.replay_all(run, [d], ["c", "cpp", "cs", "go"], [[], ["-memcpy"]])
    rounds(run, one)


ASAN = {"c": ["-fsanitize=address"], "cpp": ["-fsanitize=address"]}

OPTSETS = [
    ["-minimal"], ["-decnum"], ["-memcpy"], ["-compat"], ["-single"], ["-inner", "-relpath"],
    ["-signext", "arith"], ["-signext", "shift"], ["-unroll", "-1"], ["-unroll", "0"], ["-unroll", "2"],
    ["-unroll", "0", "-signext", "arith", "-decnum"], ["-minimal", "-single", "-memcpy", "-unroll", "-1"],
    ["-compat", "-memcpy", "-decnum", "-unroll", "0", "-single"],
    ["-minimal", "-signext", "arith", "-unroll", "-1", "-decnum", "-compat"],
]


def ignored(target, o):
    return target == "java" and "-single" in o and len(o) == 1


def check_c09(run):
    run.bubbler()

    def one(i):
        n = 40 if run.thorough else 14
        k = len(OPTSETS)
        b = draw(run, "opts", n * k, 7, {}, i * 100)
        g = draw(run, "gridarr", 10 * k, 3, {"grid": 1}, i * 100 + 50)
        h = draw(run, "huge", (4 if run.thorough else 1) * k, 6, {}, i * 100 + 75)
        # fully unrolled, a long array is more than a Java method can hold
        groups = [(b[j::k] + g[j::k] + ([] if "-1" in o else h[j::k]), o) for j, o in enumerate(OPTSETS)]
        codec.replay_pairs(run, groups, ALL, chunk=25)
    rounds(run, one)


SPLITSETS = [[], ["-single"], ["-relpath"], ["-memcpy"], ["-rmpath", "vp"], ["-single", "-minimal", "-compat"],
             ["-relpath", "-memcpy", "-unroll", "0"], ["-single", "-memcpy"], ["-relpath", "-rmpath", "vp", "-decnum"]]


def check_c17(run):
    run.bubbler()

    def one(i):
        k = len(SPLITSETS)
        b = draw(run, "multi", (30 if run.thorough else 9) * k, 6, {}, i * 100)
        e = draw(run, "multien", (15 if run.thorough else 4) * k, 6, {}, i * 100 + 50)
        c = draw(run, "chain", (20 if run.thorough else 8) * k, 6, {}, i * 100 + 75)
        codec.replay_split(run, [(b[j::k] + e[j::k] + c[j::k], o) for j, o in enumerate(SPLITSETS)], chunk=21)
        if not run.cov["samples"]:
            run.cov["samples"] = [{"split": b[0]["split"], "schema": b[0]["schema"]}]
    rounds(run, one)


def check_c14(run):
    run.bubbler()
    rounds(run, lambda i: exprs.check(run, 480 if run.thorough else 336, 24, i * 100))


def check_c20(run):
    """Every history of the ordered map up to a depth, and long random ones."""
    tool = run.go_tool("omap_main")
    depth = 5 if run.thorough else 4
    jobs = [("all", {"NKEYS": 2, "DEPTH": depth, "RANDOM": 0}, None)]
    n = 4000 if run.thorough else 400
    for i in range(7):
        jobs.append(("rnd%d" % i, {"NKEYS": 2 + i % 4, "DEPTH": 12 + 6 * i, "RANDOM": 1}, n))
    for i, nk in enumerate((20, 40)):  # large maps
        jobs.append(("big%d" % i, {"NKEYS": nk, "DEPTH": 60 + 60 * i, "RANDOM": 1}, 200 if run.thorough else 25))
    futs = []
    for name, env, sim in jobs:
        out = run.path("omap", name + ".jsonl")
        env["OUT"] = out
        futs.append((name, out, run.pool.submit(run.tlc, "OMap", None, env, sim, env["DEPTH"] + 3, run.seed * 10 + len(futs), 1, 3000, "6g" if sim is None and run.thorough else "2g")))
    for name, out, f in futs:
        f.result()
        rc, so, se = common.sh([tool, out], timeout=1200)
        last = so.strip().split("\n")[-1] if so.strip() else ""
        if rc != 0 or not last.startswith("DONE "):
            raise CheckError("omap driver: exit %s %s" % (rc, se[-2000:]))
        run.count("traces_validated_against_impl", int(last.split()[1]))
        for line in so.split("\n"):
            if line.startswith("BAD "):
                what, _, hist = line[4:].partition("\t")
                run.violation("ordered map: %s after %s" % (what, " ".join("%s(%s,%s)" % (e["op"], e["a"], e["b"]) for e in common.json.loads(hist))[:400]),
                              {"history": common.json.loads(hist)})
        if not run.cov["samples"]:
            with open(out) as fh:
                run.cov["samples"] = [common.json.loads(fh.readline())]
    run.notes["exhaustive_depth"] = depth


CHECKS = {p: check_codec for p in CODEC}
CHECKS.update({"C08": check_c08, "C09": check_c09, "C20": check_c20, "C11": layout.check_c11, "C12": worlds.check, "C19": layout.check_c19, "C15": output.check, "C16": process.check, "C17": check_c17, "C14": check_c14, "C24": syntax.check, "C25": names.check})


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    run = common.Run(prop, tier, seed)
    try:
        CHECKS[prop](run)
        return run.finish()
    except CheckError as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
        run.pool.shutdown(cancel_futures=True)
        run.cleanup()
        return 2
    except Exception:
        traceback.print_exc()
        run.pool.shutdown(cancel_futures=True)
        run.cleanup()
        return 2


if __name__ == "__main__":
    sys.exit(main())
