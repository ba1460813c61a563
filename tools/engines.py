"""The engines: each explores a part of the specification, binds it to the real
code, and returns what it found."""
import json
import os
import random
import time

import model_texts
import tours
from vlib import SPEC, Result, Broken, parallel, quoted, run_harness, tlc, tlc_error, tlc_stats


class Ctx:
    def __init__(self, builder, work, seed, tier, prop):
        self.builder, self.work, self.seed, self.tier, self.prop = builder, work, seed, tier, prop
        self.n = 0

    def dir(self, name):
        self.n += 1
        d = os.path.join(self.work, "%s_%d" % (name, self.n))
        os.makedirs(d)
        return d


def crashed(res, died, what, args):
    """The real code took the whole harness down."""
    i = max(died.find("panic:"), died.find("fatal error:"), 0)
    res.diffs.append({"what": "crash", "detail": died[i:i + 300], "owners": ["ANY"], "replay": {"harness": args, "stderr": died[i:i + 4000], "what": what}})


def lines_of(path, lo, hi):
    out = []
    with open(path) as f:
        for i, l in enumerate(f, 1):
            if i > hi:
                break
            if i >= lo:
                out.append(l.rstrip("\n"))
    return out


def validate(ctx, res, d, args, module="Trace", what="trace", env=None):
    """Validates the trace in a directory."""
    trace = os.path.join(d, "trace.ndjson")
    e = {"TRACE": trace, "TEXTS": os.path.join(d, "texts.json")}
    e.update(env or {})
    rc, out = tlc(module, module + ".cfg", e, d)
    ds = quoted(out, "DIFF")
    n = sum(1 for _ in open(trace))
    for x in ds:
        l = x.get("l", 0)
        ep = [r for r in lines_of(trace, max(1, l - 400), l)] if l else []
        eps = []
        for r in ep:
            j = json.loads(r)
            if j.get("ep") == x.get("ep"):
                j.pop("post", None)
                eps.append(j)
        x["replay"] = {"harness": args, "diff": {k: x[k] for k in x if k != "replay"}, "history": eps[-12:]}
        res.diffs.append(x)
    if rc != 0:
        # what the real code did is beyond what the specification can even describe
        res.diffs.append({"what": "rejected", "detail": tlc_error(out)[:300], "owners": ["ANY"],
                          "replay": {"harness": args, "tlc": tlc_error(out)}})
    g, m = tlc_stats(out)
    res.judged += m
    res.records += n
    for r in lines_of(trace, 1, n):
        j = json.loads(r)
        if j["op"] == "Open":
            continue
        # non-trivial: it changed something, or reported something, or was refused for a reason
        res.kinds.add(hash((j["op"], json.dumps(j["a"], sort_keys=True), j["r"]["ok"], j.get("err", ""), len(j.get("post", {}).get("us", [])))))
        if len(res.samples) < 3:
            j.pop("post", None)
            res.samples.append(j)
    return n


def random_traces(ctx, profile, jobs, worlds, steps, faults=6, real=False):
    """Random histories of the real library, validated by Trace."""
    res = Result("random:" + profile)
    binary = ctx.builder.build()

    def one(k):
        def f():
            r = Result("")
            d = ctx.dir("r_" + profile)
            args = ["random", "-seed", str(ctx.seed * 1000 + k), "-profile", profile, "-worlds", str(worlds), "-steps", str(steps), "-faults", str(faults), "-out", d]
            if real:
                args.append("-real")
            died, _, _ = run_harness(binary, args, d)
            if died:
                crashed(r, died, "random history", args)
                return r
            validate(ctx, r, d, args)
            r.traces = worlds
            return r
        return f

    for r in parallel([one(k) for k in range(jobs)]):
        merge(res, r)
    return res


def merge(res, r):
    res.diffs += r.diffs
    res.states += r.states
    res.trans += r.trans
    res.traces += r.traces
    res.records += r.records
    res.evals += r.evals
    res.judged += r.judged
    res.kinds |= r.kinds
    res.samples = (res.samples + r.samples)[:6]
    for k, v in r.notes.items():
        res.note(k, v)


POLICY = {"password": {"min_length": 8, "max_length": 128}, "user": {"min_length": 3, "max_length": 50}}


def model(ctx, feature, kv=2, slots=2, budget=None, walk=150, split=4):
    """Explores a small model, and takes the real library along tours that
    cover its edges."""
    res = Result("model:%s kv=%d slots=%d" % (feature, kv, slots))
    d = ctx.dir("m_" + feature)
    texts = model_texts.write(os.path.join(d, "mt.json"), os.path.join(d, "mn.json"))
    cfg = open(os.path.join(SPEC, "Model.cfg")).read()
    cfg = cfg.replace('Feature = "users"', 'Feature = "%s"' % feature).replace("KV = 2", "KV = %d" % kv).replace("Slots = 2", "Slots = %d" % slots)
    p = os.path.join(d, "Model.cfg")
    open(p, "w").write(cfg)
    rc, out = tlc("Model", p, {"TEXTS": os.path.join(d, "mt.json"), "NAMES": os.path.join(d, "mn.json")}, d)
    if rc != 0:
        raise Broken("the model %s is not right:\n%s" % (feature, tlc_error(out)))
    res.trans, res.states = tlc_stats(out)
    nodes, edges = tours.edges_of(out.splitlines())
    rnd = random.Random(ctx.seed)
    walks, left = tours.tours(edges, 0, walk, rnd, budget)
    res.note("model_edges", len(edges))
    res.note("model_edges_replayed", len(edges) - left)
    binary = ctx.builder.build()
    pol = json.loads(json.dumps(POLICY))
    pol["password"]["keep_versions"] = kv
    parts = [walks[i::split] for i in range(split)]

    def one(k):
        def f():
            r = Result("")
            if not parts[k]:
                return r
            w = ctx.dir("p_" + feature)
            plan = os.path.join(w, "plan.json")
            json.dump({"policy": pol, "walks": [[tours.concrete(edges[e][2], model_texts.vocabulary(texts, k)) for e in walk] for walk in parts[k]]}, open(plan, "w"))
            args = ["plan", "-seed", str(ctx.seed * 1000 + k), "-in", plan, "-out", w]
            died, _, _ = run_harness(binary, args, w)
            if died:
                crashed(r, died, "tour", args)
                return r
            validate(ctx, r, w, ["plan", feature, "kv=%d" % kv, "slots=%d" % slots, "part=%d" % k])
            r.traces = len(parts[k])
            return r
        return f

    for r in parallel([one(k) for k in range(split)]):
        merge(res, r)
    return res


def scenario(ctx, name, module="Trace"):
    """A scripted history."""
    res = Result("scenario:" + name)
    d = ctx.dir("s_" + name)
    args = ["scenario", "-profile", name, "-seed", str(ctx.seed), "-out", d]
    died, _, _ = run_harness(ctx.builder.build(), args, d)
    if died:
        crashed(res, died, "scenario", args)
        return res
    validate(ctx, res, d, args, module)
    res.traces = 1
    return res


def table(ctx, module, cmd, n=0, extra=(), chunk=3000, kind="std", pairs=False):
    """A decision table: the cases of the specification, and random ones,
    executed by the real code and judged by the table."""
    res = Result("table:" + module)
    d = ctx.dir("t_" + module)
    cases = os.path.join(d, "cases.json")
    rc, out = tlc(module, module + ".cfg", {"MODE": "cases", "OUT": cases, "PAIRS": "yes" if pairs else "no", "DEPTH": "deep" if ctx.tier == "thorough" else ""}, d)
    if rc != 0:
        raise Broken("the cases of %s cannot be listed:\n%s" % (module, tlc_error(out)))
    binary = ctx.builder.build(kind)
    args = [cmd, "-seed", str(ctx.seed), "-steps", str(n), "-out", d] + list(extra)
    if os.path.exists(cases):
        args += ["-in", cases]
    died, _, _ = run_harness(binary, args, d)
    if died:
        crashed(res, died, "table", args)
        return res
    lines = open(os.path.join(d, "trace.ndjson")).read().splitlines()

    def one(k):
        def f():
            w = ctx.dir("j_" + module)
            p = os.path.join(w, "trace.ndjson")
            part = lines[k:k + chunk]
            open(p, "w").write("\n".join(part) + "\n")
            rc, out = tlc(module, module + ".cfg", {"MODE": "judge", "TRACE": p, "PAIRS": "no", "DEPTH": ""}, w)
            ds = quoted(out, "DIFF")
            for x in ds:
                x["replay"] = {"harness": args[:-2] if "-in" in args else args, "record": json.loads(part[x["l"] - 1])}
            if rc != 0:
                ds.append({"what": "rejected", "detail": tlc_error(out)[:300], "owners": ["ANY"], "replay": {"tlc": tlc_error(out)}})
            return ds, tlc_stats(out)[1]
        return f

    for ds, n in parallel([one(k) for k in range(0, len(lines), chunk)]):
        res.diffs += ds
        res.judged += n
    res.evals = len(lines)
    res.kinds |= {hash(l) for l in lines}
    res.samples = [json.loads(x) for x in lines[:2]]
    return res


def crash(ctx, jobs, worlds, steps, faults):
    """Histories under the tracer: every file-system call of every operation is
    recorded, and made to fail; what crashes leave is derived by Crash, loaded,
    and used."""
    res = Result("crash:" + ("faults" if faults else "images"))
    binary = ctx.builder.build()

    def one(k):
        def f():
            r = Result("")
            d = ctx.dir("c")
            root = ctx.dir("cs")
            args = ["tracer", "-seed", str(ctx.seed * 1000 + k), "-profile", "disk", "-worlds", str(worlds), "-steps", str(steps), "-faults", str(faults), "-out", d, "-scratch", root]
            died, so, _ = run_harness(binary, args, d)
            if died:
                crashed(r, died, "traced history", args)
                return r
            for line in so.splitlines():
                f = line.split()
                if len(f) == 2 and f[1].isdigit():
                    r.note("calls:" + f[0], int(f[1]))
            validate(ctx, r, d, args)
            judge(ctx, r, d, "fs.ndjson", "Crash", args)
            if not faults:
                w = ctx.dir("im")
                iargs = ["images", "-seed", str(ctx.seed * 1000 + k), "-in", os.path.join(d, "images.json"), "-out", w]
                died, _, _ = run_harness(binary, iargs, w)
                if died:
                    crashed(r, died, "images", args)
                    return r
                r.note("images", judge(ctx, r, w, "trace.ndjson", "Image", args, {"MODE": "judge", "PAIRS": "no"}))
            r.traces = worlds
            return r
        return f

    for r in parallel([one(k) for k in range(jobs)]):
        merge(res, r)
    return res


def conc(ctx, jobs, worlds, steps, kind):
    """Concurrent histories: an order that explains each of them is searched for
    by Lin; with kind "race", the race detector watches, too."""
    res = Result("concurrent:" + kind)
    binary = ctx.builder.build(kind)

    def one(k):
        def f():
            r = Result("")
            d = ctx.dir("lin")
            args = ["conc", "-seed", str(ctx.seed * 1000 + k), "-worlds", str(worlds), "-steps", str(steps), "-out", d]
            died, _, se = run_harness(binary, args, d)
            if died:
                crashed(r, died, "concurrent history", args)
                return r
            races = se.split("WARNING: DATA RACE")[1:]
            for x in races[:3]:
                r.diffs.append({"what": "race", "detail": x[:300], "owners": ["C13"], "replay": {"harness": args, "races": len(races), "report": x[:3000]}})
            n = judge(ctx, r, d, "trace.ndjson", "Lin", args, {"TEXTS": os.path.join(d, "texts.json")}, True)
            r.traces = n
            return r
        return f

    for r in parallel([one(k) for k in range(jobs)]):
        merge(res, r)
    return res


def judge(ctx, res, d, name, module, args, env=None, explore=False):
    """Has a module judge the records of a file."""
    p = os.path.join(d, name)
    e = {"TRACE": p}
    e.update(env or {})
    rc, out = tlc(module, module + ".cfg", e, d)
    lines = open(p).read().splitlines()
    if explore:
        g, n = tlc_stats(out)
        res.trans, res.states = res.trans + g, res.states + n
    for x in quoted(out, "DIFF"):
        j = json.loads(lines[x["l"] - 1])
        win = [j] if "w" not in j else [{k: q[k] for k in ("ev", "n", "ino", "sync", "errno", "op", "ok", "fired", "targets", "entries")}
                                        for q in map(json.loads, lines) if q["w"] == j["w"]]
        x["replay"] = {"harness": args, "module": module, "records": win}
        res.diffs.append(x)
    if rc != 0:
        res.diffs.append({"what": "rejected", "detail": tlc_error(out)[:300], "owners": ["ANY"], "replay": {"harness": args, "tlc": tlc_error(out)}})
    res.evals += len(lines)
    res.kinds |= {hash(l) for l in lines}
    if not explore:
        res.judged += tlc_stats(out)[1]
    return len(lines)


def design(ctx, module, variants, depth=""):
    """A design model: it holds as intended, and not in any of its variants."""
    res = Result("design:" + module)

    def one(v):
        def f():
            d = ctx.dir("d_" + module)
            rc, out = tlc(module, module + ".cfg", {"VARIANT": v, "DEPTH": depth}, d, workers=2)
            bad = "is violated" in out
            if rc != 0 and not bad:
                raise Broken("the model %s (%s) cannot be checked:\n%s" % (module, v, tlc_error(out)))
            if bad != (v != "intended"):
                raise Broken("the model %s (%s) is not right:\n%s" % (module, v, tlc_error(out)))
            return tlc_stats(out) if v == "intended" else (0, 0)
        return f

    for g, n in parallel([one(v) for v in ["intended"] + variants]):
        res.trans += g
        res.states += n
    res.note("variants_refuted", len(variants))
    return res
