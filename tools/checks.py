"""Which engines decide which property, and the evidence."""
import engines as E

PROPS = ["C%02d" % i for i in range(1, 28)]


def rnd(profile, quick=(4, 6, 120), thorough=(24, 12, 250), faults=6, real=False):
    return ("random", dict(profile=profile, faults=faults, real=real), dict(zip(("jobs", "worlds", "steps"), quick)), dict(zip(("jobs", "worlds", "steps"), thorough)))


def mdl(feature, quick=None, thorough=None):
    return ("model", dict(feature=feature), quick or {}, thorough or {})


def scn(name):
    return ("scenario", dict(name=name), {}, {})


def tbl(module, cmd, quick=0, thorough=0, **more):
    return ("table", dict(module=module, cmd=cmd, **more), dict(n=quick), dict(n=thorough))


def crs(faults, quick=(4, 5, 12), thorough=(16, 10, 40)):
    return ("crash", dict(faults=faults), dict(zip(("jobs", "worlds", "steps"), quick)), dict(zip(("jobs", "worlds", "steps"), thorough)))


def cnc(kind, quick=(4, 2, 60), thorough=(16, 3, 600)):
    return ("conc", dict(kind=kind), dict(zip(("jobs", "worlds", "steps"), quick)), dict(zip(("jobs", "worlds", "steps"), thorough)))


def dsg(module, *variants):
    return ("design", dict(module=module, variants=list(variants)), {}, dict(depth="deep"))


ENGINES = {
    "design": lambda ctx, **k: E.design(ctx, **k),
    "conc": lambda ctx, **k: E.conc(ctx, **k),
    "crash": lambda ctx, **k: E.crash(ctx, **k),
    "random": lambda ctx, **k: E.random_traces(ctx, **k),
    "model": lambda ctx, **k: E.model(ctx, **k),
    "table": lambda ctx, **k: E.table(ctx, **k),
    "scenario": lambda ctx, **k: E.scenario(ctx, **k),
}

BIG = dict(budget=6000)
MANY = rnd("many", (3, 1, 60), (12, 3, 200))
PLAN = {
    "C01": [mdl("users", {}, dict(slots=3)), rnd("users"), rnd("base"), tbl("Load", "load", 0, 4000, chunk=500), MANY],
    "C02": [scn("known"), mdl("password", {}, dict(kv=3, slots=3)), rnd("auth"), rnd("change", (2, 6, 120))],
    "C03": [mdl("password", {}, dict(kv=3, slots=3)), rnd("change"), rnd("base", (2, 6, 120))],
    "C04": [mdl("api"), mdl("public", dict(budget=4000), {}), rnd("bind"), rnd("base", (2, 6, 120))],
    "C05": [scn("known"), mdl("api", dict(slots=3), dict(slots=4)), rnd("apikey"), rnd("base", (2, 6, 120)), MANY],
    "C06": [mdl("public", BIG, dict(slots=3)), rnd("pubkey"), rnd("base", (2, 6, 120)), MANY],
    "C07": [mdl("mfa", BIG, dict(slots=3)), rnd("mfa"), rnd("base", (2, 6, 120)), MANY],
    "C08": [tbl("Totp", "totp", 3000, 60000), rnd("mfa")],
    "C09": [tbl("Assertion", "assertion", 100, 2000, pairs=True), mdl("mfa", BIG, dict(slots=3)), rnd("wa", (6, 6, 120))],
    "C10": [mdl("api"), rnd("disk"), rnd("base"), crs(1, (2, 8, 30), (8, 20, 100))],
    "C11": [crs(1, (4, 10, 50), (16, 20, 200)), mdl("api"), rnd("disk", faults=35), rnd("base", faults=35)],
    "C12": [dsg("Commit", "no sync", "no syncdir", "late sync", "remove first", "in place"), crs(0), crs(1, (4, 10, 50), (16, 20, 200))],
    "C13": [dsg("Locking", "no lock", "read lock", "check outside", "two sections", "save outside", "upgrade", "early return", "no read lock", "lock twice",
                "refused, locked"), cnc("std", (4, 4, 120), (16, 4, 900)), cnc("race", (4, 2, 60), (8, 3, 480))],
    "C14": [tbl("Policy", "policy", 200, 3000), rnd("users"), rnd("change")],
    "C15": [tbl("Load", "load", 300, 20000, chunk=500)],
    "C16": [crs(1, (2, 10, 40), (8, 20, 100)), tbl("Hashing", "hashing", 3, 60, extra=("-real",)), rnd("base"), rnd("apikey"), rnd("change", (2, 6, 120))],
    "C17": [mdl("api"), rnd("base", faults=15), rnd("disk", faults=15), rnd("mfa", (2, 6, 120))],
    "C18": [tbl("Lexical", "lexical", 1500, 30000), mdl("users"), rnd("users"), rnd("auth")],
    "C19": [tbl("Qr", "qr", 2000, 40000)],
    "C20": [tbl("Register", "register", pairs=True), tbl("Assertion", "assertion", 100, 2000, pairs=True), rnd("chaos")],
    "C21": [mdl("users"), rnd("reads"), rnd("base"), MANY],
    "C22": [tbl("Hashing", "hashing", 1, 20, extra=("-real",)), rnd("auth"), mdl("users")],
    "C23": [tbl("PublicKey", "publickey", 25, 600)],
    "C25": [dsg("Life", "former ones stay", "all kept", "oldest kept", "any old password", "added twice", "added in front", "same key twice", "same secret twice", "first deleted", "enabled again"),
            tbl("Person", "person", 300, 20000, chunk=500)],
    "C26": [tbl("Sentinel", "sentinel", 300, 5000), tbl("Register", "register"), tbl("Totp", "totp", 100, 3000), tbl("Lexical", "lexical", 100, 5000), tbl("PublicKey", "publickey", 20, 3000), tbl("Load", "load", 100, 5000, chunk=500),
            mdl("users"), rnd("base", (2, 6, 120), faults=15), rnd("chaos"), rnd("mfa", (2, 6, 120)), rnd("pubkey", (2, 6, 120)), rnd("change", (2, 6, 120))],
    "C27": [tbl("Objects", "objects", extra=("-real",))],
    "C24": [tbl("Random", "strings", 200, 3000), rnd("apikey"), rnd("users", (2, 6, 120)), rnd("mfa", (2, 6, 120))],
}

# An exhaustively explored model is bound to the code, unless it is said here.
LEVEL = {"C08": "exploration", "C11": "fault_enumeration", "C14": "exploration", "C15": "exploration", "C16": "exploration", "C19": "exploration",
         "C20": "exploration", "C23": "exploration", "C24": "exploration", "C26": "exploration", "C27": "exploration"}


def plan(prop, tier):
    fs = []
    for kind, base, quick, thorough in PLAN[prop]:
        args = dict(base)
        args.update(quick if tier == "quick" else thorough)
        fs.append(lambda ctx, kind=kind, args=args: ENGINES[kind](ctx, **args))
    return fs


RULE = ("Operations of the library with arguments drawn from pools that make requests succeed, collide and fail, in random histories and in tours "
        "covering every edge of small models, and the cases of the decision tables; each record is one call of the real library, and non-trivial as its result, "
        "the state in memory and the file are all compared with what the specification allows (openings are not counted). Distinct are the records that "
        "differ in the operation, the arguments, the outcome or the number of users; those of tables, in anything recorded.")


def evidence(prop, tier, seed, results):
    cov = {
        "states": sum(r.states + r.judged for r in results),
        "transitions": sum(r.trans for r in results),
        "traces_validated_against_impl": sum(r.traces for r in results),
        "evaluations": sum(r.records + r.evals for r in results),
        "distinct_nontrivial": sum(len(r.kinds) for r in results),
        "rule": RULE,
        "samples": [s for r in results for s in r.samples[:2]][:8] or ["none"],
        "engines": [{"engine": r.name, "states": r.states, "states_judging": r.judged, "transitions": r.trans, "traces": r.traces, "records": r.records, "evaluations": r.evals, "distinct": len(r.kinds),
                     "deviations": len(r.diffs), "wall_s": round(r.wall, 1), **r.notes} for r in results],
    }
    return {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "model_checking"), "coverage": cov,
            "assumptions": ["bcrypt and the other primitives of golang.org/x/crypto and the Go standard library are right",
                            "the harness projects the exported fields of the library's state faithfully"]}

_M = "TLA+ state machine (Identity) model-checked by TLC in small instances, every edge replayed into the real library; random histories of the real library validated against it by TLC (Trace)"
_R = "histories of the real library validated by TLC against the TLA+ state machine (Identity, Results, Trace)"
_T = "TLA+ decision table (%s): its cases and random ones executed by the real library, each result judged by TLC"
TECH = {
    "C01": _M + "; TLA+ file format (Load) for files with duplicates",
    "C02": _M, "C03": _M, "C04": _M, "C05": _M, "C06": _M, "C07": _M,
    "C08": _T % "Totp" + "; " + _R,
    "C09": _T % "Assertion, all pairs of deviations" + "; " + _M,
    "C10": _M, "C17": _M, "C21": _M,
    "C11": "recorded system calls of the real library, each made to fail, judged by TLC (Crash, Trace); " + _M,
    "C12": "TLA+ write protocol on a crashing file system (Commit, Fs) model-checked by TLC, wrong variants refuted; system calls of the real library recorded, all crash states derived by TLC (Crash), built, loaded and used (Image)",
    "C13": "TLA+ locking protocol (Locking) model-checked by TLC, wrong variants refuted; concurrent histories of the real library, an explaining order searched by TLC (Lin), also under the race detector",
    "C14": _T % "Policy" + "; " + _R,
    "C15": _T % "Load: the file format",
    "C16": _T % "Hashing, at the real cost" + "; " + _R + ", all files and results searched for secrets",
    "C18": _T % "Lexical" + "; " + _M,
    "C19": _T % "Qr, which decodes the URI",
    "C20": _T % "Register and Assertion, all pairs of deviations" + "; " + _R + " with arbitrary bytes",
    "C22": _T % "Hashing, at the real cost" + "; " + _M,
    "C23": _T % "PublicKey",
    "C25": "TLA+ model of a user object (Account, Life) model-checked by TLC, wrong variants refuted; lives of real user objects, enumerated by the specification and random, each step judged by TLC (Person)",
    "C26": _T % "Sentinel, Register, Totp, Lexical, PublicKey, Load" + "; " + _R + ", each refusal by the reasons that apply (Refusals)",
    "C27": _T % "Objects",
    "C24": _T % "Random, several processes" + "; " + _R,
}
_TN = "Exhaustive for the listed cases (single deviations, and pairs where said) and random beyond them; not a proof for all inputs. "
_MN = "The models are exhaustive for their bounds, and every edge (or a budget of them) is replayed; what is known of the real library is what these and the random histories did, with faults, reloads and unusual input - not a proof for all histories. "
_TR = "Trusts bcrypt, the standard library, TLC, and the harness's projection of the exported state."
NOTES = {p: (_TN if LEVEL.get(p) == "exploration" else _MN) + _TR for p in PROPS}
NOTES["C11"] = "Every file-system call of the sampled histories is made to fail, one at a time; double faults are not tried, nor are permission errors of opens (the library then writes in place). " + _TR
NOTES["C12"] = "All crash points and all states they may leave, by the model of Fs (entries and contents become durable independently until synchronised), for the sampled histories; the protocol itself exhaustively. " + _TR
NOTES["C13"] = "The protocol exhaustively for three threads; real schedules as the Go scheduler and injected delays produce them. " + _TR
NOTES["C02"] += " Known finding C02-bcrypt: passwords agreeing in what bcrypt looks at."
NOTES["C05"] += " Known finding C05-bcrypt: keys altered beyond their 72nd character."
