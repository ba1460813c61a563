"""Building the harness from the working tree of /repo, running it, validating
its traces with TLC, and reporting."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xmx3g",
        "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class Broken(Exception):
    """The check itself did not work: it gives no answer."""


def goenv(**more):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false", GOPATH="/root/go",
             GOCACHE="/root/.cache/go-build", GOSUMDB="off")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin"
    e.pop("GOROOT", None)
    e.update(more)
    return e


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return p.returncode, p.stdout, p.stderr


BCRYPT_GEN = "func GenerateFromPassword(password []byte, cost int) ([]byte, error) {"
BCRYPT_CMP = "func CompareHashAndPassword(hashedPassword, password []byte) error {"


class Builder:
    """Builds the harness, against /repo's working tree. Nothing is written
    into /repo: the module of the harness is put together in a directory of its
    own, with a copy of golang.org/x/crypto whose bcrypt reports its calls and
    can be made cheap."""

    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.bins = {}

    def prepare(self):
        src = os.path.join(self.work, "src")
        if os.path.isdir(src):
            return src
        tmp = src + ".tmp"
        shutil.copytree(os.path.join(VERIF, "harness"), tmp)
        rc, out, err = sh(["go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/crypto"], cwd=REPO, env=goenv())
        if rc:
            raise Broken("go list: " + err)
        xc = os.path.join(self.work, "xcrypto")
        shutil.copytree(out.strip(), xc)
        os.system("chmod -R u+w '%s'" % xc)
        f = os.path.join(xc, "bcrypt", "bcrypt.go")
        s = open(f).read()
        if BCRYPT_GEN not in s or BCRYPT_CMP not in s:
            raise Broken("unexpected bcrypt")
        s = s.replace(BCRYPT_GEN, "var VerifClamp int\nvar VerifHook func(kind string, cost int)\n\n" + BCRYPT_GEN +
                      "\n\tif VerifHook != nil {\n\t\tVerifHook(\"gen\", cost)\n\t}\n\tif VerifClamp > 0 && cost > VerifClamp && cost <= MaxCost {\n\t\tcost = VerifClamp\n\t}", 1)
        # Hashes that were not made here, e.g. constants of the code, are costly: compared once.
        s = s.replace(BCRYPT_CMP, "var verifMemo sync.Map\n\n" + BCRYPT_CMP +
                      "\n\tc, _ := Cost(hashedPassword)\n\tif VerifHook != nil {\n\t\tVerifHook(\"cmp\", c)\n\t}"
                      "\n\tif VerifClamp == 0 || c <= VerifClamp {\n\t\treturn verifCompare(hashedPassword, password)\n\t}"
                      "\n\tkey := string(hashedPassword) + \"\\x00\" + string(password)"
                      "\n\tif v, ok := verifMemo.Load(key); ok {\n\t\terr, _ := v.(error)\n\t\treturn err\n\t}"
                      "\n\terr := verifCompare(hashedPassword, password)\n\tif err == nil {\n\t\tverifMemo.Store(key, true)\n\t} else {\n\t\tverifMemo.Store(key, err)\n\t}\n\treturn err\n}\n\n" +
                      BCRYPT_CMP.replace("CompareHashAndPassword", "verifCompare"), 1)
        s = s.replace("import (", "import (\n\t\"sync\"", 1)
        open(f, "w").write(s)
        mod = open(os.path.join(tmp, "go.mod.in")).read()
        req = re.findall(r"^require \((.*?)^\)", open(os.path.join(REPO, "go.mod")).read(), re.S | re.M)
        mod = mod.replace("=> /repo", "=> " + REPO)
        mod += "\nreplace golang.org/x/crypto => %s\n\n" % xc + "".join("require (%s)\n" % r for r in req)
        open(os.path.join(tmp, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
        os.rename(tmp, src)
        return src

    def build(self, kind="std"):
        with self.lock:
            if kind in self.bins:
                return self.bins[kind]
            src = self.prepare()
            out = os.path.join(self.work, "h_" + kind)
            cmd = ["go", "build", "-o", out]
            tags = ["verif"]
            if kind == "race":
                cmd.append("-race")
            cmd += ["-tags", ",".join(tags), "."]
            rc, so, se = sh(cmd, cwd=src, env=goenv(), timeout=800)
            if rc:
                raise Broken("the harness does not build against %s:\n%s" % (REPO, se[-4000:]))
            self.bins[kind] = out
            return out


def tlc(module, cfg, env, work, workers=1, timeout=800, extra=()):
    """Runs TLC; returns its output. The work directory is one of its own."""
    meta = tempfile.mkdtemp(prefix="md", dir=work)
    e = dict(os.environ)
    e.update(env)
    cmd = list(JAVA)
    cmd.insert(1, "-Djava.io.tmpdir=" + meta)
    cmd += ["-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken("TLC took more than %d s on %s" % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


def quoted(out, tag):
    """The JSON values printed as "TAG {...}"."""
    r = []
    for line in out.splitlines():
        if line.startswith('"' + tag + " "):
            r.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return r


def tlc_error(out):
    i = out.find("Error:")
    if "semantic analysis failed" in out:
        i = max(0, i - 1500)
    return re.sub(r"\n{2,}", "\n", out[i:i + 2500]) if i >= 0 else out[-1500:]


class Result:
    """What an engine found."""

    def __init__(self, name):
        self.name = name
        self.diffs = []      # dicts: what, detail, owners, replay (a dict)
        self.states = 0      # distinct states of explored models
        self.trans = 0       # their transitions
        self.traces = 0      # traces of the real code validated
        self.records = 0     # steps of these
        self.evals = 0       # further executions of the real code judged
        self.judged = 0      # states TLC went through judging these
        self.kinds = set()   # the distinct ones
        self.samples = []
        self.notes = {}
        self.wall = 0.0

    def note(self, k, v):
        self.notes[k] = self.notes.get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v


def run_harness(binary, args, work, timeout=700, env=None):
    """Runs a command of the harness; returns None, or what it died of."""
    e = goenv(**(env or {}))
    e["TMPDIR"] = work
    e["GORACE"] = "halt_on_error=0 exitcode=0"
    try:
        rc, so, se = sh([binary] + args, env=e, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise Broken("the harness took more than %d s: %s" % (timeout, " ".join(args)))
    if rc == 0:
        return None, so, se
    if "panic:" in se or "fatal error:" in se:
        return se, so, se
    raise Broken("the harness failed (%d): %s\n%s" % (rc, " ".join(args), se[-2000:]))


def parallel(fs, n=8):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]
