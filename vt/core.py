"""Common machinery of the checks: running TLC, observing the code, verdicts."""
import contextlib
import ctypes
import importlib
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TOOLS = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TOOLS, TOOLS)

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

BAD = -2147483647          # "not a value the specification could ever expect"
IMAX = 2147483646


class MachineryError(Exception):
    pass


class Hang(BaseException):
    pass


class Stuck(BaseException):
    """So many calls do not terminate that there is nothing more to learn."""


def _onalarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _onalarm)
_hard = resource.getrlimit(resource.RLIMIT_AS)[1]
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, _hard))


_libc = ctypes.CDLL(None)


def _unlimit():
    _libc.prctl(1, 9)           # TLC ends with the check that started it
    resource.setrlimit(resource.RLIMIT_AS, (_hard, _hard))


_hangs = 0
_spent = 0.0
_armed = False
_coral = os.path.join(REPO, "coral")


def _watch(main):
    """Ends code under test that a driver runs outside of call() and that does not come back."""
    n = 0
    while True:
        time.sleep(1)
        f, inside = sys._current_frames().get(main.ident), False
        while f is not None and not inside:
            inside = f.f_code.co_filename.startswith(_coral)
            f = f.f_back
        n = n + 1 if inside and not _armed else 0
        if n >= 100:
            signal.pthread_kill(main.ident, signal.SIGALRM)
            n = 90


def spoil(r):
    """The caller goes on to use the lists it got."""
    def go(x):
        if isinstance(x, list):
            for y in x:
                go(y)
            x.clear()
    if isinstance(r, dict) and r.get("k") == "ok":
        go(r["v"])


def call(fn, *args, secs=10, **kw):
    """Run the code under test; every outcome is an observation."""
    global _hangs, _spent, _armed
    if _spent > 500 and os.environ.get("VERIF_TIER") != "thorough":
        raise Stuck("calls that take seconds take minutes")
    began = time.monotonic()
    _armed = True
    signal.setitimer(signal.ITIMER_REAL, secs if _hangs < 5 else 1)
    try:
        v = fn(*args, **kw)
        return {"k": "ok", "v": v}
    except Hang:
        _hangs += 1
        if _hangs >= 40:
            raise Stuck("%d calls do not terminate" % _hangs)
        return {"k": "hang", "v": "hang"}
    except MachineryError:
        raise
    except RecursionError:
        return {"k": "exc", "v": "RecursionError"}
    except Exception as e:
        return {"k": "exc", "v": type(e).__name__, "msg": str(e)[:200]}
    except (SystemExit, GeneratorExit) as e:
        return {"k": "exc", "v": type(e).__name__}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _armed = False
        _spent += time.monotonic() - began


def ji(x, scale=1):
    """Exact integer form of x*scale, or BAD."""
    try:
        if isinstance(x, bool):
            return BAD
        y = x * scale
        n = int(y)
        if n != y or abs(n) > IMAX:
            return BAD
        return n
    except Exception:
        return BAD


def jq(x, scale):
    """x*scale rounded to an integer (for toleranced comparisons), or BAD."""
    try:
        if isinstance(x, (bool, str)) or x is None:
            return BAD
        y = x * scale
        if y != y or abs(y) > IMAX:
            return BAD
        return int(round(y))
    except Exception:
        return BAD


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vt_%s_" % pid)
        self.viol = []
        self.nviol = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.replayed = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.exhaustive = None
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"]
                          if k["property"] == pid and k["status"] == "known"]
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        if self.thorough:
            return thorough
        if isinstance(quick, int) and quick >= 25 and thorough >= 4 * quick:
            return 4 * quick                 # numbers of random cases; smaller ones are model constants
        return quick

    def path(self, *names):
        return os.path.join(self.work, *names)

    # -- verdicts ---------------------------------------------------------
    def violation(self, clause, detail, key=None):
        for k in self.known:
            if k["clause"] == clause and k["key"] == key:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.nviol += 1
        if len(self.viol) < 20:
            self.viol.append({"clause": clause, "detail": _brief(detail, 3000)})

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(_brief(x, 24))

    def finish(self, level="model_checking"):
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces + self.replayed,
            "spec_cases_replayed_in_code": self.replayed,
            "code_traces_judged_by_spec": self.traces,
            "logged_events_judged": self.events,
            "samples": self.samples or ["(none)"],
        }
        cov.update(self.notes)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3), "violations": self.nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        self.cleanup()
        if self.nviol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".replay.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "count": self.nviol, "violations": self.viol}, f,
                          indent=1, default=repr)
                f.write("\n")
            for v in self.viol[:5]:
                print("  violated clause %s: %s" % (
                    v["clause"], json.dumps(v["detail"], default=repr)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s states=%d transitions=%d replayed=%d traces=%d events=%d wall=%.1fs"
              % (self.pid, self.states, self.transitions, self.replayed,
                 self.traces, self.events, time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=800,
            args=(), prefixes=("@",), xmx="6g", count=True):
        """Run TLC on spec/<module>.tla with config text cfg (or <module>.cfg)."""
        if cfg is None:
            cfgp = os.path.join(SPEC, module + ".cfg")
        else:
            cfgp = self.path("%s_%d.cfg" % (module, len(os.listdir(self.work))))
            with open(cfgp, "w") as f:
                f.write(cfg)
        meta = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss32m", "-Xmx" + xmx, "-cp", CP,
               "tlc2.TLC", "-nowarning", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers or 8), "-config", cfgp, *args,
               os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, env=e, cwd=self.work, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               preexec_fn=_unlimit)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode("utf8", "replace")
        printed, rest = [], []
        for line in out.split("\n"):
            if line.startswith('"@'):
                s = json.loads(line)
                printed.append((s[1], json.loads(s[2:])))
            else:
                rest.append(line)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        if count:
            self.states += dist
            self.transitions += gen
        return {"ok": ok, "rc": p.returncode, "printed": printed,
                "text": "\n".join(rest), "generated": gen, "distinct": dist}

    def model_check(self, module, cfg=None, want_states=1, **kw):
        """Stage 1: the specification satisfies the property within its constants."""
        r = self.tlc(module, cfg, **kw)
        if not r["ok"]:
            raise MachineryError("model checking %s failed:\n%s" % (module, r["text"][-4000:]))
        if r["distinct"] < want_states:
            raise MachineryError("model %s is vacuous: %d states" % (module, r["distinct"]))
        self.notes.setdefault("models", []).append(
            {"module": module, "states": r["distinct"], "transitions": r["generated"]})
        return r

    def export(self, module, cfg=None, tag="E", **kw):
        """Model check and return what the specification printed under tag."""
        r = self.model_check(module, cfg, **kw)
        return sorted((v for t, v in r["printed"] if t == tag), key=lambda v: json.dumps(v, sort_keys=True))

    def oracle(self, module, sessions, cfg=None, tag="R", **kw):
        """Let the specification compute answers for given inputs.
        sessions: list of event lists; returns {(session, line): answer}."""
        r, _ = self._run_trace(module, sessions, cfg, **kw)
        if not r["ok"]:
            raise MachineryError("oracle %s failed:\n%s" % (module, r["text"][-4000:]))
        return {(v[0] - 1, v[1] - 1): v[2] for t, v in r["printed"] if t == tag}

    def _run_trace(self, module, sessions, cfg, **kw):
        tp = self.path("trace_%s_%d.ndjson" % (module, len(os.listdir(self.work))))
        with open(tp, "w") as f:
            for s in sessions:
                # "in" is for human readers only
                f.write(json.dumps([{k: v for k, v in e.items() if k != "in"} if isinstance(e, dict) else e
                                    for e in s]) + "\n")
        if cfg is None:
            cfg = "SPECIFICATION JSpec\nCHECK_DEADLOCK FALSE\n"
        env = dict(kw.pop("env", None) or {}, VT_TRACE=tp)
        return self.tlc(module, cfg, env=env, **kw), tp

    def judge(self, module, sessions, cfg=None, describe=None, keyof=None, **kw):
        """Stage 3: TLC decides whether each logged session is allowed."""
        sessions = [s for s in sessions if s]
        if not sessions:
            raise MachineryError("no sessions to judge for " + module)
        for base, part in _batches(sessions, kw.pop("batch", 40000000)):
            self._judge(module, part, base, cfg, describe, keyof, dict(kw))
        self.sample({"judged_by": module, "trace": sessions[0][:4]})

    def _judge(self, module, sessions, base, cfg, describe, keyof, kw):
        r, tp = self._run_trace(module, sessions, cfg, **kw)
        try:
            os.unlink(tp)
        except OSError:
            pass
        nev = sum(len(s) for s in sessions)
        fails = [v for t, v in r["printed"] if t == "F"]
        for v in fails:
            si, li, clause = v[0] - 1, v[1] - 1, v[2]
            ev = sessions[si][li]
            d = {"module": module, "session": base + si, "line": li, "event": ev,
                 "before": sessions[si][max(0, li - 5):li]}
            if len(v) > 3:
                d["expected"] = v[3]
            if describe:
                d["input"] = describe(base + si, li)
            self.violation(clause, d, keyof(ev) if keyof else None)
        if not r["ok"]:
            t = r["text"]
            if "Parse Error" in t or "OutOfMemory" in t or "Semantic error" in t \
                    or "StackOverflow" in t or not r["rc"] or "Error:" not in t:
                raise MachineryError("judging with %s failed:\n%s" % (module, t[-4000:]))
            self.violation("unjudgeable-observation", {
                "module": module, "tlc": t[t.find("Error:"):][:3000]})
            return
        if r["distinct"] != nev + len(sessions):
            raise MachineryError("%s consumed %d of %d states" % (
                module, r["distinct"], nev + len(sessions)))
        self.traces += len(sessions)
        self.events += nev

    # -- replay of exported transition graphs -----------------------------
    def paths(self, edges, init_key, keyf=lambda x: json.dumps(x, sort_keys=True)):
        """BFS paths over exported edges [{s,op,t}]; yields (path ops, edge)."""
        adj = {}
        seen_e = set()
        for e in edges:
            ks, ko, kt = keyf(e["s"]), keyf(e["op"]), keyf(e["t"])
            if (ks, ko, kt) in seen_e:
                continue
            seen_e.add((ks, ko, kt))
            adj.setdefault(ks, []).append((kt, e))
        parent = {init_key: None}
        order = [init_key]
        for k in order:
            for kt, e in adj.get(k, ()):
                if kt not in parent:
                    parent[kt] = (k, e)
                    order.append(kt)
        for k in adj:
            if k not in parent:
                raise MachineryError("unreachable exported state " + k)

        def pathto(k):
            ops = []
            while parent[k] is not None:
                k, e = parent[k]
                ops.append(e)
            return ops[::-1]
        for k in order:
            if k in adj:
                p = pathto(k)
                for _, e in adj[k]:
                    yield p, e


def _brief(x, n):
    """x as text of a readable size: long collections by their first n members."""
    if isinstance(x, dict):
        return {k if isinstance(k, (str, int)) else repr(k): _brief(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_brief(v, n) for v in x[:n]] + (["... %d in all" % len(x)] if len(x) > n else [])
    if isinstance(x, (str, bytes)) and len(x) > 40 * n:
        return repr(x[:40 * n]) + "... %d in all" % len(x)
    return x


def _batches(sessions, limit):
    """(index of the first, sessions): consecutive runs of at most limit bytes."""
    base, part, size = 0, [], 0
    for i, s in enumerate(sessions):
        n = len(json.dumps(s))
        if part and size + n > limit:
            yield base, part
            base, part, size = i, [], 0
        part.append(s)
        size += n
    if part:
        yield base, part


def coral(name):
    return importlib.import_module("coral." + name)


def main(argv):
    pid = argv[1].upper()
    chk = Check(pid)
    rc = 2
    threading.Thread(target=_watch, args=(threading.main_thread(),), daemon=True).start()
    try:
        mod = importlib.import_module("drivers." + pid.lower())
        mod.run(chk)
        rc = chk.finish()
    except MachineryError as e:
        print("MACHINERY ERROR in %s: %s" % (pid, e), file=sys.stderr)
        if chk.nviol:      # already shown against the code; the verdict stands
            rc = chk.finish()
    except Stuck:
        chk.violation("does-not-terminate", traceback.format_exc()[-3000:])
        rc = chk.finish()
    except (Exception, Hang):
        tb = traceback.format_exc()
        frames = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(os.path.join(REPO, "coral")) for f in frames):
            chk.violation("uncaught-exception", tb[-3000:])
            rc = chk.finish()
        elif not isinstance(sys.exc_info()[1], (OSError, MemoryError, ImportError)) \
                or isinstance(sys.exc_info()[1], FileNotFoundError):
            # a driver handles whatever correct code answers; this answer is of no such kind
            chk.violation("unjudgeable-observation", tb[-3000:])
            rc = chk.finish()
        else:
            print(tb, file=sys.stderr)
            if chk.nviol:
                rc = chk.finish()
    finally:
        chk.cleanup()
    return rc
