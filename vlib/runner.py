"""Drives one property: corpus replay, bounded-exhaustive part, then parallel Hypothesis search with shrinking."""
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import sys
import time
import traceback
from collections import Counter

from .real import Discard, Violation, leaf_fn_ok, leaf_ok, leaf_views_ok
from . import domains

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))
SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # of the budget, for development
GUARD_S = {"quick": 400, "thorough": 3600}


class Stop(BaseException):
    pass


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _hang)
CASE_S = int(os.environ.get("VERIF_CASE_S", "90"))  # a case takes milliseconds


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def default_leaves(case):
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "steps" in x and "init" in x and "closed" in x:
                out.append(x)
            else:
                for v in x.values():
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk(case)
    return out


def evaluate(mod, case):
    """-> ("ok", labels, nontrivial) | ("discard", why) | ("bad", message)"""
    cpu = time.process_time()
    r = evaluate_once(mod, case)
    if r[0] == "bad" and r[1].startswith("no answer within") and time.process_time() - cpu < CASE_S / 3:
        r = evaluate_once(mod, case)  # the machine was busy with something else
    return r


def evaluate_once(mod, case):
    try:
        signal.setitimer(signal.ITIMER_REAL, CASE_S)
        try:
            labels, nt = mod.run(case)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return "ok", labels, nt
    except Hang:
        return "bad", "no answer within %d s" % CASE_S
    except Discard as e:
        return "discard", str(e)
    except Violation as e:
        msg = str(e)
    except MemoryError:
        raise
    except Exception as e:  # noqa
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/staircase/" in f.filename]
        msg = "%s: %s (%s)" % (
            type(e).__name__, str(e)[:300],
            "inside staircase at %s:%s" % (os.path.basename(where[-1].filename), where[-1].lineno)
            if where else "result not interpretable, harness frame %s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno),
        )
    # attribution: a leaf that does not even denote its spec is the business of C02/C03/C12/C16
    how = getattr(mod, "LEAF", "discard")
    if how != "violate":
        dom_names = case.get("doms") or [case.get("dom", "int")]
        for spec in getattr(mod, "leaves", default_leaves)(case):
            for dn in dom_names:
                if not {"discard": leaf_ok, "views": leaf_views_ok, "closed": leaf_fn_ok}[how](spec, domains.get(dn)):
                    if os.environ.get("VERIF_DEBUG"):
                        print("bad leaf:", dn, dumps(spec), "|", msg, flush=True)
                    return "discard", "operand not built as specified"
    return "bad", msg


class Tally:
    def __init__(self):
        self.n = 0
        self.nt = set()
        self.labels = Counter()
        self.discards = Counter()
        self.samples = []

    def add(self, case, res):
        self.n += 1
        if res[0] == "ok":
            for lb in res[1]:
                self.labels[lb] += 1
            if res[2]:
                h = hashlib.blake2b(dumps(case).encode(), digest_size=8).digest()
                if h not in self.nt:
                    self.nt.add(h)
                    if len(self.samples) < 3 and (len(self.nt) % 7 == 3):
                        self.samples.append(case)
        elif res[0] == "discard":
            self.discards[res[1]] += 1

    def pack(self):
        return dict(n=self.n, nt=list(self.nt), labels=dict(self.labels), discards=dict(self.discards), samples=self.samples)


def worker(mod, wid, nworkers, tier, seed, q):
    tally = Tally()
    best = None
    truncated = False
    err = None
    t0 = time.time()
    enum_n = 0
    try:
        # 1. bounded-exhaustive part, strided over the workers
        if hasattr(mod, "enum"):
            for i, case in enumerate(mod.enum(tier)):
                if i % nworkers != wid:
                    continue
                res = evaluate(mod, case)
                tally.add(case, res)
                enum_n += 1
                if res[0] == "bad":
                    best = (dumps(case), res[1])
                    break
        # 2. Hypothesis
        if best is None:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings, strategies as st
            from .gen import D

            total = int(mod.BUDGET[tier] * SCALE)
            share = max(1, total // nworkers)
            guard = GUARD_S[tier]
            state = {"best": None, "tfail": None, "trunc": False}

            @st.composite
            def cases(draw):
                return mod.gen(D(draw))

            def body(case):
                now = time.time()
                if state["tfail"] and now - state["tfail"] > SHRINK_S:
                    raise Stop()
                if not state["tfail"] and now - t0 > guard:
                    state["trunc"] = True
                    raise Stop()
                res = evaluate(mod, case)
                tally.add(case, res)
                if res[0] == "bad":
                    s = dumps(case)
                    if state["best"] is None or len(s) <= len(state["best"][0]):
                        state["best"] = (s, res[1])
                    state["tfail"] = state["tfail"] or now
                    if len(q_notified) == 0:
                        q_notified.append(1)
                        q.put(("failing", wid, None))
                    raise Violation(res[1])

            q_notified = []
            test = settings(
                max_examples=share, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                verbosity=hypothesis.Verbosity.quiet,
            )(hypothesis.seed(seed * 1000 + wid)(given(cases())(body)))
            try:
                test()
            except Stop:
                pass
            except BaseException as e:  # noqa
                if state["best"] is None:
                    raise
                if isinstance(e, (KeyboardInterrupt, MemoryError)):
                    raise
            best = state["best"]
            truncated = state["trunc"]
    except BaseException:  # noqa
        err = traceback.format_exc()
    q.put(("done", wid, dict(tally.pack(), best=best, err=err, truncated=truncated, enum=enum_n)))
    q.close()
    q.join_thread()
    os._exit(0)


def write_replay(here, pid, case, msg):
    d = os.path.join(here, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (pid, hashlib.blake2b(dumps(case).encode(), digest_size=6).hexdigest())
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": pid, "message": msg, "case": case}, f, indent=1)
        f.write("\n")
    return path


def main(argv, here):
    pid = argv[0]
    mod = importlib.import_module("props." + pid.lower())
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]

    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        with open(path) as f:
            case = json.load(f)["case"]
        res = evaluate(mod, case)
        if res[0] == "bad":
            print(res[1])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("replay: %s %s" % (res[0], res[1]))
        return 0

    t0 = time.time()
    known = load_known(here, pid)
    tally = Tally()
    violations = []
    known_hit = set()

    def judge(case, msg):
        for k in known:
            if k.get("match") and mod.known(k["match"], case, msg):
                known_hit.add(k["what"])
                return False
        return True

    # corpus of earlier failures and hand-made cases
    corpus = 0
    for path in sorted(glob.glob(os.path.join(here, "corpus", pid, "*.json"))):
        with open(path) as f:
            case = json.load(f)["case"]
        res = evaluate(mod, case)
        tally.add(case, res)
        corpus += 1
        if res[0] == "bad" and judge(case, res[1]):
            violations.append((case, res[1]))
            break

    packs = [tally.pack()]
    errs = []
    truncated = False
    enum_n = 0
    if not violations:
        ctx = mp.get_context("fork")
        q = ctx.Queue()
        procs = {}
        for w in range(WORKERS):
            p = ctx.Process(target=worker, args=(mod, w, WORKERS, tier, seed, q), daemon=True)
            p.start()
            procs[w] = p
        pending = set(procs)
        deadline = None
        while pending:
            if deadline and time.time() > deadline:
                break
            try:
                kind, wid, data = q.get(timeout=1.0)
            except queue.Empty:
                for w in list(pending):
                    if not procs[w].is_alive():
                        try:  # drain a message that raced with the exit
                            kind, wid, data = q.get(timeout=1.0)
                        except queue.Empty:
                            pending.discard(w)
                            errs.append("worker %d died (exit %s)" % (w, procs[w].exitcode))
                            continue
                        break
                else:
                    continue
                if not pending:
                    break
            if kind == "failing":
                if deadline is None:
                    deadline = time.time() + SHRINK_S + 30
                continue
            pending.discard(wid)
            packs.append(data)
            enum_n += data["enum"]
            truncated |= data["truncated"]
            if data["err"]:
                errs.append(data["err"])
            if data["best"]:
                case = json.loads(data["best"][0])
                if judge(case, data["best"][1]):
                    violations.append((case, data["best"][1]))
                    deadline = min(deadline or 1e18, time.time() + 2)
        for p in procs.values():
            if p.is_alive():
                p.kill()

    # confirm by replaying in this process
    final = None
    for case, msg in sorted(violations, key=lambda x: len(dumps(x[0]))):
        res = evaluate(mod, case)
        if res[0] == "bad":
            final = (case, res[1])
            break
        errs.append("failure did not reproduce: %s on %s" % (msg, dumps(case)))

    nt = set()
    labels, discards = Counter(), Counter()
    n = 0
    samples = []
    for p in packs:
        n += p["n"]
        nt.update(p["nt"])
        labels.update(p["labels"])
        discards.update(p["discards"])
        samples += p["samples"]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(nt),
            "rule": mod.RULE,
            "samples": samples[:6] or [{"note": "no non-trivial case sampled"}],
            "classes": dict(sorted(labels.items())),
            "discarded": dict(discards),
            "exhaustive_cases": enum_n,
            "corpus_cases": corpus,
            "workers": WORKERS,
            "truncated_by_time_guard": truncated,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [],
    }
    if final:
        path = write_replay(here, pid, final[0], final[1])
        ev["violations"] = [{"message": final[1], "replay": path}]
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(here, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in known:
        if k["what"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %.1f s%s"
        % (pid, tier, seed, n, len(nt), sum(discards.values()), time.time() - t0, " (time guard hit)" if truncated else "")
    )
    if final:
        print(final[1])
        print(dumps(final[0]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errs:
        for e in errs[:4]:
            print(e, file=sys.stderr)
        return 2
    if len(nt) < getattr(mod, "MIN_NONTRIVIAL", 50):
        print("%s: only %d non-trivial cases explored" % (pid, len(nt)), file=sys.stderr)
        return 2
    return 0


def load_known(here, pid):
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("known", []) if k["property"] == pid]
