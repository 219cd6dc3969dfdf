"""Parallel case runner: generate, judge, shrink, confirm, report, write evidence."""
import hashlib, json, multiprocessing as mp, os, queue, random, signal, sys, time, traceback
import icbh

VERIF = icbh.VERIF
NW = int(os.environ.get("ICB_WORKERS", "0")) or min(8, os.cpu_count() or 8)


CASE_S = 150     # no case takes nearly that long


class TooLong(BaseException):
    pass


def _late(*_):
    raise TooLong("a case took more than %d seconds" % CASE_S)


class Check:
    """One property.  Subclasses implement prepare/case/rerun; a case is a JSON value."""
    id = ""
    level = "exploration"
    rule = ""
    quick, thorough = 1000, 20000        # number of cases
    cap = (60, 1500)                     # wall seconds spent generating at most
    shrink_s = 60

    def prepare(self):
        pass

    def case(self, seed):
        """-> dict(nt=bool, key=str, sample=json, ops=int, events=[...], foreign=None|str), failure|None
        failure = {"case": json, "text": str}"""
        raise NotImplementedError

    def rerun(self, case):
        """-> failure text or None"""
        raise NotImplementedError

    def parts(self, case):
        """the list to shrink"""
        return case["ops"]

    def with_parts(self, case, parts):
        return dict(case, ops=parts)


def _worker(chk, wid, seed, total, t_end, q, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _late)
    os.environ["ICB_WNET"] = str((seed * 16 + wid) % 250 + 1)
    r = dict(evals=0, ops=0, nt=set(), samples=[], events={}, foreign=0, foreign_samples=[], foreign_cases=[], unconfirmed=[], gaps=0, errors=[])
    fail = None
    k = wid
    try:
        while k < total and time.time() < t_end and not stop.is_set():
            try:
                signal.alarm(CASE_S)
                info, f = chk.case(seed * 10_000_019 + k)
            except icbh.BuildError:
                raise
            except (Exception, TooLong):
                # a case that could not be carried out (say, the machine was out of something) is discarded, and counted
                r["errors"].append(traceback.format_exc()[-3000:])
                info, f = None, None
                if len(r["errors"]) >= 8:
                    break
            k += NW
            if info is None:
                r["gaps"] += 1
                continue
            r["evals"] += info.get("n", 1)
            r["ops"] += info.get("ops", 1)
            for e in info.get("events", ()):
                r["events"][e] = r["events"].get(e, 0) + 1
            if info.get("nts"):
                r["nt"].update(info["nts"])
            elif info.get("nt"):
                r["nt"].add(info["key"])
            if info.get("nt") and len(r["samples"]) < 2:
                r["samples"].append(info.get("sample"))
            if info.get("foreign"):
                r["foreign"] += 1
                if len(r["foreign_cases"]) < 2 and info.get("foreign_case"):
                    r["foreign_cases"].append(info["foreign_case"])
                if len(r["foreign_samples"]) < 2:
                    r["foreign_samples"].append(info["foreign"][:600])
            if f:
                hits = 0
                for _ in range(4):
                    try:
                        signal.alarm(CASE_S)
                        t = chk.rerun(f["case"])
                    except icbh.BuildError:
                        raise
                    except (Exception, TooLong):
                        r["errors"].append(traceback.format_exc()[-3000:])
                        t = None
                    if t:
                        hits += 1
                        if hits >= 2:
                            break
                if hits >= 2:
                    fail = f
                    stop.set()
                    break
                r["unconfirmed"].append(f["text"][:600])
        signal.alarm(0)
        q.put((wid, r, fail, None))
    except icbh.BuildError as e:
        signal.alarm(0)
        q.put((wid, r, None, "build: " + str(e)[-3000:]))
    except BaseException:
        signal.alarm(0)
        q.put((wid, r, None, traceback.format_exc()[-3000:]))


def shrink(chk, case, budget, rerun=None):
    """ddmin over the case's operation list, keeping only cases that still fail"""
    t_end = time.time() + budget
    parts = list(chk.parts(case))

    def bad(p):
        c = chk.with_parts(case, p)
        return (rerun or chk.rerun)(c) is not None

    n = 2
    while len(parts) >= 2 and time.time() < t_end:
        size = max(1, len(parts) // n)
        cut = False
        i = len(parts)
        while i > 0 and time.time() < t_end:
            cand = parts[:max(0, i - size)] + parts[i:]
            if len(cand) < len(parts) and bad(cand):
                parts = cand
                cut = True
                i -= size
            else:
                i -= size
        if not cut:
            if size == 1:
                break
            n = min(len(parts), n * 2)
    return chk.with_parts(case, parts)


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check ID [--replay FILE]; ids: " + " ".join(sorted(checks)))
        return 2
    chk = checks[sys.argv[1]]
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        chk.prepare()
    except icbh.BuildError as e:
        # nothing to judge: a tree that does not build violates nothing, but is no answer either
        print("BUILD FAILED\n" + str(e)[-3000:])
        return 2
    if "--replay" in sys.argv:
        case = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))["case"]
        t = chk.rerun(case)
        print(t or "no failure")
        return 1 if t else 0
    total = chk.quick if tier == "quick" else chk.thorough
    total = int(os.environ.get("ICB_CASES", total))
    t_end = time.time() + chk.cap[0 if tier == "quick" else 1]
    ctx = mp.get_context("fork")
    q, stop = ctx.Queue(), ctx.Event()
    ps = [ctx.Process(target=_worker, args=(chk, i, seed, total, t_end, q, stop)) for i in range(NW)]
    for p in ps:
        p.start()
    res, fails, errs = [], [], []
    left, dead = len(ps), 0
    while left:
        try:
            wid, r, f, err = q.get(timeout=2)
        except queue.Empty:
            # a worker ended from outside (out of memory, say) reports nothing
            dead = dead + 1 if sum(p.is_alive() for p in ps) < left else 0
            if dead >= 3:
                errs.append("%d workers ended without a report" % left)
                stop.set()
                break
            continue
        left -= 1
        dead = 0
        res.append(r)
        if f:
            fails.append(f)
        if err:
            errs.append(err)
    for p in ps:
        p.join()
    agg = dict(evals=sum(r["evals"] for r in res), ops=sum(r["ops"] for r in res), foreign=sum(r["foreign"] for r in res),
               gaps=sum(r["gaps"] for r in res))
    nt = set().union(*[r["nt"] for r in res])
    ev = {}
    for r in res:
        for k, v in r["events"].items():
            ev[k] = ev.get(k, 0) + v
    samples = [s for r in res for s in r["samples"]][:5]
    unconf = [s for r in res for s in r["unconfirmed"]]
    casualties = [e for r in res for e in r["errors"]]
    rc, violations = 0, []
    if not fails and getattr(chk, "need", None):
        # differences outside the focus: the property's all the same if they need what it is about
        os.environ["ICB_WNET"] = str((seed * 16 + 14) % 250 + 1)
        for c in [c for r in res for c in r["foreign_cases"]][:4]:
            again = lambda x: chk.rerun(x, anything=True)
            if not (again(c) and again(c)):
                continue
            c = shrink(chk, c, chk.shrink_s, again)
            if chk.owns(c) and again(c):
                fails.append({"case": c, "text": again(c) or "", "any": True})
                break
    if fails:
        f = fails[0]
        os.environ["ICB_WNET"] = str((seed * 16 + 15) % 250 + 1)
        try:
            small = f["case"] if f.get("any") else shrink(chk, f["case"], chk.shrink_s)
        except Exception:
            small = f["case"]
        text = chk.rerun(small) or f["text"]
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        js = json.dumps(small, sort_keys=True)
        path = os.path.join(d, "%s-%s.json" % (chk.id, hashlib.sha256(js.encode()).hexdigest()[:10]))
        json.dump({"property": chk.id, "text": text, "case": small}, open(path, "w"), indent=1)
        print(text)
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        violations.append({"replay": path, "text": text[:2000]})
        rc = 1
    elif errs or len(casualties) > max(2, agg["evals"] // 20):
        print("harness error:\n" + (errs + casualties)[0])
        rc = 2
    elif casualties:
        print("%d cases could not be carried out, the first:\n%s" % (len(casualties), casualties[0]))
    wall = time.time() - t0
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    json.dump({"property": chk.id, "tier": tier, "seed": seed, "level": chk.level,
               "coverage": {"evaluations": agg["evals"], "distinct_nontrivial": len(nt), "rule": chk.rule,
                            "samples": samples, "operations": agg["ops"], "discarded": agg["gaps"],
                            "events": dict(sorted(ev.items())), "cases_ended_by_other_differences": agg["foreign"],
                            "other_differences": [s for r in res for s in r["foreign_samples"]][:4],
                            "unconfirmed": unconf[:4]},
               "wall_s": round(wall, 2), "violations": violations},
              open(os.path.join(evd, chk.id + ".json"), "w"), indent=1, default=repr)
    print("%s %s: %d cases, %d operations, %d distinct non-trivial, %d discarded, %d ended by other differences, %d unconfirmed, %.1f s, rc=%d"
          % (chk.id, tier, agg["evals"], agg["ops"], len(nt), agg["gaps"], agg["foreign"], len(unconf), wall, rc))
    for s in unconf[:2]:
        print("  unconfirmed: " + s[:500])
    if agg["foreign"]:
        print("  other: " + next(s for r in res for s in r["foreign_samples"])[:600])
    return rc
