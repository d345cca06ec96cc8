"""Runner shared by all checks.

A check module defines

    PROPERTY = "C01"
    SUBS = [Sub(name, strategy, run, quick=…, thorough=…), …]

`strategy` generates a plain JSON-able *spec* and `run(spec, rec)` builds the real
objects from it, drives them, and compares with the oracle.  `run` raises
`Violation` when the property is broken.  Because a spec is plain data, the
shrunk failing spec *is* the replay file (`run.py C01 --replay FILE` runs it
without Hypothesis).

Exit codes: 0 held, 1 violation (one VIOLATION line per failing sub-check),
2 the check itself failed.
"""
import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

from . import env

CASE_CPU_S = 45  # no case needs more than a few CPU seconds; more means it does not end
SHRINK_S = float(os.environ.get("RFCHECK_SHRINK", 75))  # wall time spent on shrinking one violation


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


class Known(Exception):
    """The case falls into a listed known finding."""

    def __init__(self, key):
        self.key = key


class NoSolution(Exception):
    """The generated problem has (numerically) no unique solution: counted, not judged."""


def flows(spec):
    """all flow problems of a spec"""
    if isinstance(spec, dict):
        if isinstance(spec.get("grid"), dict) and isinstance(spec.get("fluid"), dict) and "n" in spec["grid"]:
            yield spec
        spec = list(spec.values())
    if isinstance(spec, list):
        for v in spec:
            yield from flows(v)


def ill_posed(spec):
    """Does the reference say that a problem of this spec is singular to working precision, either as
    given or once its boundary conditions and wells are gone (as a history may do)?"""
    import numpy

    from . import ref

    for s in flows(spec):
        compressible = bool(s["fluid"].get("comp") or s["grid"].get("comp"))
        for t in [s] + [dict(s, bounds=[], wells=[])] * compressible:
            S = ref.Sim(dict(t, pi=t["pi"] if t.get("pi") is not None else 0.0))
            A, _ = S.system({c: w["mode"] for c, w in S.wells.items()}, S.p)
            try:
                S.step()
            except Exception:
                pass
            if not max(S.cond, float(numpy.linalg.cond(A))) < 1e9:
                return True
    return False


class Sub:
    def __init__(self, name, strategy, run, quick=200, thorough=None, shards=None, desc=""):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.desc = desc
        self.shards = shards


class Rec:
    """What the cases of one shard were: counts, classes, samples."""

    def __init__(self):
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self._cur_nt = False

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nontrivial_if(self, cond=True):
        if cond:
            self._cur_nt = True


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def _from_repo(tb):
    root = os.path.realpath(os.path.join(env.REPO, "reservoirflow")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def short(spec, n=1500):
    s = canon(spec)
    return s if len(s) <= n else s[:n] + "…"


@contextlib.contextmanager
def silence():
    """Swallow what the code under test prints (verdicts never depend on it)."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


def clear_caches():
    """Memory hygiene only: functools caches defined by classes of the package keep
    every object ever built alive; drop them between cases."""
    import functools

    for mname, mod in list(sys.modules.items()):
        if mod is None or not mname.startswith("reservoirflow"):
            continue
        for obj in list(vars(mod).values()):
            if isinstance(obj, type) and getattr(obj, "__module__", "").startswith("reservoirflow"):
                for v in list(vars(obj).values()):
                    if isinstance(v, property):
                        v = v.fget
                    cc = getattr(v, "cache_clear", None)
                    if cc is not None:
                        with contextlib.suppress(Exception):
                            cc()


class _NoEnd(BaseException):
    """The case used up its CPU time (not an Exception: the package cannot swallow it)."""


def _on_prof(signum, frame):
    raise _NoEnd()


def turns(spec):
    """Threads of the code under test take turns often (many interleavings per run), on problems small
    enough for that: the default is 5 ms."""
    size = 1
    for s in flows(spec):
        n = 1
        for v in s["grid"]["n"]:
            n *= v
        size = max(size, n)
    return 1e-5 if size <= 20 else 2e-4 if size <= 60 else 5e-3


def call_case(run, spec, rec):
    """Run one case; exceptions coming out of the package on an input the property
    declares valid are violations, anything else that is not Violation is ours."""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S, 5)
    sys.setswitchinterval(turns(spec))
    try:
        with silence():
            run(spec, rec)
    except _NoEnd as e:
        if _from_repo(e.__traceback__):
            raise Violation(f"no result after {CASE_CPU_S} s of CPU time on a small problem") from None
        raise HarnessError("case did not end: " + "".join(traceback.format_exception(e))[-2000:]) from None
    except (Violation, Known):
        raise
    except (HarnessError, KeyboardInterrupt, SystemExit):
        raise
    except MemoryError as e:
        if _from_repo(e.__traceback__):
            raise Violation("out of memory on a small problem") from None
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if _from_repo(e.__traceback__):
            last = traceback.extract_tb(e.__traceback__)[-1]
            if "singular" in str(e).lower() and ill_posed(spec):
                raise NoSolution() from None
            raise Violation(
                f"unexpected {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(last.filename)}:{last.lineno})"
            ) from e
        # the check stumbled over what the package handed out (a missing attribute, an
        # object of another kind, a wrong length): unusable output
        last = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(
            f"unusable result: {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(last.filename)}:{last.lineno})"
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _shard(args):
    modname, subname, seed, n, deadline, tier = args
    env.load()
    import importlib

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = importlib.import_module(modname)
    sub = next(s for s in mod.SUBS if s.name == subname)
    rec = Rec()
    out = {"sub": subname, "violation": None, "error": None, "known": {}}
    known = out["known"]
    state = {"n": 0, "best": None, "skipped": 0, "shrink_end": None}
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

    def test(spec):
        if state["shrink_end"] is not None and time.time() > state["shrink_end"]:
            if canon(spec) == canon(state["best"][0]):
                raise Violation(state["best"][1])
            return
        if time.time() > deadline:
            state["skipped"] += 1
            return
        state["n"] += 1
        if state["n"] % 20 == 0:
            clear_caches()
        rec.evals += 1
        rec._cur_nt = False
        try:
            call_case(sub.run, spec, rec)
        except Known as k:
            known[k.key] = known.get(k.key, 0) + 1
        except NoSolution:
            rec._cur_nt = False
            rec.label("skipped: singular to working precision")
        except Violation as v:
            if state["best"] is None:
                state["shrink_end"] = time.time() + SHRINK_S
            state["best"] = (spec, str(v))
            raise
        h = hashlib.sha1(canon(spec).encode()).hexdigest()
        if rec._cur_nt:
            rec.nontrivial.add(h)
            if len(rec.samples) < 2 and rec.evals > 5:
                rec.samples.append(short(spec, 700))

    wrapped = given(sub.strategy)(test)
    wrapped = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.target, Phase.shrink],
    )(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            wrapped()
    except Violation as v:
        spec, msg = state["best"]
        out["violation"] = (spec, msg)
    except BaseException as e:  # noqa: BLE001  (reported as an error exit)
        if state["best"] is not None and "Flaky" in type(e).__name__:
            # the same spec failed once and not again: keep the failing one
            spec, msg = state["best"]
            out["violation"] = (spec, msg + " [not reproduced on immediate re-run]")
        else:
            out["error"] = "".join(traceback.format_exception(e))[-4000:]
    out.update(
        evals=rec.evals,
        nontrivial=rec.nontrivial,
        labels=rec.labels,
        samples=rec.samples,
        skipped=state["skipped"],
    )
    return out


def _seed(base, *parts):
    h = hashlib.sha256(repr((base,) + parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def read_known(prop):
    """Known findings listed for this property: {key: text}."""
    res = {}
    p = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            fields = dict(f.split("=", 1) for f in line.split()[1:3])
            if fields.get("property") == prop:
                res[fields["key"]] = line.split(None, 3)[3]
    return res


def main(modname, argv):
    env.load()
    import importlib

    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    only = None
    it = iter(argv)
    for a in it:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--only":
            only = next(it)
    known_listed = read_known(prop)

    if replay:
        return _replay(mod, prop, replay)

    lost = 0
    t0 = time.time()
    budget = 420 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    nproc = max(1, min(int(os.environ.get("RFCHECK_PROCS", 8)), os.cpu_count() or 1))
    jobs = []
    for sub in mod.SUBS:
        if only and only != sub.name:
            continue
        n = max(1, int((sub.quick if tier == "quick" else sub.thorough) * float(os.environ.get("RFCHECK_SCALE", 1))))
        shards = sub.shards or max(1, min(8, n // 25))  # not nproc: the cases are the same on any machine
        for i in range(shards):
            m = n // shards + (1 if i < n % shards else 0)
            jobs.append((modname, sub.name, _seed(seed, prop, sub.name, i), m, deadline, tier))
    # biggest sub-checks last in the list are started round-robin
    ctx = mp.get_context("fork")
    if len(jobs) == 1 or nproc == 1:
        results = [_shard(j) for j in jobs]
    else:
        results = []
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            left = pool.imap_unordered(_shard, jobs, chunksize=1)
            try:
                for _ in jobs:
                    results.append(left.next(timeout=max(1, deadline + 2 * SHRINK_S + CASE_CPU_S - time.time())))
            except mp.TimeoutError:
                lost = len(jobs) - len(results)

    agg, labels, samples, nontrivial = {}, {}, [], set()
    errors, viol, known_hit = [], {}, {}
    if lost:
        errors.append((prop, f"{lost} shards ended without a result"))
    for r in results:
        a = agg.setdefault(r["sub"], {"cases": 0, "nontrivial": set(), "skipped": 0})
        a["cases"] += r["evals"]
        a["skipped"] += r["skipped"]
        a["nontrivial"] |= r["nontrivial"]
        nontrivial |= {r["sub"] + h for h in r["nontrivial"]}
        for k, v in r["labels"].items():
            labels[r["sub"] + ":" + k] = labels.get(r["sub"] + ":" + k, 0) + v
        if len([s for s in samples if s.startswith(r["sub"] + " ")]) < 2:
            samples += [r["sub"] + " " + s for s in r["samples"][:1]]
        for k, v in r["known"].items():
            known_hit[k] = known_hit.get(k, 0) + v
        if r["error"]:
            errors.append((r["sub"], r["error"]))
        if r["violation"]:
            spec, msg = r["violation"]
            old = viol.get(r["sub"])
            if old is None or len(canon(spec)) < len(canon(old[0])):
                viol[r["sub"]] = (spec, msg)
    for k, v in list(known_hit.items()):
        if k not in known_listed:
            errors.append((prop, f"known-finding key {k} used but not listed"))

    # pinned demonstrations of listed findings: they are still failing?
    for key, text in known_listed.items():
        fn = getattr(mod, "KNOWN", {}).get(key)
        if fn is None:
            errors.append((prop, f"finding {key} has no pinned demonstration"))
            continue
        still = False
        try:
            with silence():
                fn()
        except Violation:
            still = True
        except Exception as e:  # noqa: BLE001
            still = _from_repo(e.__traceback__)
            if not still:
                errors.append((prop, f"pinned finding {key}: {e!r}"))
        if still:
            print(f"KNOWN-FINDING: property={prop} {key}: {text}")
            known_hit.setdefault(key, 0)
    # pinned regressions of repaired defects (must hold)
    for name, fn in getattr(mod, "PINNED", {}).items():
        rec = Rec()
        try:
            call_case(lambda _s, _r: fn(), None, rec)
        except Violation as v:
            viol["pinned-" + name] = ({"pinned": name}, str(v))
        except HarnessError as e:
            errors.append((name, str(e)))

    rc = 0
    rdir = os.path.join(env.VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"):
            with contextlib.suppress(OSError):
                os.remove(os.path.join(rdir, old))
    for sname, (spec, msg) in sorted(viol.items()):
        path = os.path.join(rdir, f"{prop}-{sname}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": sname, "spec": spec, "message": msg}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {sname}: {msg[:1500]}\n  minimal case: {short(spec)}")
        rc = 1
    if errors and rc == 0:
        rc = 2
    for sname, e in errors:
        print(f"CHECK-ERROR {prop}/{sname}: {e}", file=sys.stderr)

    total = sum(a["cases"] for a in agg.values())
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples[:12] or ["(none)"],
            "per_subcheck": {
                k: {"cases": a["cases"], "distinct_nontrivial": len(a["nontrivial"]), "not_run_time_budget": a["skipped"]}
                for k, a in agg.items()
            },
            "classes": labels,
            "known_finding_hits": known_hit,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(
        f"{prop} {tier} seed={seed}: {total} cases, {len(nontrivial)} distinct non-trivial, "
        f"{len(viol)} violations, {len(errors)} errors, {ev['wall_s']} s"
    )
    import shutil

    if env.SCRATCH:
        shutil.rmtree(env.SCRATCH, ignore_errors=True)
    return rc


def _replay(mod, prop, path):
    data = json.load(open(path))
    rec = Rec()
    if "pinned" in (data["spec"] or {}):
        fn = mod.PINNED[data["spec"]["pinned"]]
        run = lambda _s, _r: fn()  # noqa: E731
    else:
        run = next(s for s in mod.SUBS if s.name == data["sub"]).run
    try:
        call_case(run, data["spec"], rec)
    except Violation as v:
        print(f"VIOLATION property={prop} replay={path}\n  {v}")
        return 1
    except Known as k:
        print(f"KNOWN-FINDING: property={prop} {k.key}")
        return 0
    except NoSolution:
        print("replay: not judged (singular to working precision)")
        return 0
    print("replay: held")
    return 0


# ---------------------------------------------------------------- assertions


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def as_float(x, what):
    """x as a float array, or a violation (the API returned something unusable)."""
    import numpy as np
    import scipy.sparse as ss

    try:
        if ss.issparse(x):
            x = x.toarray()
        return np.asarray(x, dtype=float)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: not numeric ({type(x).__name__}: {e})") from None


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """got == want up to rtol relative to the magnitude of `want` (or `scale`)."""
    import numpy as np

    got, want = as_float(got, what), np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {want.shape}")
    nan_g, nan_w = np.isnan(got), np.isnan(want)
    if (nan_g != nan_w).any():
        i = np.argwhere(nan_g != nan_w)[0]
        raise Violation(f"{what}: NaN mismatch at {tuple(int(a) for a in i)}: got {got[tuple(i)]}, expected {want[tuple(i)]}")
    if got.size == 0:
        return
    if scale is None:
        tol = rtol * np.abs(want) + atol
    else:
        tol = rtol * scale + atol
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(got - want) <= tol) & ~nan_w & ~(got == want)
    if bad.any():
        i = tuple(int(a) for a in np.argwhere(bad)[0])
        raise Violation(f"{what}: at {i} got {got[i]!r}, expected {want[i]!r} ({int(bad.sum())} of {got.size} differ)")


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: got {str(got)[:300]}, expected {str(want)[:300]}")


def expect_raises(fn, types, what):
    try:
        r = fn()
    except types:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: raised {type(e).__name__} ({str(e)[:120]}) instead of {[t.__name__ for t in types]}") from None
    raise Violation(f"{what}: accepted (returned {str(r)[:80]})")
