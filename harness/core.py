"""Shared property-based testing machinery.

A check module (checks/<id>.py) defines SUBS, a list of Sub objects.  Every Sub
has a Hypothesis strategy that generates a *plain JSON value* (the case) and a
function that decodes the case, drives the real code of /repo and raises on a
violation.  Because a case is plain data, the shrunk failing case is the replay
file, and running it does not need Hypothesis.
"""
import os, sys, json, time, zlib, hashlib, traceback, contextlib, io, tempfile, signal, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup_paths():
    sys.path.insert(0, SRC)
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import hypothesis  # noqa


class Violation(AssertionError):
    """The property is broken for this case."""


class Skip(Exception):
    """The case is outside the domain (counted, never non-trivial)."""


class Ctx:
    """Handed to every case: records labels and whether the case is non-trivial."""

    def __init__(self, tmp=None):
        self.nontrivial = True
        self.labels = []
        self.tmp = tmp

    def label(self, *names):
        self.labels += [str(n) for n in names]

    def trivial(self, cond=True):
        if cond:
            self.nontrivial = False


class Sub:
    def __init__(self, name, strategy, fn, quick=200, thorough=None, shards=1, max_case_s=90):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough if thorough is not None else quick * 20
        self.shards = shards
        self.max_case_s = max_case_s


# ---------------------------------------------------------------- assertions
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, tol=1e-9, rel=1e-9, what="values"):
    """elementwise |a-b| <= tol + rel*max|b|, same shape, all finite"""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        lim = tol + rel * (np.max(np.abs(b)) if b.size else 0.0)
    if not np.all(np.isfinite(a)):
        raise Violation(f"{what}: non-finite result {short(a)} expected {short(b)}")
    if not np.all(d <= lim):
        lim = np.broadcast_to(lim, d.shape)
        i = np.unravel_index(np.argmax(d - lim), d.shape) if d.shape else ()
        raise Violation(f"{what}: max deviation {float(d[i]):.3e} > {float(lim[i]):.3e} at {tuple(int(x) for x in i)}: got {a[i]!r}, expected {b[i]!r}")


def short(a, n=8):
    import numpy as np
    a = np.asarray(a)
    s = np.array2string(a.ravel()[:n], precision=6)
    return s + (f"...{a.shape}" if a.size > n else "")


def raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    raise Violation(f"{what}: expected {exc}, but it returned {type(r).__name__}")


# ------------------------------------------------------------------- running
def case_key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise CaseTimeout()


def run_case(sub, case, scratch):
    """returns (ctx, failure or None)"""
    import numpy as np, warnings
    ctx = Ctx(scratch)
    key = case_key(case)
    np.random.seed(zlib.crc32(key.encode()) & 0xFFFFFFFF)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.max_case_s)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            sub.fn(case, ctx)
        return ctx, None
    except Skip:
        ctx.trivial()
        ctx.label("skip")
        return ctx, None
    except CaseTimeout:
        return ctx, f"no result within {sub.max_case_s} s"
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb][-4:]
        kind = "" if isinstance(e, Violation) else f"{type(e).__name__}: "
        return ctx, f"{kind}{str(e)[:600]}  [{' < '.join(reversed(where))}]"
    finally:
        signal.alarm(0)


class _Found(Exception):
    pass


def independent_examples():
    """every generated case is drawn anew: Hypothesis otherwise spends most of the budget on variations of earlier cases, which repeat the choices of sizes and options"""
    try:
        from hypothesis.internal.conjecture import engine
        if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:
        pass


def run_sub(prop, sub, n_examples, seed, shrink_s=float(os.environ.get("VERIF_SHRINK_S", "25"))):
    """Runs one shard of a sub-check; returns a plain result dict."""
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase, Verbosity
    independent_examples()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    cwd = os.getcwd()
    os.chdir(scratch)
    res = {"sub": sub.name, "evaluations": 0, "nontrivial": set(), "labels": {}, "samples": [], "failure": None, "error": None}
    state = {"first": None, "best": None, "t_fail": None}

    def body(case):
        if state["t_fail"] is not None and time.time() - state["t_fail"] > shrink_s:
            return  # stop shrinking
        ctx, failure = run_case(sub, case, scratch)
        if failure is None:
            if state["t_fail"] is None:
                res["evaluations"] += 1
                for l in set(ctx.labels):
                    res["labels"][l] = res["labels"].get(l, 0) + 1
                if ctx.nontrivial:
                    h = hashlib.blake2b(case_key(case).encode(), digest_size=8).hexdigest()
                    new = h not in res["nontrivial"]
                    res["nontrivial"].add(h)
                    if new and len(res["samples"]) < 3 and len(res["nontrivial"]) in (1, 10, 50):
                        res["samples"].append(case)
            return
        size = len(case_key(case))
        if state["t_fail"] is None:
            state["t_fail"] = time.time()
            state["first"] = (case, failure)
            res["evaluations"] += 1
        if state["best"] is None or size <= state["best"][0]:
            state["best"] = (size, case, failure)
        raise _Found(failure.split("[")[0][:20])

    try:
        test = hypothesis.seed(seed)(settings(
            max_examples=n_examples, deadline=None, database=None, report_multiple_bugs=False, derandomize=False,
            print_blob=False, verbosity=Verbosity.quiet, suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink))(given(sub.strategy)(body)))
        with contextlib.redirect_stderr(io.StringIO()):
            test()
    except MemoryError:
        res["error"] = "out of memory"
    except BaseException as e:
        if state["best"] is None:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    if state["best"] is not None:
        res["failure"] = {"case": state["best"][1], "message": state["best"][2],
                          "first_case": state["first"][0], "first_message": state["first"][1]}
    res["nontrivial"] = sorted(res["nontrivial"])
    res["wall_s"] = time.time() - t0
    return res
