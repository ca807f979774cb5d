"""Running one operation under injected read faults.

The operation is one of the ordinary checked operations of an engine.  Under a fault it may raise (the engines report
an exception of the code under test as the violation class "unexpected-exception"), and only if a fault really fired
during the operation; any other disagreement with the model is a violation.  Once the faults are gone the very same
operation must succeed and agree with the model."""
import io

from . import core
from .core import Violation


def gen_faults(rng, far):
    """fault plan of one operation: [kind, after, times, arg]"""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        after = int(rng.random() ** 3 * far) if far > 8 else rng.randrange(far + 1)
        out.append([rng.choice(["r_eio", "r_eio", "r_eio", "r_short", "r_short"]), after, rng.choice([1, 1, 2, 5, 1000]), rng.randrange(1 << 16)])
    return out


def under(w, faults, fn):
    """run fn with faults armed -> (result, raised)"""
    d = w.disk
    for k, after, times, arg in faults:
        d.arm(k, after, times, arg)
    f0 = sum(d.fired.values())
    try:
        r = fn()
        raised = None
    except Violation as v:
        if v.cls != "unexpected-exception":
            raise
        r = None
        raised = v
    except Exception as e:
        if not core.from_code_under_test(e):
            raise
        r = None
        raised = Violation("unexpected-exception", "%s: %s (in %s)" % (type(e).__name__, e, core.where(e)))
    finally:
        d.armed = []
    fired = sum(d.fired.values()) - f0
    if raised is not None:
        if not fired:
            raise Violation(raised.cls, "no fault was injected into this operation: %s" % raised.detail)
        w.probe("operations_failed_by_a_fault")
    elif fired:
        w.probe("operations_correct_despite_a_fault")
    w.log("faulty", fired, raised is not None)
    return r, raised


def retry(w, faults, fn, what):
    """under faults, then again without: the second must work"""
    r, raised = under(w, faults, fn)
    if raised is None:
        return r
    try:
        r, again = under(w, [], fn)
    except Violation as v:
        raise Violation("fault-remembered" if v.cls == "unexpected-exception" else v.cls,
                        "%s, repeated after the fault (%s) was gone: %s" % (what, raised.detail[:120], v.detail))
    w.probe("operations_repeated_after_a_fault")
    return r
