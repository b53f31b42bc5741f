from .common import *

TITLE = ("Global value numbering of the importance-sampling estimators: the returned log Bayes factors, log effective sample sizes and variances are "
         "reduced to polynomial normal form over sums of the weights and compared with the reference estimators, in both weight conventions.")
A = "gwinferno.pipeline.analysis."


def check(c):
    it = c.interp()
    w2 = arr("weights", 2)
    for lg in (False, True):
        for form in ("kw", "default"):
            if form == "default" and lg:
                continue

            def one(lg=lg, form=form):
                f = c.entity(it, A + "per_event_log_bayes_factors")
                s = c.entity(it, "vspec.analysis.per_event_log_bayes_factors")
                kw = {"log": lg} if form == "kw" else {}
                got = force(lambda: it.call(f, [w2], kw))
                want = it.call(s, [w2, lg], {})
                for k, lab in enumerate(("log Bayes factor", "log effective sample size", "variance")):
                    c.equal(f"per event {lab} (log={lg},{form})", pick(it, got, k, 3), want[k], c.loc(it, A + "per_event_log_bayes_factors"))
            c.attempt(f"per event estimators (log={lg})", one)


def pick(it, v, k, n):
    if isinstance(v, (Raised, BaseException)):
        return v
    return it.unpack(v, n)[k]


def check_det(c):
    it = c.interp()
    w1 = arr("weights", 1)
    n = pos("Ninj")
    for lg in (False, True):
        for form in ("kw", "default"):
            if form == "default" and lg:
                continue

            def one(lg=lg, form=form):
                f = c.entity(it, A + "detection_efficiency")
                s = c.entity(it, "vspec.analysis.detection_efficiency")
                kw = {"log": lg} if form == "kw" else {}
                got = force(lambda: it.call(f, [w1, n], kw))
                want = it.call(s, [w1, n, lg], {})
                for k, lab in enumerate(("log efficiency", "log effective sample size", "variance")):
                    c.equal(f"selection {lab} (log={lg},{form})", pick(it, got, k, 3), want[k], c.loc(it, A + "detection_efficiency"))
            c.attempt(f"selection estimators (log={lg})", one)


_c1 = check


def check(c):
    _c1(c)
    check_det(c)
