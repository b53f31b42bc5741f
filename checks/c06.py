from .common import *

TITLE = ("Algebraic value numbering of the closed-form densities and windows, over every sign assignment of the tests on the argument and parameters: "
         "support, boundary handling and the normalising constant are compared with the analytically normalised density.")
ASSUMPTIONS = ("real arithmetic: rounding and overflow are outside the value domain; power-law bounds are positive",)
D = "gwinferno.distributions."
S = "vspec.densities."


def check(c):
    it = c.interp()
    x = arr("x", 1)
    xp = arr("x", 1, pos=True)
    a, low, high, floor = ssym("alpha"), pos("low"), pos("high"), ssym("floor")
    mu, sig, l2, h2 = ssym("mu"), pos("sigma"), ssym("low"), ssym("high")
    al, be, sc = pos("a"), pos("b"), pos("scale")
    dom = {"low": (0.2, 0.9), "high": (1.4, 3.0), "x": (0.1, 4.0)}

    def ob(name, target, spec, args, kw=None, skw=None, sargs=None, domains=None):
        c.attempt(name, lambda: both(c, it, name, D + target, S + spec, args, kw or {}, sargs=sargs, skwargs=skw, domains=domains))

    for nm, ax in (("array", xp), ("scalar", pos("x"))):
        ob(f"power law ({nm})", "powerlaw_pdf", "powerlaw", [ax, a, low, high], domains=dom)
        ob(f"power law with floor ({nm})", "powerlaw_pdf", "powerlaw", [ax, a, low, high], {"floor": floor}, domains=dom)
    for k in (-1, 0, 1, -2, 3):
        ob(f"power law index {k}", "powerlaw_pdf", "powerlaw", [xp, num(k), low, high], domains=dom)
    ob("power law in mass ratio (array bound)", "powerlaw_pdf", "powerlaw", [xp, a, div(low, arr("m1", 1, pos=True)), ONE])
    ob("truncated normal", "truncnorm_pdf", "truncnorm", [x, mu, sig, l2, h2])
    ob("truncated normal log=False", "truncnorm_pdf", "truncnorm", [x, mu, sig, l2, h2], {"log": False}, {})
    ob("truncated log-normal", "truncnorm_pdf", "trunclognorm", [xp, mu, sig, low, high], {"log": True}, {}, domains=dom)
    ob("beta", "betadist", "beta", [x, al, be], domains={"x": (-0.5, 1.5)})
    ob("scaled beta", "betadist", "beta", [x, al, be, sc])
    ob("scaled beta with floor", "betadist", "beta", [x, al, be], {"scale": sc, "floor": floor})
    L, k0, x0, sg = ssym("L"), ssym("k"), ssym("x0"), ssym("sgn")
    ob("logistic curve", "logistic_function", "logistic", [x, L, k0, x0])
    ob("logistic unit defaults", "logistic_unit", "logistic_unit", [x, x0])
    ob("logistic unit", "logistic_unit", "logistic_unit", [x, x0], {"sgn": sg, "sc": k0})
    for s in (1, -1):
        ob(f"log logistic unit sgn={s}", "log_logistic_unit", "log_logistic_unit", [x, x0], {"sgn": num(s), "sc": pos("k")})
    ob("log logistic unit defaults", "log_logistic_unit", "log_logistic_unit", [x, x0])
    for lab, kw in (("no truncation", {}), ("low", {"low": low}), ("high", {"high": high}), ("both", {"low": low, "high": high}),
                    ("both, widths", {"low": low, "high": high, "low_fall_off": pos("w1"), "high_fall_off": pos("w2")})):
        ob(f"soft power law ({lab})", "powerlaw_logit_pdf", "powerlaw_logit", [xp, a], kw)
    ob("smoothing window", "smooth", "smooth", [pos("dx"), x, ssym("xmin")])
    for k in (-1, -2, 0, 2):
        c.attempt(f"power law index {k} given as a plain number", lambda: plain_numbers(
            c, f"power law index {k} given as a plain number", lambda i2, s: i2.call(c.entity(i2, D + "powerlaw_pdf"), [xp, s["alpha"], s["low"], s["high"]], {}),
            {"alpha": k, "low": 1, "high": 2}, D + "powerlaw_pdf"))
