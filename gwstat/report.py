"""Obligation bookkeeping: every check builds obligations (value from the
repository's source vs reference value), decides them with eq.compare and
writes evidence + verdict lines."""
import ctypes
import json
import os
import sys
import threading
import time
import traceback

from . import eq
from . import terms as tm
from .eq import PROVED, REFUTED, UNDECIDED, Verdict
from .interp import (BoundV, C, ClassV, DictV, Effect, ExtV, FuncV, GammaV, InstV, Interp, ListV, P, PyRaise, Repo, StrV,
                     Unsupported, freeze, UNDEF)
from .ext import Ext
from .ops import subst_atoms
from .terms import Blowup, show_any

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GWSTAT_REPO", "/repo")


class Missing(Exception):
    pass


class Budget(BaseException):
    """time budget of one obligation group exhausted"""


TOTAL_S = 600
GROUP_S = 150


class Watch:
    """raises Budget in the calling thread if the block outlives its budget"""

    def __init__(self, seconds):
        self.tid = threading.get_ident()
        self.done = False
        self.lock = threading.Lock()
        self.t = threading.Timer(max(seconds, 0.01), self.fire)
        self.t.daemon = True

    def fire(self):
        with self.lock:
            if not self.done:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(Budget))

    def __enter__(self):
        self.t.start()

    def __exit__(self, *a):
        with self.lock:
            self.done = True
        self.t.cancel()


class Raised:
    def __init__(self, typ, msg=""):
        self.typ = typ
        self.msg = msg

    def __repr__(self):
        return f"raises {self.typ}"


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)


class Check:
    def __init__(self, pid, title="", assumptions=()):
        self.pid = pid
        self.title = title
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obs = []
        self.visited = {}
        self.assumptions = list(assumptions)
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
        self.known_hit = []
        self.rules = []
        self.extra = {}
        self._its = []

    # ------------------------------------------------ engine access
    history = True

    def interp(self, opaque=()):
        it = Interp(Repo(REPO), Ext(), opaque=opaque)
        it.history = self.history
        self._its.append(it)
        return it

    def entity(self, it, dotted):
        v = it.get(dotted)
        if v is None:
            raise Missing(dotted)
        return v

    def loc(self, it, dotted):
        v = it.get(dotted)
        f = v
        if isinstance(f, ClassV):
            return f"{os.path.relpath(f.module.path, REPO)}:{f.node.lineno} {dotted}"
        if isinstance(f, FuncV):
            return f"{os.path.relpath(f.module.path, REPO)}:{f.node.lineno} {dotted}"
        return dotted

    # ------------------------------------------------ obligations
    def record(self, name, status, why="", where="", got=None, want=None, rule=""):
        o = {"obligation": name, "status": status, "why": why, "where": where}
        if rule:
            o["rule"] = rule
        if status != PROVED:
            if got is not None:
                o["found"] = short(got)
            if want is not None:
                o["expected"] = short(want)
        self.obs.append(o)
        return o

    def equal(self, name, got, want, where="", domains=None, alts=(), known_ops=None):
        """obligation got == want.  got/want are values or thunks."""
        got = force(got)
        want = force(want, spec=True)
        if isinstance(got, BaseException):
            st, why = exc_status(got, want)
            return self.record(name, st, why, where, None, want)
        if isinstance(want, BaseException):
            raise want
        if isinstance(want, Raised):
            if isinstance(got, Raised):
                ok = got.typ == want.typ or want.typ == "*"
                return self.record(name, PROVED if ok else REFUTED, f"raises {got.typ}", where, repr(got), repr(want))
            if tm.bad_of(freeze(got)):
                return self.record(name, UNDECIDED, "uninterpreted construct", where, got, repr(want))
            return self.record(name, REFUTED, "completes instead of raising", where, got, repr(want))
        if isinstance(got, Raised):
            k = self.alt(name, got, alts)
            if k:
                return k
            return self.record(name, REFUTED, f"raises {got.typ}: {got.msg}", where, repr(got), want)
        g, w = norm_tags(freeze(got)), norm_tags(freeze(want))
        try:
            v = eq.compare(g, w, domains, known_ops=known_ops)
        except (RecursionError, Blowup) as ex:
            v = Verdict(UNDECIDED, f"comparison budget exceeded ({ex})", g, w)
        if v.status == REFUTED:
            k = self.alt(name, g, alts, domains)
            if k:
                return k
        why = v.why + (f" ({v.witness})" if v.witness else "")
        return self.record(name, v.status, why, where, v.got if v.got is not None else g, v.want if v.want is not None else w)

    def alt(self, name, got, alts, domains=None):
        """a listed finding: the value coincides with the recorded defective value"""
        for key, alt in alts:
            ent = next((k for k in self.known if k["key"] == key), None)
            if ent is None:
                continue
            alt = force(alt, spec=True)
            if isinstance(alt, Raised):
                hit = isinstance(got, Raised) and got.typ == alt.typ
            elif isinstance(got, Raised):
                hit = False
            else:
                st = eq.compare(norm_tags(freeze(got)), norm_tags(freeze(alt)), domains).status
                if st == UNDECIDED:
                    return self.record(name, UNDECIDED, f"cannot be told apart from the recorded finding '{key}'", "")
                hit = st == PROVED
            if hit:
                self.known_hit.append(ent)
                return self.record(name, "KNOWN", ent["what"], "")
        return None

    def holds(self, name, ok, why="", where="", key=None, undecided=False):
        """boolean obligation decided by an analysis of its own"""
        if ".py:" in why and ".py:" not in where:
            why, where = where, why
        if ok:
            return self.record(name, PROVED, why, where)
        if undecided:
            return self.record(name, UNDECIDED, why, where)
        if key is not None:
            ent = next((k for k in self.known if k["key"] == key), None)
            if ent is not None:
                if ent not in self.known_hit:
                    self.known_hit.append(ent)
                return self.record(name, "KNOWN", ent["what"], where)
        return self.record(name, REFUTED, why, where)

    def same_sites(self, name, got_fx, want_fx, where="", domains=None, need_det=True, alts=None, ignore=(), optional=()):
        """probabilistic sites recorded by the code vs the reference"""
        g, w = sites(got_fx), sites(want_fx)
        alts = alts or {}
        for k in w:
            kind, nm = k
            lab = f"{name}: {kind} site {short(nm)}"
            if k not in g:
                if any(not isinstance(x[1], (str, StrV)) or tm.bad_of(x[1]) for x in g):
                    self.record(lab, UNDECIDED, "site names not resolved", where)
                elif k not in optional:
                    self.record(lab, REFUTED, "site is not recorded", where, "", w[k][0][1])
                continue
            if len(w[k]) != len(g[k]):
                self.record(lab, REFUTED, f"recorded {len(g[k])} times instead of {len(w[k])}", where)
                continue
            for a, b in zip(g[k], w[k]):
                wh = f"{os.path.relpath(a[4].file, REPO)}:{a[4].line} {a[4].func}"
                self.equal(lab + " guard", a[0], b[0], wh, domains)
                self.equal(lab, a[1], b[1], wh, domains, alts=alts.get(nm, ()))
                self.equal(lab + " repetition", a[3], b[3], wh, domains)
        for k in g:
            if k not in w and k[0] in ("sample", "factor") and k not in ignore:
                e = g[k][0][4]
                self.record(f"{name}: {k[0]} site {short(k[1])}", UNDECIDED if tm.bad_of(k[1]) or not isinstance(k[1], (str, StrV)) else REFUTED, "extra site changes the target density",
                            f"{os.path.relpath(e.file, REPO)}:{e.line} {e.func}")

    def attempt(self, name, fn, where=""):
        """run fn (which records obligations); engine limits become UNDECIDED"""
        try:
            with Watch(min(GROUP_S, TOTAL_S - (time.time() - self.t0))):
                return fn()
        except Budget:
            self.record(name, UNDECIDED, "time budget exhausted", where)
        except Missing as ex:
            self.record(name, UNDECIDED, f"public entry point {ex} not found", where)
        except (Unsupported, Blowup, RecursionError) as ex:
            self.record(name, UNDECIDED, f"outside the modelled language: {ex}", where)
        except PyRaise as ex:
            if ex.site:
                f, l, fn = ex.site
                self.record(name, REFUTED, f"raises {ex}", f"{os.path.relpath(f, REPO)}:{l} {fn}")
                return None
            self.record(name, UNDECIDED, f"raised while being set up: {ex.typ} {ex}", where)
        except Exception as ex:
            self.record(name, UNDECIDED, "analyser limitation: " + repr(ex) + " " + traceback.format_exc(limit=-3), where)

    # ------------------------------------------------ output
    def listed(self):
        """every obligation that is not discharged, and of a very long list of discharged ones an even selection"""
        done = [o for o in self.obs if o["status"] == PROVED]
        step = -(-len(done) // 1500) or 1
        keep = {id(o) for o in done[::step]}
        return [o for o in self.obs if o["status"] != PROVED or id(o) in keep]

    def finish(self):
        for it in self._its:
            for q, loc in it.visited.items():
                if loc and isinstance(loc, tuple) and not q.startswith("vspec"):
                    self.visited[q] = f"{loc[0]}:{loc[1]}"
        n = len(self.obs)
        by = {}
        for o in self.obs:
            by[o["status"]] = by.get(o["status"], 0) + 1
        viol = [o for o in self.obs if o["status"] == REFUTED]
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": self.title,
                "obligations": n,
                "discharged": by.get(PROVED, 0),
                "undecided": by.get(UNDECIDED, 0),
                "known": by.get("KNOWN", 0),
                "refuted": by.get(REFUTED, 0),
                "functions_analysed": dict(sorted(self.visited.items())),
                "rules": sorted(set(self.rules)),
                "obligation_list": [{k: o[k] for k in o if k in ("obligation", "status", "why", "where")} for o in self.listed()],
                "obligations_not_listed": n - len(self.listed()),
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k in self.known_hit:
            if k["key"] not in seen:
                seen.add(k["key"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        und = by.get(UNDECIDED, 0)
        print(f"{self.pid}: {n} obligations, {by.get(PROVED, 0)} discharged, {by.get('KNOWN', 0)} known, {und} undecided, {len(viol)} refuted; "
              f"{len(self.visited)} functions analysed; {ev['wall_s']} s")
        for o in self.obs:
            if o["status"] == UNDECIDED:
                print(f"  undecided: {o['obligation']}: {o['why'][:300]}")
                if os.environ.get("GWSTAT_DEBUG"):
                    print("      found   ", o.get("found"))
                    print("      expected", o.get("expected"))
        if viol:
            rp = os.path.join(d, self.pid + ".violation.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "repo": REPO, "rerun": f"python3-vt check.py {self.pid}", "violations": viol}, f, indent=1)
            for o in viol[:6]:
                print(f"  violated: {o['obligation']} at {o['where']}: {o['why']}")
                if o.get("found"):
                    print("      found   ", o.get("found"))
                    print("      expected", o.get("expected"))
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0


def norm_tags(x):
    """list / tuple containers are interchangeable for the observer"""
    if isinstance(x, tuple):
        if x and x[0] == "list":
            return ("tuple",) + tuple(norm_tags(y) for y in x[1:])
        return tuple(norm_tags(y) for y in x)
    return x


def close(e):
    """effect with its loop binders replaced by canonical names"""
    mp = {}
    for k, (ia, n) in enumerate(e.binders):
        mp[ia] = tm.sym(f"@b{k}", scalar=True, integer=True)
    f = lambda v: subst_atoms(freeze(v), mp) if mp else freeze(v)
    return (f(e.name), f(e.guard), f(e.value), f(e.extra), tuple(f(n) for _, n in e.binders))


def sites(effects, kinds=("sample", "factor", "deterministic")):
    out = {}
    for e in effects:
        if e.kind in kinds:
            nm, g, v, x, b = close(e)
            out.setdefault((e.kind, nm), []).append((g, v, x, b, e))
    return out


def short(x):
    if isinstance(x, str):
        return x[:600]
    try:
        return show_any(freeze(x), 7)[:900]
    except Exception:
        return repr(x)[:600]


def force(x, spec=False):
    if callable(x) and not isinstance(x, (FuncV, ClassV, BoundV, ExtV)):
        try:
            return x()
        except PyRaise as ex:
            return Raised(ex.typ, str(ex))
        except Missing:
            raise
        except (Unsupported, Blowup, RecursionError) as ex:
            if spec:
                raise
            return ex
    return x


def exc_status(ex, want):
    return UNDECIDED, f"outside the modelled language: {ex}"


def run(pid, fn, title, assumptions=()):
    sys.setrecursionlimit(20000)
    c = Check(pid, title, assumptions)
    fn(c)
    return c.finish()
