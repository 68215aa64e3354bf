"""Symbolic execution core: paths, obligations, solver access.

The verifier executes the *real* (AST instrumented, nothing removed) functions of /repo on symbolic
values.  Every branch on a symbolic condition forks the path; the function is re-executed once per
path with the recorded decisions.  Each contract clause is turned into an obligation
``path condition => clause`` per path and given to z3 (cvc5 when z3 does not answer).
"""
import time
import z3

z3.set_param("memory_max_size", 6000)


class Unsupported(BaseException):
    """The code left the subset the engine can reason about (never a violation)."""


class PathEnd(BaseException):
    """The path ends here on purpose (loop iteration checked, assumption false, ...)."""


class Budget(BaseException):
    """The exploration budget of a contract is used up."""


class Obligation:
    __slots__ = ("name", "paths", "discharged", "unknown", "failures", "backend", "soft")

    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.discharged = 0
        self.unknown = 0
        self.failures = []
        self.backend = {}
        self.soft = False


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.functions = set()


class Ctx:
    """One path of one contract run."""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.made = []
        self.new_alts = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", min(eng.timeout_ms, 2000))
        self.counter = {}
        self.inputs = {}
        self.notes = []
        self.model_hooks = []
        self.trace = []
        self.rng = {}
        self.facts = []

    # ---- names
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self.fresh(name))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        if lo is not None and hi is not None:
            self.rng[v.get_id()] = (lo, hi)
        return v

    def bool(self, name):
        return z3.Bool(self.fresh(name))

    # ---- path condition
    def assume(self, f):
        if z3.is_expr(f):
            self.facts.append(f)
        self.decide(f)

    def decide(self, f):
        """a decision of this path (assume: a fact on every path)"""
        if f is True:
            return
        if f is False:
            raise PathEnd("assume false")
        self.pc.append(f)
        self.solver.add(f)

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # the incremental solver gave up: once more from scratch, with z3's preprocessing
            s = z3.Solver()
            s.set("timeout", self.eng.timeout_ms)
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
        self.eng.stats.solver_s += time.time() - t
        self.eng.stats.queries += 1
        if time.time() > self.eng.deadline:
            raise Budget("time")
        return r

    def feasible(self, f=None):
        r = self._check(*([f] if f is not None else []))
        return r != z3.unsat

    def valid(self, f):
        """True when the path condition implies f (used by models, not an obligation)."""
        if f is True or f is False:
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return not self.feasible()
        if self.eng.ranges and self.quick(f):
            return True
        return self._check(z3.Not(f)) == z3.unsat

    def choose(self, n, feas=None, label=""):
        """Nondeterministic choice among n alternatives; feas(i) gives the condition of alternative i."""
        i = len(self.made)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.made.append(c)
            if feas is not None:
                self.decide(feas(c))
            return c
        opts = []
        for c in range(n):
            if feas is None:
                opts.append(c)
                continue
            f = feas(c)
            if f is True:
                opts.append(c)
            elif f is not False and self.feasible(f):
                opts.append(c)
        if not opts:
            raise PathEnd("infeasible")
        for c in opts[1:]:
            self.new_alts.append(self.made + [c])
        self.made.append(opts[0])
        if feas is not None:
            self.decide(feas(opts[0]))
        if len(self.made) > self.eng.max_depth:
            raise Unsupported("more than %d decisions on a path (unbounded loop without invariant?)" % self.eng.max_depth)
        return opts[0]

    def quick(self, f):
        """truth of a simplified formula from the ranges of its variables alone (all of them facts of the path), else None"""
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if z3.is_not(f):
            r = self.quick(f.arg(0))
            return None if r is None else not r
        if z3.is_and(f) or z3.is_or(f):
            rs = [self.quick(x) for x in f.children()]
            stop = z3.is_or(f)
            if stop in rs:
                return stop
            return None if None in rs else not stop
        le, ge = z3.is_le(f), z3.is_ge(f)
        if (le or ge or z3.is_eq(f)) and z3.is_int(f.arg(0)):
            from .values import linear, interval
            iv = interval(*linear(f.arg(0) - f.arg(1)))
            if iv is None:
                return None
            if le:
                return True if iv[1] <= 0 else False if iv[0] > 0 else None
            if ge:
                return True if iv[0] >= 0 else False if iv[1] < 0 else None
            return False if iv[0] > 0 or iv[1] < 0 else True if iv[0] == iv[1] == 0 else None
        return None

    def branch(self, f):
        if f is True or f is False:
            return f
        f = z3.simplify(f)
        if self.eng.ranges:
            q = self.quick(f)
            if q is not None:
                return q
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        i = len(self.made)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.made.append(c)
            self.decide(f if c == 1 else z3.Not(f))
            return c == 1
        can_t = self.feasible(f)
        can_f = self.feasible(z3.Not(f)) if can_t else True
        if can_t and can_f:
            self.new_alts.append(self.made + [0])
            self.made.append(1)
            self.decide(f)
            if len(self.made) > self.eng.max_depth:
                raise Unsupported("more than %d decisions on a path (unbounded loop without invariant?)" % self.eng.max_depth)
            return True
        # only one side feasible: not a decision, but recorded to keep prefixes aligned
        self.made.append(1 if can_t else 0)
        self.decide(f if can_t else z3.Not(f))
        return can_t

    # ---- obligations
    def prove(self, name, f, detail=None, soft=False):
        ob = self.eng.obligation(name)
        if soft:
            ob.soft = True
        ob.paths += 1
        if hasattr(f, "expr"):
            f = f.expr
        if f is True:
            ob.discharged += 1
            ob.backend["structural"] = ob.backend.get("structural", 0) + 1
            return True
        if f is False:
            r = self._check()
            if r == z3.unsat:
                ob.discharged += 1
                return True
            self._fail(ob, r, detail)
            return False
        f = z3.simplify(f)
        if z3.is_true(f):
            ob.discharged += 1
            ob.backend["z3-simplify"] = ob.backend.get("z3-simplify", 0) + 1
            return True
        if self.eng.ranges and self.quick(f):
            ob.discharged += 1
            ob.backend["interval"] = ob.backend.get("interval", 0) + 1
            return True
        r = self._check(z3.Not(f))
        if r == z3.unsat:
            ob.discharged += 1
            ob.backend["z3"] = ob.backend.get("z3", 0) + 1
            return True
        if r == z3.unknown:
            r2 = cvc5_check(self.pc + [z3.Not(f)], self.eng.timeout_ms)
            if r2 == "unsat":
                ob.discharged += 1
                ob.backend["cvc5"] = ob.backend.get("cvc5", 0) + 1
                return True
            ob.unknown += 1
            self.eng.log.append("obligation %s: solvers gave no answer" % name)
            return False
        self._fail(ob, r, detail, z3.Not(f))
        return False

    def _fail(self, ob, r, detail, neg=None):
        if r != z3.sat:
            ob.unknown += 1
            return
        if len(ob.failures) >= 6:
            ob.failures.append(None)
            return
        model = None
        try:
            s = z3.Solver()
            s.set("timeout", self.eng.timeout_ms)
            s.add(*self.pc)
            if neg is not None:
                s.add(neg)
            if s.check() == z3.sat:
                model = s.model()
        except z3.Z3Exception:
            pass
        inputs = {}
        if model is not None:
            for k, v in self.inputs.items():
                try:
                    inputs[k] = concretize(v, model)
                except Exception as e:  # noqa
                    inputs[k] = "<%s>" % type(e).__name__
        ob.failures.append({
            "contract": self.eng.contract_name,
            "obligation": ob.name,
            "detail": str(detail)[:2000] if detail is not None else None,
            "clause": str(neg)[:1500] if neg is not None else "False",
            "inputs": inputs,
            "notes": list(self.notes)[-20:],
        })


def concretize(v, model):
    if hasattr(v, "_vc_concretize"):
        return v._vc_concretize(model)
    if isinstance(v, z3.ExprRef):
        r = model.eval(v, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return str(r)
    if isinstance(v, (list, tuple)):
        return [concretize(x, model) for x in v]
    if isinstance(v, dict):
        return {str(k): concretize(x, model) for k, x in v.items()}
    if isinstance(v, (int, str, bool)) or v is None:
        return v
    if isinstance(v, (bytes, bytearray)):
        return {"hex": bytes(v).hex()}
    return repr(v)


def cvc5_check(assertions, timeout_ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*assertions)
        text = s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = p.getSymbolManager()
        res = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if out and "sat" in str(out):
                res = str(out).strip()
        return res
    except Exception:
        return "unknown"


class Engine:
    """Explores all paths of one contract."""

    def __init__(self, contract_name="", timeout_ms=8000, budget_s=120.0, max_paths=20000, max_depth=400):
        self.contract_name = contract_name
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.ranges = True
        self.deadline = time.time() + budget_s
        self.obligations = {}
        self.stats = Stats()
        self.log = []
        self.covers = {}
        self.undecided = []
        self.ctx = None

    def obligation(self, name):
        ob = self.obligations.get(name)
        if ob is None:
            ob = self.obligations[name] = Obligation(name)
        return ob

    def cover(self, name):
        self.covers[name] = self.covers.get(name, 0) + 1

    def unexpected(self, ctx, e):
        """An exception no contract clause allows.  Kinds a model may cause by itself (TypeError, AttributeError, ...) are
        soft: they count as a violation only when the replay on the plain code fails as well."""
        import traceback
        try:
            text = str(e)[:300]
        except BaseException:
            text = "<symbolic text>"
        if isinstance(e, z3.Z3Exception):
            self.undecided.append("solver: %s" % (str(e)[:200],))
            return False
        hard = isinstance(e, (ValueError, KeyError, IndexError, OverflowError, ZeroDivisionError, AssertionError)) or \
            type(e).__module__.startswith("psrpcore") or type(e).__name__ == "error"
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if "psrpcore" in f.filename]
        where = "%s:%d" % (inner[-1].name, inner[-1].lineno) if inner else "?"
        if not inner:
            hard = False
        ob = self.obligation("no-unexpected-exception")
        if not hard:
            ob = self.obligation("no-unexpected-exception(soft)")
            ob.soft = True
        ob.paths += 1
        try:
            ctx._fail(ob, ctx.solver.check(), "%s: %s in %s\n%s" % (type(e).__name__, text, where, traceback.format_exc()[-1500:]))
        except Exception:
            pass
        self.stats.paths += 1
        if not hard:
            self.undecided.append("exception %s: %s in %s" % (type(e).__name__, text[:200], where))
            self.soft_trace = traceback.format_exc()[-3000:]
            return False
        return len(ob.failures) < 20

    def explore(self, fn):
        from . import rt
        self.deadline = time.time() + self.budget_s
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                self.undecided.append("more than %d paths" % self.max_paths)
                return
            ctx = Ctx(self, prefix)
            self.ctx = ctx
            rt.RT.begin(self, ctx)
            try:
                fn(ctx)
                if ctx.__dict__.get("run_open"):
                    raise Unsupported("loop %s over a list of any length is left early" % ctx.run_open[-1].lid)
                self.stats.paths += 1
            except PathEnd:
                self.stats.paths += 1
            except Unsupported as e:
                import traceback
                at = [f for f in traceback.extract_tb(e.__traceback__) if "psrpcore" in f.filename]
                self.undecided.append("outside the subset: %s%s" % (e, " at " + " < ".join("%s:%d" % (f.name, f.lineno) for f in at[:-4:-1]) if at else ""))
                return
            except Budget as e:
                self.undecided.append("budget: %s" % (e,))
                return
            except RecursionError:
                self.undecided.append("recursion depth exceeded")
                return
            except Exception as e:
                # the code raised where the contract has no exceptional case
                if not self.unexpected(ctx, e):
                    return
            except z3.Z3Exception as e:
                self.undecided.append("solver: %s" % (str(e)[:200],))
                return
            finally:
                rt.RT.end()
            stack.extend(ctx.new_alts)
            if time.time() > self.deadline:
                if stack:
                    self.undecided.append("budget: time")
                return
