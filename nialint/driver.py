"""Runs the abstract interpreter over one algorithm class: construct, run(task)."""
import ast

from . import terms as t
from .loader import Program, ClassInfo, FuncInfo, AnalysisBroken
from . import interp as ip
from .interp import Interp, State, Frame, S, Ref, View, Fn, BM, Cls, Ext, PhiV, Tup, RngV, Arr, Lst, Dct, Obj, arr, vleaves, BOT, Bot, joinv

TASK_MOD = "niapy.task"
ALG_MOD = "niapy.algorithms.algorithm"
LO, UP, PROB = ("LO",), ("UP",), ("PROB",)


class Run:
    """result of the abstract run of one algorithm"""

    def __init__(self):
        self.events, self.iter_returns, self.init_returns = [], [], []
        self.final = None
        self.crashed = None


def need(x, what):
    if x is None:
        raise AnalysisBroken("anchor missing: " + what)
    return x


class Driver:
    def __init__(self, prog):
        self.prog = prog
        self.task_cls = need(prog.cls("niapy.task", "Task"), "niapy.task.Task")
        self.problem_cls = need(prog.cls("niapy.problems.problem", "Problem"), "niapy.problems.problem.Problem")
        self.alg_cls = need(prog.cls(ALG_MOD, "Algorithm"), "Algorithm")
        self.indiv = need(prog.cls(ALG_MOD, "Individual"), "Individual")
        for m in ("eval", "stopping_condition", "next_iter", "repair"):
            need(self.task_cls.methods.get(m), "Task." + m)
        for m in ("run", "get_best", "init_population", "run_iteration"):
            need(self.alg_cls.methods.get(m), "Algorithm." + m)

    # -- primitives -----------------------------------------------------------------------------
    def prims(self):
        def p_eval(I, st, b, node):
            x = b.get("x")
            if x is None or isinstance(x, Bot):
                return BOT
            c = I.content(st, x)
            I.ev("eval", node, x=x, c=c, st_pc=st.pc, isobj=isinstance(x, Ref) and isinstance(st.heap.get(x.oid), Obj))
            return S(t.E(1, c))

        def p_stop(I, st, b, node):
            return S(t.sym("stop%s" % (I.key(node),), nd=0))

        def p_next(I, st, b, node):
            I.ev("next_iter", node)
            return S(t.NONE)

        def p_repair(I, st, b, node, fi=None):
            names = list(b)
            x = b.get("x", b[names[0]])
            lo, up = b.get("lower"), b.get("upper")
            rng = b.get("rng")
            if rng is None:
                for k in names:
                    if isinstance(b[k], Ref) and isinstance(st.heap.get(b[k].oid), Dct):
                        d = dict(st.heap[b[k].oid].entries)
                        rng = d.get("rng", rng)
            c = I.content(st, x)
            lt, ut = I.content(st, lo) if lo is not None else None, I.content(st, up) if up is not None else None
            _a = ast
            fixed = False
            if fi is not None and isinstance(node, _a.Call) and I.stack:
                r = I.prog.resolve_expr(I.stack[-1][0].module, node.func)
                fixed = bool(r) and r[0] == "func" and r[1] is fi
            I.ev("repair", node, x=x, c=c, rng=rng, lower=lt, upper=ut, target=fi, fixed=fixed)
            ok = lt is not None and ut is not None and t.sel_path(lt, t.LOWER) is not None and t.sel_path(lt, t.LOWER) == t.sel_path(ut, t.UPPER)
            if c.feas == "F":
                return x
            new = t.rep(c) if ok else t.call("badrepair", c, nd=c.nd)
            if isinstance(x, S):
                return I.mat(st, S(new), I.key(node, "rep"))
            I.set_whole(st, x, new, node)
            return x

        def p_problem(I, st, b, node):
            x = b.get("x")
            I.ev("raw_objective", node, x=x)
            return S(t.E(1, I.content(st, x))) if x is not None else S(t.top("objective"))

        return {
            (TASK_MOD, "Task.eval"): p_eval,
            (TASK_MOD, "Task.stopping_condition"): p_stop,
            (TASK_MOD, "Task.next_iter"): p_next,
            ("niapy.util.repair", "*"): p_repair,
            ("niapy.problems.problem", "Problem.evaluate"): p_problem,
            ("niapy.problems.problem", "Problem._evaluate"): p_problem,
        }

    # -- initial world ----------------------------------------------------------------------------
    variant = {}        # option -> bundled function: the configuration to analyse

    def world(self):
        t.reset()
        I = Interp(self.prog)
        I.indiv_cls = self.indiv
        I.prims = self.prims()
        I.parents = {}
        I.lambdas = {}
        st = State()
        I.shared_scan(st)
        D = t.sym("D", nd=0)
        t.LOWER.org = t.UPPER.org = D
        st.heap[LO] = arr(t.LOWER)
        st.heap[UP] = arr(t.UPPER)
        st.heap[PROB] = Obj(self.problem_cls, {"dimension": S(D), "lower": Ref(LO), "upper": Ref(UP)}, None, ())
        fi = FuncInfo("<driver>", ast.parse("def f(): pass").body[0], self.task_cls.methods["eval"].module, None)
        I.stack.append((fi, fi.node))
        node = ast.parse("Task()").body[0].value
        rep = self.prog.func("niapy.util.repair", "limit")
        kw = {"problem": Ref(PROB), "optimization_type": S(t.sym("opt", nd=None)), "max_evals": S(t.sym("max_evals")), "max_iters": S(t.sym("max_iters"))}
        if rep is not None:
            kw["repair_function"] = Fn(rep, None)
        task = I.instantiate(st, self.task_cls, [], kw, node)
        # counters and records change behind every call of the task
        I.volatile = {(task.oid, n): 0 for n in ("evals", "iters", "x_f")}
        I.volatile.update({(task.oid, n): 1 for n in ("n_evals", "fitness_evals", "fitness_iters")})
        return I, st, task

    def make_alg(self, I, st, ci, variant=None):
        """instance with symbolic parameters"""
        fi = ci.find("__init__")
        pos, kwo, va, kwa = fi.params()
        a = fi.node.args
        dm = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dm.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        kw = {}
        for n in pos[1:] + kwo:
            d = dm.get(n)
            if n == "seed":
                kw[n] = S(t.sym("cfg.seed", nd=None))
            elif n == "callbacks":
                continue
            elif d is None:
                kw[n] = S(t.sym("cfg." + n, nd=None))
            else:
                v = I.default(fi, d)
                if isinstance(v, S) and t.is_const(v.t):
                    c = t.cval(v.t)
                    if isinstance(c, bool) or isinstance(c, (int, float)):
                        kw[n] = S(t.sym("cfg." + n, nd=0))
                    elif c is None:
                        kw[n] = v
                    else:
                        kw[n] = v
                elif variant and n in variant:
                    kw[n] = variant[n]
                else:
                    kw[n] = v
        if kwa and "seed" not in kw:
            kw["seed"] = S(t.sym("cfg.seed", nd=None))
        for n, f in self.variant.items():
            if n in kw or kwa:
                kw[n] = Fn(f, None)
        node = ast.parse("%s()" % ci.name).body[0].value
        return I.instantiate(st, ci, [], kw, node), kw

    def variants(self, ci, inherited=False):
        """[{option: function}] every bundled alternative of an option the default of which is a bundled function, one at a time.
        An alternative is a function of the same module that could stand in for the default: same number of required
        arguments and a common word in the name, or mostly the same argument names."""
        seen, found = set(), []
        for c in ci.mro():
            if c.name == "Algorithm" or c is not ci and not inherited:
                break
            fi = c.methods.get("__init__")
            if fi is None:
                continue
            pos, kwo, va, kwa = fi.params()
            a = fi.node.args
            dm = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
            dm.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for n, d in dm.items():
                if n in seen:
                    continue
                seen.add(n)
                r = self.prog.resolve_expr(fi.module, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
                if not r or r[0] != "func" or not r[1].module.name.startswith("niapy.algorithms"):
                    continue
                found.append((n, r[1]))
            if not (va or kwa):
                break
        taken = {f for _, f in found}
        return [{n: g} for n, f in found for g in self.stand_ins(f) if g not in taken]

    def stand_ins(self, f):
        def req(g):
            pos = g.params()[0]
            return [x.lstrip("_") for x in pos[:len(pos) - len(g.node.args.defaults)]]
        called = {n.func.id for n in ast.walk(f.module.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        rf, wf = req(f), set(f.name.strip("_").split("_"))
        out = []
        for node in f.module.tree.body:
            if not isinstance(node, ast.FunctionDef) or node.name == f.name or node.name.startswith("_"):
                continue
            r = self.prog.lookup(f.module, node.name)
            if not r or r[0] != "func":
                continue
            g = r[1]
            rg, wg = req(g), set(g.name.split("_"))
            same = len(set(rf) & set(rg)) / max(1, len(set(rf) | set(rg)))
            if len(rf) == len(rg) and (wf & wg or same > 0.7) or g.params()[3] and f.params()[3] and same >= 0.4 and not wf & wg and g.name not in called:
                out.append(g)
        return out

    def run_class(self, ci, variant=None, prep=None):
        I, st, task = self.world()
        R = Run()
        R.I, R.ci, R.task = I, ci, task
        I.mark0 = len(I.events)
        alg, kw = self.make_alg(I, st, ci, variant)
        R.ctor_events = list(I.events)
        R.alg, R.kw = alg, kw
        R.st_ctor = st.copy()
        if st.dead:
            R.crashed = "constructor always raises"
            R.events = I.events
            return R
        if prep is not None:
            prep(R, st)
        node = ast.parse("alg.run(task)").body[0].value

        def post(I, st2, fi, bound, rv, node2):
            if fi.cls is not None and fi.name in ("run_iteration", "init_population"):
                depth = sum(1 for f, _ in I.stack if f.name == fi.name)
                if depth == 1:
                    I.ev("ret_" + fi.name, fi.node, rv=rv, heap=dict(st2.heap), bound=bound)
            return None
        I.post_hook = post
        I.attr_reads = set()

        def reads(st2, o, name, node2):
            if o.oid == task.oid and name in ("optimization_type", "x_f", "cutoff_value", "fitness_evals", "fitness_iters"):
                I.ev("task_read", node2, name=name)
            if I.own_read_hook is not None and o.oid == alg.oid:
                I.own_read_hook(st2, name, node2)
        I.attr_read_hook = reads
        rv = I.call_method(st, alg, "run", [task], {}, node)
        R.final = (st, rv)
        R.events = I.events
        return R
