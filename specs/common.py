import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from cv.values import *
from cv.execu import real_const
from cv.spec import Spec, Task, Lemma
from cv import stdmodel
N = 'navigine::navigation_core::'
And, Or, Not, Implies, If, ForAll, Exists = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.ForAll, z3.Exists
Q = real_const
RV = z3.RealVal
def is_num(v):
    return z3.is_expr(v)
def nan(v):
    return isinstance(v, FSpec) and v.kind == 'nan'
def absr(x):
    return If(x >= 0, x, -x)
def tasks_of(P, specs, contracts=()):
    return [Task(P, s, contracts) for s in specs]

from cv.execu import plus
def pats(seq, i):
    """one trigger per stored component of element i"""
    return [d[plus(seq.lo, i)] for d in seq.data if not z3.is_K(d) and not z3.is_store(d)]

SUMR = z3.Function('SUMR', z3.ArraySort(I, R), I, I, R)
def summ(d, lo, i):
    """mathematical sum d[lo] + ... + d[lo+i-1] (defined by the recursion unfolded in sum_ax)"""
    return SUMR(d, z3.IntVal(lo) if isinstance(lo, int) else lo, i)
def sum_ax(d, lo, i):
    return [summ(d, lo, z3.IntVal(0)) == 0, Implies(i >= 0, summ(d, lo, i + 1) == summ(d, lo, i) + d[plus(lo, i)])]
def loop_ints(ctx):
    return [c for lab, p, c in ctx.idx()]
def fold_sum(ctx, arrays):
    """an accumulator of the loop is the sum of a prefix of one of the arrays [(name, data, lo)]"""
    out = []
    for c in loop_ints(ctx):
        for nm, d, lo in arrays:
            ctx.axioms += sum_ax(d, lo, c)
            for lab, p, acc in ctx.reals():
                out.append(('sum %s %s %s' % (nm, lab, c), acc == p + summ(d, lo, c)))
    return out

def div_signs(C, st):
    """facts of real division used where quotients are kept uninterpreted"""
    x, y = z3.Reals('x! y!')
    d = C.ex.ufn('div', R, R, R)
    st.pc += [ForAll([x, y], And(Implies(And(x > 0, y > 0), d(x, y) > 0), Implies(And(x >= 0, y > 0), d(x, y) >= 0)), patterns=[d(x, y)])]

class ArgMax:
    """ghost: index of the first best candidate among the first c (or -1): ARG(0) = -1, ARG(c+1) = c if candidate c counts and beats BEST(ARG(c)), else ARG(c).
    The recursion defines ARG; that it is the first maximum is proved as part of the loop invariant."""
    def __init__(self, C, name, valid, cost, init, n):
        self.ARG, self.V, self.COST = z3.Function('ARG_' + name, I, I), z3.Function('VALID_' + name, I, B), z3.Function('COST_' + name, I, R)
        self.init, self.n = init, n
        i = z3.Int('i!')
        self.valid, self.cost = valid, cost
        self.defs = [self.ARG(z3.IntVal(0)) == -1]
    def best(self, j):
        return If(j < 0, self.init, self.COST(j))
    def step(self, c):
        A = self.ARG
        return [self.V(c) == self.valid(c), self.COST(c) == self.cost(c),      # definitions of the ghosts, at c
                Implies(c >= 0, A(c + 1) == If(And(self.V(c), self.COST(c) > self.best(A(c))), c, A(c)))]
    def facts(self, c):
        A, i = self.ARG, z3.Int('i!')
        a = A(c)
        return And(a >= -1, a < c if not z3.is_int_value(c) or c.as_long() else True, Implies(a >= 0, And(self.V(a), self.COST(a) > self.init)),
                   ForAll([i], Implies(And(i >= 0, i < c, self.V(i)), And(self.COST(i) <= self.best(a), Implies(And(i < a), self.COST(i) < self.best(a)))), patterns=[self.V(i)]))
    def loop(self, ctx, ident):
        """ident(st values) -> list of (label, formula of index j) tying the program's best so far to candidate j"""
        out = []
        for c in loop_ints(ctx):
            ctx.axioms += self.step(c)
            out.append(('first maximum %s' % c, And(c >= 0, self.facts(c))))
            for lab, p, b in ctx.reals():
                out.append(('best value %s %s' % (lab, c), b == self.best(self.ARG(c))))
            for lab, f in ident(self.ARG(c)):
                out.append(('best candidate %s %s' % (lab, c), f))
        return out
