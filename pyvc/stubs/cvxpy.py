"""The contract the verifier assumes for cvxpy: a problem that is solved to status "optimal" leaves its variables at some point that satisfies every constraint
(nothing is assumed about optimality); any other status leaves them at arbitrary values; a solver may also give up with SolverError."""
from _pyvc import fresh_real, fresh_bool, assume

OPTIMAL = "optimal"
INFEASIBLE = "infeasible"
ECOS = "ECOS"
SCS = "SCS"
OSQP = "OSQP"
CVXOPT = "CVXOPT"
CBC = "CBC"
ECOS_BB = "ECOS_BB"
GUROBI = "GUROBI"
MOSEK = "MOSEK"
GLPK = "GLPK"
GLPK_MI = "GLPK_MI"
CPLEX = "CPLEX"
XPRESS = "XPRESS"
SCIP = "SCIP"


class SolverError(Exception):
    pass


class Variable:
    _all = []

    def __init__(self, n, value=None):
        self.n = n
        self.value = value
        self.unknowns = [fresh_real("variable") for _ in range(n)]
        Variable._all.append(self)

    def __getitem__(self, i):
        return self.unknowns[i]

    def __len__(self):
        return self.n


class _GeoMean:
    def __init__(self, items):
        self.items = items

    def __ge__(self, v):
        a, b = self.items
        ok = (a >= 0) & (b >= 0) & (a * b >= v * v)
        return ok


def hstack(items):
    return list(items)


def geo_mean(items):
    return _GeoMean(items)


def sum(items):
    t = 0
    for x in items:
        t = t + x
    return t


class Minimize:
    def __init__(self, expr):
        self.expr = expr


class Problem:
    def __init__(self, objective, constraints):
        self.objective = objective
        self.constraints = constraints
        self.status = None
        self.value = None

    def solve(self, solver=None, **kw):
        if fresh_bool("solver_error"):
            raise SolverError("the solver gave up")
        for v in Variable._all:
            v.value = list(v.unknowns)
        self.value = self.objective.expr
        if fresh_bool("infeasible"):
            self.status = INFEASIBLE
            return self.value
        for con in self.constraints:
            assume(con)
        self.status = OPTIMAL
        return self.value
