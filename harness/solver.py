"""Detects faults of the solver itself: an 'optimal' solution that violates
the very model it was given (seen with lazy constraints: a binary variable
equal to 2).  Such a run says nothing about the code, and is dropped."""
import functools

FAULT_CODE = 77


class SolverFault(BaseException):
    pass


def install():
    import gurobipy as gp
    try:
        from src.optim.OptiModel import OptiModel
    except ImportError:
        return
    if 'solve' not in OptiModel.__dict__:
        return
    orig = OptiModel.solve

    @functools.wraps(orig)
    def solve(self, *a, **kw):
        r = orig(self, *a, **kw)
        try:
            m = self.grb_model
            bad = m.SolCount > 0 and m.MaxVio > 1e-4
        except (AttributeError, gp.GurobiError):
            bad = False
        if bad:
            raise SolverFault()
        return r
    OptiModel.solve = solve
