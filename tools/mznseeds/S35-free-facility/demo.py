import os, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())

import minizinc
from unittest.mock import MagicMock
g = minizinc.Solver.lookup("gecode")
if os.path.isdir("/usr/share/minizinc/std"):
    g.mznlib = "/usr/share/minizinc/std"
for m in ("gurobi", "gurobipy", "mip"):
    sys.modules[m] = MagicMock()
minizinc.Solver.lookup = classmethod(lambda c, *a, **k: g)

from skdecide.builders.discrete_optimization.facility.facility_model import FacilityProblem2DPoints, Facility, Customer, Point
from skdecide.builders.discrete_optimization.facility.solvers.facility_cp_solvers import FacilityCP
for cost in (10, 0):
    p = FacilityProblem2DPoints(3, 4, [Facility(i, cost, 8, Point(i * 50, 0)) for i in range(3)], [Customer(i, 3, Point(i, 1)) for i in range(4)])
    s = FacilityCP(p, None); s.init_model(); x, f = s.solve()
    assert p.satisfy(x), (cost, x.facility_for_customers)
