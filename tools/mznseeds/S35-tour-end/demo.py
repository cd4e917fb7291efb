import os, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())

import minizinc
from unittest.mock import MagicMock
g = minizinc.Solver.lookup("gecode")
if os.path.isdir("/usr/share/minizinc/std"):
    g.mznlib = "/usr/share/minizinc/std"
for m in ("gurobi", "gurobipy", "mip"):
    sys.modules[m] = MagicMock()
minizinc.Solver.lookup = classmethod(lambda c, *a, **k: g)

from skdecide.builders.discrete_optimization.tsp.tsp_model import TSPModel2D, Point2D
from skdecide.builders.discrete_optimization.tsp.solver.tsp_cp_solver import TSP_CP_Solver, TSP_CPModel
import math
for a, b in ((0, 0), (0, 3), (5, 1), (4, 0)):
    p = TSPModel2D([Point2D(100 * math.cos(k * math.pi / 4), 100 * math.sin(k * math.pi / 4)) for k in range(8)], 8, start_index=a, end_index=b)
    s = TSP_CP_Solver(p, TSP_CPModel.INT_VERSION, None); s.init_model()
    x, f = s.solve(max_time_seconds=20).get_best_solution_fit()
    assert sorted(x.permutation) == sorted(set(range(8)) - {a, b}), (a, b, x.permutation)
    assert p.satisfy(x)
