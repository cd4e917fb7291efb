import os, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.getcwd())

import minizinc
from unittest.mock import MagicMock
g = minizinc.Solver.lookup("gecode")
if os.path.isdir("/usr/share/minizinc/std"):
    g.mznlib = "/usr/share/minizinc/std"
for m in ("gurobi", "gurobipy", "mip"):
    sys.modules[m] = MagicMock()
minizinc.Solver.lookup = classmethod(lambda c, *a, **k: g)

import numpy as np
from skdecide.builders.discrete_optimization.generic_tools.cp_tools import ParametersCP, CPSolverName
from skdecide.builders.discrete_optimization.rcpsp.rcpsp_model import RCPSPModelCalendar
import skdecide.builders.discrete_optimization.rcpsp.solver.cp_solvers as cs
md = {1: {1: dict(duration=0, R=0)}, 2: {1: dict(duration=3, R=1), 2: dict(duration=5, R=1)}, 3: {1: dict(duration=2, R=1)}, 4: {1: dict(duration=0, R=0)}}
for succ in ({1: [2], 2: [3], 3: [4], 4: []}, {1: [3], 3: [2], 2: [4], 4: []}):
    p = RCPSPModelCalendar({"R": np.array([2] * 21)}, [], md, succ, 20)
    s = cs.CP_MRCPSP_MZN(p, cp_solver_name=CPSolverName.CHUFFED); s.init_model()
    x, f = s.solve(parameters_cp=ParametersCP.default()).get_best_solution_fit()
    for i in succ:
        for j in succ[i]:
            assert x.rcpsp_schedule[j]["start_time"] >= x.rcpsp_schedule[i]["end_time"], (succ, x.rcpsp_schedule)
