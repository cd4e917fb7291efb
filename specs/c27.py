# C27: optimisation problems, result storage, local search, neighbourhood search, evolution


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "EncodingRegister.__init__")
def _(self, dict_attribute_to_type):
    self.dict_attribute_to_type = dict_attribute_to_type


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "EncodingRegister.get_types")
def _(self):
    return [t for k in self.dict_attribute_to_type for t in self.dict_attribute_to_type[k]['type']]


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "ObjectiveRegister.__init__")
def _(self, objective_sense, objective_handling, dict_objective_to_doc):
    self.objective_sense = objective_sense
    self.objective_handling = objective_handling
    self.dict_objective_to_doc = dict_objective_to_doc


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "ObjectiveRegister.get_list_objective_and_default_weight")
def _(self):
    d = [(k, self.dict_objective_to_doc[k]['default_weight']) for k in self.dict_objective_to_doc]
    return ([s[0] for s in d], [s[1] for s in d])


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "Solution.lazy_copy")
def _(self):
    return self.copy()


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "Solution.get_attribute_register")
def _(self, problem):
    return problem.get_attribute_register()


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "Problem.evaluate_mobj")
def _(self, variable):
    obj_register = self.get_objective_register()
    keys = sorted(obj_register.dict_objective_to_doc.keys())
    dict_values = self.evaluate(variable)
    return TupleFitness(np.array([dict_values[k] for k in keys]), len(keys))


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "Problem.evaluate_mobj_from_dict")
def _(self, dict_values):
    keys = sorted(self.get_objective_register().dict_objective_to_doc.keys())
    return TupleFitness(np.array([dict_values[k] for k in keys]), len(keys))


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "MethodAggregating.__init__")
def _(self, base_method_aggregating, percentile=90.0, ponderation=None):
    self.base_method_aggregating = base_method_aggregating
    self.percentile = percentile
    self.ponderation = ponderation


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.__init__")
def _(self, list_problem, method_aggregating):
    self.list_problem = list_problem
    self.method_aggregating = method_aggregating
    self.nb_problem = len(self.list_problem)
    self.agg_vec = self.aggregate_vector()


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.aggregate_vector")
def _(self):
    if self.method_aggregating.base_method_aggregating == BaseMethodAggregating.MEAN:
        func = np.mean
    if self.method_aggregating.base_method_aggregating == BaseMethodAggregating.MEDIAN:
        func = np.median
    if self.method_aggregating.base_method_aggregating == BaseMethodAggregating.PERCENTILE:

        def func(x):
            return np.percentile(x, q=[self.method_aggregating.percentile])[0]
    if self.method_aggregating.base_method_aggregating == BaseMethodAggregating.PONDERATION:

        def func(x):
            return np.dot(x, self.method_aggregating.ponderation)
    if self.method_aggregating.base_method_aggregating == BaseMethodAggregating.MIN:
        func = np.min
    if self.method_aggregating.base_method_aggregating == BaseMethodAggregating.MAX:
        func = np.max
    return func


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.evaluate")
def _(self, variable):
    fits = [self.list_problem[i].evaluate(variable) for i in range(self.nb_problem)]
    keys = fits[0].keys()
    aggreg = {}
    for k in keys:
        vals = np.array([fit[k] for fit in fits])
        aggreg[k] = self.agg_vec(vals)
    return aggreg


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.satisfy")
def _(self, variable):
    return self.list_problem[0].satisfy(variable)


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.get_attribute_register")
def _(self):
    return self.list_problem[0].get_attribute_register()


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.get_solution_type")
def _(self):
    return self.list_problem[0].get_solution_type()


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "RobustProblem.get_objective_register")
def _(self):
    return self.list_problem[0].get_objective_register()


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "ParamsObjectiveFunction.__init__")
def _(self, objective_handling, objectives, weights, sense_function):
    self.objective_handling = objective_handling
    self.objectives = objectives
    self.weights = weights
    self.sense_function = sense_function


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "get_default_objective_setup")
def _(problem):
    register_objective = problem.get_objective_register()
    objs, weights = register_objective.get_list_objective_and_default_weight()
    sense = register_objective.objective_sense
    return ParamsObjectiveFunction(objective_handling=register_objective.objective_handling, objectives=objs, weights=weights, sense_function=sense)


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "build_aggreg_function_and_params_objective")
def _(problem, params_objective_function=None):
    if params_objective_function is None:
        params_objective_function = get_default_objective_setup(problem)
    eval_sol, eval_dict = build_evaluate_function_aggregated(problem=problem, params_objective_function=params_objective_function)
    return (eval_sol, eval_dict, params_objective_function)


@spec("builders/discrete_optimization/generic_tools/do_problem.py", "build_evaluate_function_aggregated")
def _(problem, params_objective_function=None):
    if params_objective_function is None:
        params_objective_function = get_default_objective_setup(problem)
    sense_problem = problem.get_objective_register().objective_sense
    sign = 1
    objectives = params_objective_function.objectives
    weights = params_objective_function.weights
    objective_handling = params_objective_function.objective_handling
    eval = None
    eval_from_dict_values = None
    if objective_handling == ObjectiveHandling.AGGREGATE:
        length = len(objectives)

        def eval(solution):
            dict_values = problem.evaluate(solution)
            val = sum([dict_values[objectives[i]] * weights[i] for i in range(length)])
            return sign * val

        def eval_from_dict_values(dict_values):
            val = sum([dict_values[objectives[i]] * weights[i] for i in range(length)])
            return sign * val
    if objective_handling == ObjectiveHandling.SINGLE:
        length = len(objectives)

        def eval(solution):
            dict_values = problem.evaluate(solution)
            return sign * dict_values[objectives[0]] * weights[0]

        def eval_from_dict_values(dict_values):
            return sign * dict_values[objectives[0]] * weights[0]
    if objective_handling == ObjectiveHandling.MULTI_OBJ:
        length = len(objectives)

        def eval(solution):
            d = problem.evaluate(solution)
            return TupleFitness(np.array([weights[i] * d[objectives[i]] for i in range(length)]), length) * sign

        def eval_from_dict_values(dict_values):
            return TupleFitness(np.array([weights[i] * dict_values[objectives[i]] for i in range(length)]), length) * sign
    return (eval, eval_from_dict_values)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.__init__")
def _(self, list_solution_fits, best_solution=None, mode_optim=ModeOptim.MAXIMIZATION, limit_store=True, nb_best_store=1000):
    self.list_solution_fits = list_solution_fits
    self.best_solution = best_solution
    self.mode_optim = mode_optim
    self.maximize = mode_optim == ModeOptim.MAXIMIZATION
    self.size_heap = 0
    self.heap = []
    self.limit_store = limit_store
    self.nb_best_score = nb_best_store
    self.map_solutions = {}
    for i in range(len(self.list_solution_fits)):
        if self.list_solution_fits[i][0] not in self.map_solutions:
            self.map_solutions[self.list_solution_fits[i][0]] = self.list_solution_fits[i][1]
            heappush(self.heap, self.list_solution_fits[i][1])
            self.size_heap += 1
    if self.size_heap >= self.nb_best_score and self.limit_store:
        self.heap = nsmallest(self.nb_best_score, self.heap) if not self.maximize else nlargest(self.nb_best_score, self.heap)
        heapify(self.heap)
        self.size_heap = self.nb_best_score
    if len(self.heap) > 0:
        self.min = min(self.heap)
        self.max = max(self.heap)
        if self.best_solution is None:
            f = min if not self.maximize else max
            self.best_solution = f(self.list_solution_fits, key=lambda x: x[1])[0]


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.add_solution")
def _(self, solution, fitness):
    if solution not in self.map_solutions:
        self.map_solutions[solution] = fitness
        self.list_solution_fits += [(solution, fitness)]
    if len(self.heap) == 0:
        self.min = fitness
        self.max = fitness
        if self.best_solution is None:
            self.best_solution = solution
    if self.maximize and fitness > self.max or (not self.maximize and fitness < self.min):
        self.best_solution = solution
    if self.maximize and fitness >= self.min or (not self.maximize and fitness <= self.max):
        if self.size_heap >= self.nb_best_score and self.limit_store:
            heappushpop(self.heap, fitness)
            self.min = min(fitness, self.min)
            self.max = max(fitness, self.max)
        else:
            heappush(self.heap, fitness)
            self.size_heap += 1
            self.min = min(fitness, self.min)
            self.max = max(fitness, self.max)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.finalize")
def _(self):
    self.heap = sorted(self.heap, reverse=self.maximize)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.get_best_solution_fit")
def _(self):
    f = max if self.maximize else min
    return f(self.list_solution_fits, key=lambda x: x[1])


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.get_last_best_solution")
def _(self):
    f = max if self.maximize else min
    best = f(self.list_solution_fits, key=lambda x: x[1])[1]
    sol = max([i for i in range(len(self.list_solution_fits)) if self.list_solution_fits[i][1] == best])
    return self.list_solution_fits[sol]


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.get_random_best_solution")
def _(self):
    f = max if self.maximize else min
    best = f(self.list_solution_fits, key=lambda x: x[1])[1]
    sol = random.choice([i for i in range(len(self.list_solution_fits)) if self.list_solution_fits[i][1] == best])
    return self.list_solution_fits[sol]


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.get_random_solution")
def _(self):
    s = [l for l in self.list_solution_fits if l[1] != self.get_best_solution_fit()[1]]
    if len(s) > 0:
        return random.choice(s)
    else:
        return random.choice(self.list_solution_fits)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.get_best_solution")
def _(self):
    f = max if self.maximize else min
    if len(self.list_solution_fits) == 0:
        return None
    return f(self.list_solution_fits, key=lambda x: x[1])[0]


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.get_n_best_solution")
def _(self, n_solutions):
    f = max if self.maximize else min
    n = min(n_solutions, len(self.list_solution_fits))


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ResultStorage.remove_duplicate_solutions")
def _(self, var_name):
    index_to_remove = []
    for i in range(len(self.list_solution_fits) - 1):
        sol1 = getattr(self.list_solution_fits[i][0], var_name)
        for j in range(i + 1, len(self.list_solution_fits)):
            sol2 = getattr(self.list_solution_fits[j][0], var_name)
            all_similar = True
            for k in range(len(sol1)):
                if sol1[k] != sol2[k]:
                    all_similar = False
                    break
            if all_similar:
                if j not in index_to_remove:
                    index_to_remove.append(j)
    self.list_solution_fits = [self.list_solution_fits[i] for i in range(len(self.list_solution_fits)) if i not in index_to_remove]


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "result_storage_to_pareto_front")
def _(result_storage, problem=None):
    list_solution_fitness = result_storage.list_solution_fits
    if problem is None:
        l = result_storage.list_solution_fits
    else:
        l = [(li[0], problem.evaluate_mobj(li[0])) for li in list_solution_fitness]
    pf = ParetoFront(list_solution_fits=l, best_solution=None, mode_optim=result_storage.mode_optim, limit_store=result_storage.limit_store, nb_best_store=result_storage.nb_best_score)
    pf.finalize()
    return pf


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ParetoFront.__init__")
def _(self, list_solution_fits, best_solution, mode_optim=ModeOptim.MAXIMIZATION, limit_store=True, nb_best_store=1000):
    super().__init__(list_solution_fits=list_solution_fits, best_solution=best_solution, mode_optim=mode_optim, limit_store=limit_store, nb_best_store=nb_best_store)
    self.paretos = []
    for s, t in list_solution_fits:
        self.add_solution(solution=s, fitness=t)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ParetoFront.add_solution")
def _(self, solution, fitness):
    super().add_solution(solution=solution, fitness=fitness)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ParetoFront.add_point")
def _(self, solution, tuple_fitness):
    if self.maximize:
        if all((tuple_fitness >= t[1] for t in self.paretos)):
            self.paretos += [(solution, tuple_fitness)]
            pp = []
            for p in self.paretos:
                if p[1] < tuple_fitness:
                    continue
                else:
                    pp += [p]
            self.paretos = pp
    if not self.maximize:
        if all((tuple_fitness <= t[1] for t in self.paretos)):
            self.paretos += [(solution, tuple_fitness)]
            pp = []
            for p in self.paretos:
                if p[1] > tuple_fitness:
                    continue
                else:
                    pp += [p]
            self.paretos = pp


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ParetoFront.len_pareto_front")
def _(self):
    return len(self.paretos)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ParetoFront.finalize")
def _(self):
    super().finalize()
    self.paretos = []
    for s, t in self.list_solution_fits:
        self.add_point(solution=s, tuple_fitness=t)


@spec("builders/discrete_optimization/generic_tools/result_storage/result_storage.py", "ParetoFront.compute_extreme_points")
def _(self):
    function_used = max if self.maximize else min
    number_fitness = self.list_solution_fits[0][1].size
    extreme_points = []
    for i in range(number_fitness):
        extr = function_used(self.paretos, key=lambda x: x[1].vector_fitness[i])
        extreme_points += [extr]
    return extreme_points


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__init__")
def _(self, vector_fitness, size):
    self.vector_fitness = vector_fitness
    self.size = size


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.distance")
def _(self, other):
    return np.linalg.norm(self.vector_fitness - other.vector_fitness, ord=2)


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__eq__")
def _(self, other):
    return not self < other and (not self > other)


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__le__")
def _(self, other):
    return self < other or self == other


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__ge__")
def _(self, other):
    return self > other or self == other


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__lt__")
def _(self, other):
    return (self.vector_fitness <= other.vector_fitness).all() and (self.vector_fitness < other.vector_fitness).any()


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__gt__")
def _(self, other):
    return (self.vector_fitness >= other.vector_fitness).all() and (self.vector_fitness > other.vector_fitness).any()


@spec("builders/discrete_optimization/generic_tools/result_storage/multiobj_utils.py", "TupleFitness.__mul__")
def _(self, other):
    return TupleFitness(other * self.vector_fitness, self.size)


@spec("builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py", "ResultComparator.__init__")
def _(self, list_result_storage, result_storage_names, objectives_str, objective_weights, test_problems=None):
    self.list_result_storage = list_result_storage
    self.result_storage_names = result_storage_names
    self.objectives_str = objectives_str
    self.objective_weights = objective_weights
    self.test_problems = test_problems
    self.reevaluated_results = {}
    if self.test_problems is not None:
        self.reevaluate_result_storages()


@spec("builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py", "ResultComparator.reevaluate_result_storages")
def _(self):
    for res in self.list_result_storage:
        self.reevaluated_results[self.list_result_storage.index(res)] = {}
        for obj in self.objectives_str:
            self.reevaluated_results[self.list_result_storage.index(res)][obj] = []
            for scenario in self.test_problems:
                res.get_best_solution().change_problem(scenario)
                val = scenario.evaluate(res.get_best_solution())[obj]
                self.reevaluated_results[self.list_result_storage.index(res)][obj].append(val)


@spec("builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py", "ResultComparator.get_best_by_objective_by_result_storage")
def _(self, objectif_str):
    obj_index = self.objectives_str.index(objectif_str)
    val = {}
    for i in range(len(self.list_result_storage)):
        fit_array = [self.list_result_storage[i].list_solution_fits[j][1].vector_fitness[obj_index] for j in range(len(self.list_result_storage[i].list_solution_fits))]
        if self.list_result_storage[i].maximize:
            best_fit = max(fit_array)
        else:
            best_fit = min(fit_array)
        best_index = fit_array.index(best_fit)
        best_sol = self.list_result_storage[i].list_solution_fits[best_index]
        val[self.result_storage_names[i]] = best_sol
    return val


@spec("builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py", "ResultComparator.generate_super_pareto")
def _(self):
    sols = []
    for rs in self.list_result_storage:
        for s in rs.list_solution_fits:
            sols.append(s)
    rs = ResultStorage(list_solution_fits=sols, best_solution=None, mode_optim=self.list_result_storage[0].mode_optim)
    pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
    return pareto_store


@spec("builders/discrete_optimization/generic_tools/ls/hill_climber.py", "HillClimber.__init__")
def _(self, evaluator, mutator, restart_handler, mode_mutation, params_objective_function=None, store_solution=False, nb_solutions=1000):
    self.evaluator = evaluator
    self.mutator = mutator
    self.restart_handler = restart_handler
    self.mode_mutation = mode_mutation
    self.params_objective_function = params_objective_function
    self.mode_optim = params_objective_function.sense_function
    self.aggreg_from_solution, self.aggreg_from_dict_values = build_evaluate_function_aggregated(evaluator, params_objective_function=self.params_objective_function)
    self.store_solution = store_solution
    self.nb_solutions = nb_solutions


@spec("builders/discrete_optimization/generic_tools/ls/hill_climber.py", "HillClimber.solve")
def _(self, initial_variable, nb_iteration_max, pickle_result=False, pickle_name='tsp'):
    objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
    cur_variable = initial_variable.copy()
    if self.store_solution:
        store = ResultStorage(list_solution_fits=[(initial_variable, objective)], best_solution=initial_variable.copy(), mode_optim=self.mode_optim, limit_store=True, nb_best_store=1000)
    else:
        store = ResultStorage(list_solution_fits=[(initial_variable, objective)], best_solution=initial_variable.copy(), mode_optim=self.mode_optim, limit_store=True, nb_best_store=1)
    cur_best_variable = initial_variable.copy()
    cur_objective = objective
    cur_best_objective = objective
    self.restart_handler.best_fitness = objective
    iteration = 0
    while iteration < nb_iteration_max:
        accept = False
        local_improvement = False
        global_improvement = False
        if self.mode_mutation == ModeMutation.MUTATE:
            nv, move = self.mutator.mutate(cur_variable)
            objective = self.aggreg_from_solution(nv)
        elif self.mode_mutation == ModeMutation.MUTATE_AND_EVALUATE:
            nv, move, objective = self.mutator.mutate_and_compute_obj(cur_variable)
            objective = self.aggreg_from_dict_values(objective)
        if self.mode_optim == ModeOptim.MINIMIZATION and objective < cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective < cur_best_objective
        elif self.mode_optim == ModeOptim.MAXIMIZATION and objective > cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective > cur_best_objective
        if self.store_solution:
            store.add_solution(nv.copy(), objective)
        if accept:
            cur_objective = objective
            cur_variable = nv
        else:
            cur_variable = move.backtrack_local_move(nv)
        if global_improvement:
            cur_best_objective = objective
            cur_best_variable = cur_variable.copy()
            if not self.store_solution:
                store.add_solution(cur_variable.copy(), objective)
        self.restart_handler.update(nv, objective, global_improvement, local_improvement)
        cur_variable, cur_objective = self.restart_handler.restart(cur_variable, cur_objective)
        iteration += 1
        if pickle_result and iteration % 20000 == 0:
            pickle.dump(cur_best_variable, open(pickle_name + '.pk', 'wb'))
    store.finalize()
    return store


@spec("builders/discrete_optimization/generic_tools/ls/hill_climber.py", "HillClimberPareto.__init__")
def _(self, evaluator, mutator, restart_handler, mode_mutation, params_objective_function=None, store_solution=False, nb_solutions=1000):
    super().__init__(evaluator=evaluator, mutator=mutator, restart_handler=restart_handler, mode_mutation=mode_mutation, params_objective_function=params_objective_function, store_solution=store_solution, nb_solutions=nb_solutions)


@spec("builders/discrete_optimization/generic_tools/ls/hill_climber.py", "HillClimberPareto.solve")
def _(self, initial_variable, nb_iteration_max, update_iteration_pareto=1000, pickle_result=False, pickle_name='tsp'):
    objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
    pareto_front = ParetoFront(list_solution_fits=[(initial_variable, objective)], best_solution=initial_variable.copy(), mode_optim=self.mode_optim, limit_store=True, nb_best_store=1000)
    cur_variable = initial_variable.copy()
    cur_best_variable = initial_variable.copy()
    cur_objective = objective
    cur_best_objective = objective
    self.restart_handler.best_fitness = objective
    iteration = 0
    while iteration < nb_iteration_max:
        accept = False
        local_improvement = False
        global_improvement = False
        if iteration % update_iteration_pareto == 0:
            pareto_front.finalize()
        if self.mode_mutation == ModeMutation.MUTATE:
            nv, move = self.mutator.mutate(cur_variable)
            objective = self.aggreg_from_solution(nv)
        elif self.mode_mutation == ModeMutation.MUTATE_AND_EVALUATE:
            nv, move, objective = self.mutator.mutate_and_compute_obj(cur_variable)
            objective = self.aggreg_from_dict_values(objective)
        if self.mode_optim == ModeOptim.MINIMIZATION and objective < cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective < cur_best_objective
            pareto_front.add_solution(nv.copy(), objective)
        elif self.mode_optim == ModeOptim.MINIMIZATION and objective == cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective == cur_best_objective
            pareto_front.add_solution(nv.copy(), objective)
        elif self.mode_optim == ModeOptim.MAXIMIZATION and objective > cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective > cur_best_objective
            pareto_front.add_solution(nv.copy(), objective)
        elif self.mode_optim == ModeOptim.MAXIMIZATION and objective == cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective == cur_best_objective
            pareto_front.add_solution(nv.copy(), objective)
        if accept:
            cur_objective = objective
            cur_variable = nv
        else:
            cur_variable = move.backtrack_local_move(nv)
        if global_improvement:
            cur_best_objective = objective
            cur_best_variable = cur_variable.copy()
        self.restart_handler.update(nv, objective, global_improvement, local_improvement)
        cur_variable, cur_objective = self.restart_handler.restart(cur_variable, cur_objective)
        iteration += 1
    pareto_front.finalize()
    return pareto_front


@spec("builders/discrete_optimization/generic_tools/ls/local_search.py", "RestartHandler.__init__")
def _(self):
    self.nb_iteration = 0
    self.nb_iteration_no_local_improve = 0
    self.nb_iteration_no_global_improve = 0


@spec("builders/discrete_optimization/generic_tools/ls/local_search.py", "RestartHandler.update")
def _(self, nv, fitness, improved_global, improved_local):
    self.nb_iteration += 1
    if improved_global:
        self.nb_iteration_no_global_improve = 0
        self.best_fitness = fitness
        self.solution_best = nv.copy()
    else:
        self.nb_iteration_no_global_improve += 1
    if improved_local:
        self.nb_iteration_no_local_improve = 0
    else:
        self.nb_iteration_no_local_improve += 1


@spec("builders/discrete_optimization/generic_tools/ls/local_search.py", "RestartHandler.restart")
def _(self, cur_solution, cur_objective):
    return (cur_solution, cur_objective)


@spec("builders/discrete_optimization/generic_tools/ls/local_search.py", "RestartHandlerLimit.__init__")
def _(self, nb_iteration_no_improvement, cur_solution, cur_objective):
    RestartHandler.__init__(self)
    self.nb_iteration_no_improvement = nb_iteration_no_improvement
    self.solution_best = cur_solution.copy()
    self.best_fitness = cur_objective


@spec("builders/discrete_optimization/generic_tools/ls/local_search.py", "RestartHandlerLimit.restart")
def _(self, cur_solution, cur_objective):
    if self.nb_iteration_no_global_improve > self.nb_iteration_no_improvement or self.nb_iteration_no_local_improve > self.nb_iteration_no_improvement:
        self.nb_iteration_no_global_improve = 0
        self.nb_iteration_no_local_improve = 0
        return (self.solution_best.copy(), self.best_fitness)
    else:
        return (cur_solution, cur_objective)


@spec("builders/discrete_optimization/generic_tools/ls/local_search.py", "ResultLS.__init__")
def _(self, result_storage, best_solution, best_objective):
    self.result_storage = result_storage
    self.list_solution_fits = result_storage.list_solution_fits
    self.maximize = result_storage.maximize
    self.limit_store = result_storage.limit_store
    self.nb_best_score = result_storage.nb_best_score
    self.map_solutions = result_storage.map_solutions
    self.heap = result_storage.heap
    self.min = result_storage.min
    self.max = result_storage.max
    self.best_solution = best_solution
    self.best_objective = best_objective


@spec("builders/discrete_optimization/generic_tools/ls/simulated_annealing.py", "SimulatedAnnealing.__init__")
def _(self, evaluator, mutator, restart_handler, temperature_handler, mode_mutation, params_objective_function=None, store_solution=False, nb_solutions=1000):
    self.evaluator = evaluator
    self.mutator = mutator
    self.restart_handler = restart_handler
    self.temperature_handler = temperature_handler
    self.mode_mutation = mode_mutation
    self.params_objective_function = params_objective_function
    self.aggreg_from_solution, self.aggreg_from_dict_values = build_evaluate_function_aggregated(evaluator, params_objective_function=params_objective_function)
    self.mode_optim = self.params_objective_function.sense_function
    self.store_solution = store_solution
    self.nb_solutions = nb_solutions


@spec("builders/discrete_optimization/generic_tools/ls/simulated_annealing.py", "SimulatedAnnealing.solve")
def _(self, initial_variable, nb_iteration_max, pickle_result=False, pickle_name='tsp'):
    objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
    cur_variable = initial_variable.copy()
    cur_best_variable = initial_variable.copy()
    cur_objective = objective
    cur_best_objective = objective
    if self.store_solution:
        store = ResultStorage(list_solution_fits=[(initial_variable, objective)], best_solution=initial_variable.copy(), mode_optim=self.mode_optim, limit_store=True, nb_best_store=1000)
    else:
        store = ResultStorage(list_solution_fits=[(initial_variable, objective)], best_solution=initial_variable.copy(), mode_optim=self.mode_optim, limit_store=True, nb_best_store=1)
    self.restart_handler.best_fitness = objective
    iteration = 0
    while iteration < nb_iteration_max:
        local_improvement = False
        global_improvement = False
        local_move_accepted = False
        if self.mode_mutation == ModeMutation.MUTATE:
            nv, move = self.mutator.mutate(cur_variable)
            objective = self.aggreg_from_dict_values(self.evaluator.evaluate(nv))
        elif self.mode_mutation == ModeMutation.MUTATE_AND_EVALUATE:
            nv, move, objective = self.mutator.mutate_and_compute_obj(cur_variable)
            objective = self.aggreg_from_dict_values(objective)
        if self.mode_optim == ModeOptim.MINIMIZATION and objective < cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective < cur_best_objective
        elif self.mode_optim == ModeOptim.MAXIMIZATION and objective > cur_objective:
            accept = True
            local_improvement = True
            global_improvement = objective > cur_best_objective
        else:
            r = random.random()
            fac = 1 if self.mode_optim == ModeOptim.MAXIMIZATION else -1
            p = math.exp(fac * (objective - cur_objective) / self.temperature_handler.temperature)
            accept = p > r
            local_move_accepted = accept
        if self.store_solution:
            store.add_solution(nv.copy(), objective)
        if accept:
            cur_objective = objective
            cur_variable = nv
        else:
            cur_variable = move.backtrack_local_move(nv)
        if global_improvement:
            cur_best_objective = objective
            cur_best_variable = cur_variable.copy()
            if not self.store_solution:
                store.add_solution(cur_variable.copy(), objective)
        self.temperature_handler.next_temperature()
        self.restart_handler.update(nv, objective, global_improvement, local_improvement)
        cur_variable, cur_objective = self.restart_handler.restart(cur_variable, cur_objective)
        iteration += 1
        if pickle_result and iteration % 20000 == 0:
            pickle.dump(cur_best_variable, open(pickle_name + '.pk', 'wb'))
    store.finalize()
    return store


@spec("builders/discrete_optimization/generic_tools/ls/simulated_annealing.py", "TemperatureSchedulingFactor.__init__")
def _(self, temperature, restart_handler, coefficient=0.99):
    self.temperature = temperature
    self.restart_handler = restart_handler
    self.coefficient = coefficient


@spec("builders/discrete_optimization/generic_tools/ls/simulated_annealing.py", "TemperatureSchedulingFactor.next_temperature")
def _(self):
    self.temperature *= self.coefficient
    return self.temperature


@spec("builders/discrete_optimization/generic_tools/lns_cp.py", "LNS_CP.__init__")
def _(self, problem, cp_solver, initial_solution_provider, constraint_handler, post_process_solution=None, params_objective_function=None):
    self.problem = problem
    self.cp_solver = cp_solver
    self.initial_solution_provider = initial_solution_provider
    self.constraint_handler = constraint_handler
    self.post_process_solution = post_process_solution
    if self.post_process_solution is None:
        self.post_process_solution = TrivialPostProcessSolution()
    self.params_objective_function = params_objective_function
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=self.params_objective_function)


@spec("builders/discrete_optimization/generic_tools/lns_cp.py", "LNS_CP.solve_lns")
def _(self, parameters_cp, nb_iteration_lns, nb_iteration_no_improvement=None, max_time_seconds=None, skip_first_iteration=False, **args):
    sense = self.params_objective_function.sense_function
    if max_time_seconds is None:
        max_time_seconds = 3600 * 24
    if nb_iteration_no_improvement is None:
        nb_iteration_no_improvement = 2 * nb_iteration_lns
    current_nb_iteration_no_improvement = 0
    deb_time = time.time()
    if not skip_first_iteration:
        store_lns = self.initial_solution_provider.get_starting_solution()
        init_solution, objective = store_lns.get_best_solution_fit()
        best_solution = init_solution.copy()
        satisfy = self.problem.satisfy(init_solution)
        best_objective = objective
    else:
        best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
        best_solution = None
        constraint_iterable = {'empty': []}
        store_lns = None
    for iteration in range(nb_iteration_lns):
        with self.cp_solver.instance.branch() as child:
            if iteration == 0 and (not skip_first_iteration) or iteration >= 1:
                constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(cp_solver=self.cp_solver, child_instance=child, result_storage=store_lns)
            try:
                if iteration == 0:
                    result = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit_iter0), intermediate_solutions=parameters_cp.intermediate_solution)
                else:
                    result = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit), intermediate_solutions=parameters_cp.intermediate_solution)
                result_store = self.cp_solver.retrieve_solutions(result, parameters_cp=parameters_cp)
                if len(result_store.list_solution_fits) > 0:
                    bsol, fit = result_store.get_best_solution_fit()
                    result_store = self.post_process_solution.build_other_solution(result_store)
                    bsol, fit = result_store.get_best_solution_fit()
                    if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:
                        if fit > best_objective:
                            current_nb_iteration_no_improvement = 0
                        else:
                            current_nb_iteration_no_improvement += 1
                        best_solution = bsol
                        best_objective = fit
                    elif sense == ModeOptim.MAXIMIZATION:
                        current_nb_iteration_no_improvement += 1
                    elif sense == ModeOptim.MINIMIZATION and fit <= best_objective:
                        if fit < best_objective:
                            current_nb_iteration_no_improvement = 0
                        else:
                            current_nb_iteration_no_improvement += 1
                        best_solution = bsol
                        best_objective = fit
                    elif sense == ModeOptim.MINIMIZATION:
                        current_nb_iteration_no_improvement += 1
                    if skip_first_iteration and iteration == 0:
                        store_lns = result_store
                    for s, f in result_store.list_solution_fits:
                        store_lns.add_solution(solution=s, fitness=f)
                else:
                    current_nb_iteration_no_improvement += 1
            except Exception as e:
                current_nb_iteration_no_improvement += 1
            if time.time() - deb_time > max_time_seconds:
                break
            if current_nb_iteration_no_improvement > nb_iteration_no_improvement:
                break
    return store_lns


@spec("builders/discrete_optimization/generic_tools/lns_mip.py", "TrivialPostProcessSolution.build_other_solution")
def _(self, result_storage):
    return result_storage


@spec("builders/discrete_optimization/generic_tools/lns_mip.py", "LNS_MILP.__init__")
def _(self, problem, milp_solver, initial_solution_provider, constraint_handler, post_process_solution=None, params_objective_function=None):
    self.problem = problem
    self.milp_solver = milp_solver
    self.initial_solution_provider = initial_solution_provider
    self.constraint_handler = constraint_handler
    self.post_process_solution = post_process_solution
    if self.post_process_solution is None:
        self.post_process_solution = TrivialPostProcessSolution()
    self.params_objective_function = params_objective_function
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=self.params_objective_function)


@spec("builders/discrete_optimization/generic_tools/lns_mip.py", "LNS_MILP.solve_lns")
def _(self, parameters_milp, nb_iteration_lns, nb_iteration_no_improvement=None, max_time_seconds=None, skip_first_iteration=False, **args):
    sense = self.params_objective_function.sense_function
    if max_time_seconds is None:
        max_time_seconds = 3600 * 24
    if nb_iteration_no_improvement is None:
        nb_iteration_no_improvement = 2 * nb_iteration_lns
    current_nb_iteration_no_improvement = 0
    deb_time = time.time()
    if not skip_first_iteration:
        store_lns = self.initial_solution_provider.get_starting_solution()
        init_solution, objective = store_lns.get_best_solution_fit()
        constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(milp_solver=self.milp_solver, result_storage=store_lns)
        best_solution = init_solution.copy()
        best_objective = objective
    else:
        best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
        best_solution = None
        constraint_iterable = {'empty': []}
        store_lns = None
    for iteration in range(nb_iteration_lns):
        result_store = self.milp_solver.solve(parameters_milp=parameters_milp, **args)
        bsol, fit = result_store.get_best_solution_fit()
        result_store = self.post_process_solution.build_other_solution(result_store)
        bsol, fit = result_store.get_best_solution_fit()
        if sense == ModeOptim.MAXIMIZATION and fit >= best_objective:
            if fit > best_objective:
                current_nb_iteration_no_improvement = 0
            else:
                current_nb_iteration_no_improvement += 1
            best_solution = bsol
            best_objective = fit
        if sense == ModeOptim.MINIMIZATION and fit <= best_objective:
            if fit < best_objective:
                current_nb_iteration_no_improvement = 0
            else:
                current_nb_iteration_no_improvement += 1
            best_solution = bsol
            best_objective = fit
        if skip_first_iteration and iteration == 0:
            store_lns = result_store
        for s, f in result_store.list_solution_fits:
            store_lns.add_solution(solution=s, fitness=f)
        self.constraint_handler.remove_constraints_from_previous_iteration(milp_solver=self.milp_solver, previous_constraints=constraint_iterable)
        constraint_iterable = self.constraint_handler.adding_constraint_from_results_store(milp_solver=self.milp_solver, result_storage=result_store)
        if time.time() - deb_time > max_time_seconds:
            break
        if current_nb_iteration_no_improvement > nb_iteration_no_improvement:
            break
    return store_lns


@spec("builders/discrete_optimization/generic_tools/ea/alternating_ga.py", "AlternatingGa.__init__")
def _(self, problem, encodings=None, mutations=None, crossovers=None, selections=None, objective_handling=None, objectives=None, objective_weights=None, pop_size=None, max_evals=None, sub_evals=None, mut_rate=None, crossover_rate=None, tournament_size=None, deap_verbose=None):
    self.problem = problem
    self.encodings = encodings
    self.mutations = mutations
    self.crossovers = crossovers
    self.selections = selections
    self.objective_handling = objective_handling
    self.objectives = objectives
    self.objective_weights = objective_weights
    self.pop_size = pop_size
    self.max_evals = max_evals
    self.sub_evals = sub_evals
    self.mut_rate = mut_rate
    self.crossover_rate = crossover_rate
    self.tournament_size = tournament_size
    self.deap_verbose = deap_verbose
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=None)


@spec("builders/discrete_optimization/generic_tools/ea/alternating_ga.py", "AlternatingGa.solve")
def _(self, **kwargs):
    count_evals = 0
    current_encoding_index = 0
    for i in range(len(self.encodings)):
        self.problem.set_fixed_attributes(self.encodings[i], self.problem.get_dummy_solution())
    while count_evals < self.max_evals:
        ga_solver = Ga(problem=self.problem, encoding=self.encodings[current_encoding_index], objective_handling=self.objective_handling, objectives=self.objectives, objective_weights=self.objective_weights, mutation=self.mutations[current_encoding_index], max_evals=self.sub_evals[current_encoding_index])
        tmp_sol = ga_solver.solve().get_best_solution()
        count_evals += self.sub_evals[current_encoding_index]
        self.problem.set_fixed_attributes(self.encodings[current_encoding_index], tmp_sol)
        current_encoding_index = (current_encoding_index + 1) % len(self.encodings)
    problem_sol = tmp_sol
    result_storage = ResultStorage(list_solution_fits=[(problem_sol, self.aggreg_from_sol(problem_sol))], best_solution=problem_sol, mode_optim=self.params_objective_function.sense_function)
    return result_storage


@spec("builders/discrete_optimization/generic_tools/ea/ga.py", "Ga.evaluate_problem")
def _(self, int_vector):
    objective_values = self.problem.evaluate_from_encoding(int_vector, self._encoding_variable_name)
    if self._objective_handling == ObjectiveHandling.SINGLE:
        if self._objectives is None or self._objectives[0] not in list(objective_values.keys()):
            default_key = list(objective_values.keys())[0]
            val = self._objectives[0] * objective_values[default_key]
        else:
            val = objective_values[self._objectives[0]]
    elif self._objective_handling == 'aggregate':
        val = sum([objective_values[self._objectives[i]] * self._objective_weights[i] for i in range(len(self._objectives))])
    elif self._objective_handling == ObjectiveHandling.AGGREGATE:
        val = sum([objective_values[self._objectives[i]] * self._objective_weights[i] for i in range(len(self._objectives))])
    return (val,)


@spec("builders/discrete_optimization/generic_tools/ea/ga.py", "Ga.solve")
def _(self, **kwargs):
    population = self._toolbox.population()
    fits = self._toolbox.map(self._toolbox.evaluate, population)
    for fit, ind in zip(fits, population):
        ind.fitness.values = fit
    hof = tools.HallOfFame(1)
    stats = tools.Statistics(lambda ind: ind.fitness.values)
    stats.register('avg', np.mean)
    stats.register('std', np.std)
    stats.register('min', np.min)
    stats.register('max', np.max)
    pop_vector, logbook = algorithms.eaSimple(population=population, toolbox=self._toolbox, cxpb=self._crossover_rate, mutpb=self._mut_rate, ngen=int(self._max_evals / self._pop_size), stats=stats, halloffame=hof, verbose=self._deap_verbose)
    best_vector = hof[0]
    s_pure_int = [i for i in best_vector]
    kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
    problem_sol = self.problem.get_solution_type()(**kwargs)
    result_storage = ResultStorage(list_solution_fits=[(problem_sol, self.aggreg_from_sol(problem_sol))], best_solution=problem_sol, mode_optim=self.params_objective_function.sense_function)
    return result_storage


@spec("builders/discrete_optimization/generic_tools/ea/nsga.py", "Nsga.evaluate_problem")
def _(self, int_vector):
    objective_values = self.problem.evaluate_from_encoding(int_vector, self._encoding_variable_name)
    val = tuple([objective_values[obj_name] for obj_name in self._objectives])
    return val


@spec("builders/discrete_optimization/generic_tools/ea/nsga.py", "Nsga.solve")
def _(self, **kwargs):
    stats = tools.Statistics(lambda ind: ind.fitness.values)
    stats.register('avg', np.mean, axis=0)
    stats.register('std', np.std, axis=0)
    stats.register('min', np.min, axis=0)
    stats.register('max', np.max, axis=0)
    logbook = tools.Logbook()
    logbook.header = ('gen', 'evals', 'std', 'min', 'avg', 'max')
    pop = self._toolbox.population()
    invalid_ind = [ind for ind in pop if not ind.fitness.valid]
    fitnesses = self._toolbox.map(self._toolbox.evaluate, invalid_ind)
    for ind, fit in zip(invalid_ind, fitnesses):
        ind.fitness.values = fit
    record = stats.compile(pop)
    logbook.record(gen=0, evals=len(invalid_ind), **record)
    ngen = int(self._max_evals / self._pop_size)
    for gen in range(1, ngen):
        offspring = algorithms.varAnd(pop, self._toolbox, self._crossover_rate, self._mut_rate)
        invalid_ind = [ind for ind in offspring if not ind.fitness.valid]
        fitnesses = self._toolbox.map(self._toolbox.evaluate, invalid_ind)
        for ind, fit in zip(invalid_ind, fitnesses):
            ind.fitness.values = fit
        pop = self._toolbox.select(pop + offspring, self._pop_size)
        record = stats.compile(pop)
        logbook.record(gen=gen, evals=len(invalid_ind), **record)
    sols = []
    for s in pop:
        s_pure_int = [i for i in s]
        kwargs = {self._encoding_variable_name: s_pure_int, 'problem': self.problem}
        problem_sol = self.problem.get_solution_type()(**kwargs)
        fits = self.evaluate_sol(problem_sol)
        sols.append((problem_sol, fits))
    rs = ResultStorage(list_solution_fits=sols, best_solution=None, mode_optim=self.params_objective_function.sense_function)
    return rs


@spec("builders/discrete_optimization/generic_tools/ea/ga_tools.py", "ParametersGa.__init__")
def _(self, mutation, crossover, selection, encoding, objective_handling, objectives, objective_weights, pop_size, max_evals, mut_rate, crossover_rate, tournament_size, deap_verbose):
    self.mutation = mutation
    self.crossover = crossover
    self.selection = selection
    self.encoding = encoding
    self.objective_handling = objective_handling
    self.objectives = objectives
    self.objective_weights = objective_weights
    self.pop_size = pop_size
    self.max_evals = max_evals
    self.mut_rate = mut_rate
    self.crossover_rate = crossover_rate
    self.tournament_size = tournament_size
    self.deap_verbose = deap_verbose


@spec("builders/discrete_optimization/generic_tools/ea/ga_tools.py", "ParametersGa.default_rcpsp")
def _():
    return ParametersGa(mutation=DeapMutation.MUT_SHUFFLE_INDEXES, crossover=DeapCrossover.CX_PARTIALY_MATCHED, selection=DeapSelection.SEL_TOURNAMENT, encoding='rcpsp_permutation', objective_handling=ObjectiveHandling.AGGREGATE, objectives=['makespan'], objective_weights=[-1], pop_size=100, max_evals=10000, mut_rate=0.1, crossover_rate=0.9, tournament_size=5, deap_verbose=False)


@spec("builders/discrete_optimization/generic_tools/ea/ga_tools.py", "ParametersAltGa.__init__")
def _(self, mutations, crossovers, selection, encodings, objective_handling, objectives, objective_weights, pop_size, max_evals, mut_rate, crossover_rate, tournament_size, deap_verbose, sub_evals):
    self.mutations = mutations
    self.crossovers = crossovers
    self.selection = selection
    self.encodings = encodings
    self.objective_handling = objective_handling
    self.objectives = objectives
    self.objective_weights = objective_weights
    self.pop_size = pop_size
    self.max_evals = max_evals
    self.mut_rate = mut_rate
    self.crossover_rate = crossover_rate
    self.tournament_size = tournament_size
    self.deap_verbose = deap_verbose
    self.sub_evals = sub_evals


@spec("builders/discrete_optimization/generic_tools/ea/ga_tools.py", "ParametersAltGa.default_mrcpsp")
def _():
    return ParametersAltGa(mutations=[DeapMutation.MUT_UNIFORM_INT, DeapMutation.MUT_SHUFFLE_INDEXES], crossovers=[DeapCrossover.CX_ONE_POINT, DeapCrossover.CX_PARTIALY_MATCHED], selection=DeapSelection.SEL_TOURNAMENT, encodings=['rcpsp_modes_arrity_fix', 'rcpsp_permutation'], objective_handling=ObjectiveHandling.AGGREGATE, objectives=['makespan'], objective_weights=[-1], pop_size=100, max_evals=10000, mut_rate=0.1, crossover_rate=0.9, tournament_size=5, deap_verbose=False, sub_evals=[1000, 1000])


@spec("builders/discrete_optimization/generic_tools/ea/ga_tools.py", "ParametersAltGa.default_msrcpsp")
def _():
    return ParametersAltGa(mutations=[DeapMutation.MUT_UNIFORM_INT, DeapMutation.MUT_SHUFFLE_INDEXES, DeapMutation.MUT_SHUFFLE_INDEXES], crossovers=[DeapCrossover.CX_ONE_POINT, DeapCrossover.CX_PARTIALY_MATCHED, DeapCrossover.CX_PARTIALY_MATCHED], selection=DeapSelection.SEL_TOURNAMENT, encodings=['modes_arrity_fix_from_0', 'priority_list_task', 'priority_worker_per_task_perm'], objective_handling=ObjectiveHandling.AGGREGATE, objectives=['makespan'], objective_weights=[-1], pop_size=100, max_evals=10000, mut_rate=0.1, crossover_rate=0.9, tournament_size=5, deap_verbose=False, sub_evals=[500, 500, 500])


@spec("builders/discrete_optimization/generic_tools/ea/deap_wrappers.py", "generic_mutate_wrapper")
def _(individual, problem, encoding_name, indpb, solution_fn, custom_mutation):
    kwargs = {encoding_name: individual, 'problem': problem}
    custom_sol = solution_fn(**kwargs)
    new_custom_sol = custom_mutation.mutate(custom_sol)[0]
    new_individual = individual
    tmp_vector = getattr(new_custom_sol, encoding_name)
    for i in range(len(tmp_vector)):
        new_individual[i] = tmp_vector[i]
    return (new_individual,)


@spec("builders/discrete_optimization/generic_tools/cp_tools.py", "ParametersCP.__init__")
def _(self, time_limit, pool_solutions, intermediate_solution, all_solutions, nr_solutions):
    self.TimeLimit = time_limit
    self.TimeLimit_iter0 = time_limit
    self.PoolSolutions = pool_solutions
    self.intermediate_solution = intermediate_solution
    self.all_solutions = all_solutions
    self.nr_solutions = nr_solutions


@spec("builders/discrete_optimization/generic_tools/cp_tools.py", "ParametersCP.default")
def _():
    return ParametersCP(time_limit=30, pool_solutions=10000, intermediate_solution=True, all_solutions=False, nr_solutions=1000)


@spec("builders/discrete_optimization/generic_tools/lp_tools.py", "ParametersMilp.__init__")
def _(self, time_limit, pool_solutions, mip_gap_abs, mip_gap, retrieve_all_solution, n_solutions_max, pool_search_mode=0):
    self.TimeLimit = time_limit
    self.PoolSolutions = pool_solutions
    self.MIPGapAbs = mip_gap_abs
    self.MIPGap = mip_gap
    self.retrieve_all_solution = retrieve_all_solution
    self.n_solutions_max = n_solutions_max
    self.pool_search_mode = pool_search_mode


@spec("builders/discrete_optimization/generic_tools/lp_tools.py", "ParametersMilp.default")
def _():
    return ParametersMilp(time_limit=30, pool_solutions=10000, mip_gap_abs=1e-07, mip_gap=1e-06, retrieve_all_solution=True, n_solutions_max=10000)


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.__init__")
def _(self, nodes, edges, undirected=True):
    self.nodes = nodes
    self.edges = edges
    self.undirected = undirected
    self.neighbors_dict = {}
    self.predecessors_dict = {}
    self.edges_infos_dict = {}
    self.nodes_infos_dict = {}
    self.build_nodes_infos_dict()
    self.build_edges()
    self.nodes_name = sorted(self.nodes_infos_dict)
    self.graph_nx = self.to_networkx()


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.get_edges")
def _(self):
    return self.edges_infos_dict.keys()


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.get_nodes")
def _(self):
    return self.nodes_name


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.build_nodes_infos_dict")
def _(self):
    for n, d in self.nodes:
        self.nodes_infos_dict[n] = d


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.build_edges")
def _(self):
    for n1, n2, d in self.edges:
        self.edges_infos_dict[n1, n2] = d
        if n2 not in self.predecessors_dict:
            self.predecessors_dict[n2] = set()
        if n1 not in self.neighbors_dict:
            self.neighbors_dict[n1] = set()
        self.predecessors_dict[n2].add(n1)
        self.neighbors_dict[n1].add(n2)
        if self.undirected:
            if n1 not in self.predecessors_dict:
                self.predecessors_dict[n1] = set()
            if n2 not in self.neighbors_dict:
                self.neighbors_dict[n2] = set()
            self.predecessors_dict[n1].add(n2)
            self.neighbors_dict[n2].add(n1)
            self.edges_infos_dict[n2, n1] = d


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.get_neighbors")
def _(self, node):
    return self.neighbors_dict.get(node, [])


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.get_predecessors")
def _(self, node):
    return self.predecessors_dict.get(node, [])


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.get_attr_node")
def _(self, node, attr):
    return self.nodes_infos_dict.get(node, {}).get(attr, None)


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.get_attr_edge")
def _(self, node1, node2, attr):
    return self.edges_infos_dict.get((node1, node2), {}).get(attr, None)


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.to_networkx")
def _(self):
    graph_nx = nx.DiGraph() if not self.undirected else nx.Graph()
    graph_nx.add_nodes_from(self.nodes)
    graph_nx.add_edges_from(self.edges)
    return graph_nx


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.check_loop")
def _(self):
    try:
        cycles = nx.find_cycle(self.graph_nx, orientation='original')
    except:
        cycles = None
    return cycles


@spec("builders/discrete_optimization/generic_tools/graph_api.py", "Graph.precedessors_nodes")
def _(self, n):
    return nx.algorithms.ancestors(self.graph_nx, n)


@spec("builders/discrete_optimization/generic_tools/path_tools.py", "get_directory")
def _(file):
    return os.path.dirname(file)


@spec("builders/discrete_optimization/generic_tools/path_tools.py", "abspath_from_file")
def _(file, relative_path):
    return os.path.join(os.path.dirname(os.path.abspath(file)), relative_path)


@spec("builders/discrete_optimization/generic_tools/policy_sk.py", "LookUpPolicy.__init__")
def _(self, policy_dict):
    self.policy_dict = policy_dict


@spec("builders/discrete_optimization/generic_tools/policy_sk.py", "LookUpPolicy._get_next_action")
def _(self, observation):
    return self.policy_dict.get(observation, None)


@spec("builders/discrete_optimization/generic_tools/policy_sk.py", "LookUpPolicy._is_policy_defined_for")
def _(self, observation):
    return observation in self.policy_dict
@spec("builders/discrete_optimization/generic_tools/ea/ga.py", "Ga.__init__")
def _(self, problem, mutation=None, crossover=None, selection=None, encoding=None, objective_handling=None, objectives=None, objective_weights=None, pop_size=None, max_evals=None, mut_rate=None, crossover_rate=None, tournament_size=None, deap_verbose=None):
    self._default_crossovers = {TypeAttribute.LIST_BOOLEAN: DeapCrossover.CX_UNIFORM, TypeAttribute.LIST_INTEGER: DeapCrossover.CX_ONE_POINT, TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapCrossover.CX_ONE_POINT, TypeAttribute.PERMUTATION: DeapCrossover.CX_UNIFORM_PARTIALY_MATCHED}
    self._default_mutations = {TypeAttribute.LIST_BOOLEAN: DeapMutation.MUT_FLIP_BIT, TypeAttribute.LIST_INTEGER: DeapMutation.MUT_UNIFORM_INT, TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapMutation.MUT_UNIFORM_INT, TypeAttribute.PERMUTATION: DeapMutation.MUT_SHUFFLE_INDEXES}
    self._default_selection = DeapSelection.SEL_TOURNAMENT
    self.problem = problem
    if pop_size is not None:
        self._pop_size = pop_size
    else:
        self._pop_size = 100
    if max_evals is not None:
        self._max_evals = max_evals
    else:
        self._max_evals = 100 * self._pop_size
    if mut_rate is not None:
        self._mut_rate = mut_rate
    else:
        self._mut_rate = 0.1
    if crossover_rate is not None:
        self._crossover_rate = crossover_rate
    else:
        self._crossover_rate = 0.9
    self.problem = problem
    if tournament_size is not None:
        self._tournament_size = tournament_size
    else:
        self._tournament_size = 0.2
    if deap_verbose is not None:
        self._deap_verbose = deap_verbose
    else:
        self._deap_verbose = True
    register_solution = problem.get_attribute_register()
    self._encoding_name = None
    self._encoding_variable_name = None
    if encoding is not None and isinstance(encoding, str):
        if encoding in register_solution.dict_attribute_to_type.keys():
            self._encoding_name = encoding
            self._encoding_variable_name = register_solution.dict_attribute_to_type[self._encoding_name]['name']
            self._encoding_type = register_solution.dict_attribute_to_type[self._encoding_name]['type'][0]
            self.n = register_solution.dict_attribute_to_type[self._encoding_name]['n']
            if self._encoding_type == TypeAttribute.LIST_INTEGER:
                self.arrity = register_solution.dict_attribute_to_type[self._encoding_name]['arrity']
                self.arrities = [self.arrity for i in range(self.n)]
            else:
                self.arrity = None
            if self._encoding_type == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY:
                self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
    if encoding is not None and isinstance(encoding, Dict):
        if 'name' in encoding.keys() and 'type' in encoding.keys() and ('n' in encoding.keys()):
            self._encoding_name = 'custom'
            self._encoding_variable_name = encoding['name']
            self._encoding_type = encoding['type'][0]
            self.n = encoding['n']
            if 'arrity' in encoding.keys():
                self.arrity = encoding['arrity']
                self.arrities = [self.arrity for i in range(self.n)]
            if 'arrities' in encoding.keys():
                self.arrities = encoding['arrities']
    if self._encoding_name is None:
        if len(register_solution.dict_attribute_to_type.keys()) == 0:
            raise Exception('An encoding of type TypeAttribute should be specified or at least 1 TypeAttribute should be defined in the RegisterSolution of your Problem')
        self._encoding_name = list(register_solution.dict_attribute_to_type.keys())[0]
        self._encoding_variable_name = register_solution.dict_attribute_to_type[self._encoding_name]['name']
        self._encoding_type = register_solution.dict_attribute_to_type[self._encoding_name]['type'][0]
        self.n = register_solution.dict_attribute_to_type[self._encoding_name]['n']
        if self._encoding_type == TypeAttribute.LIST_INTEGER:
            self.arrity = register_solution.dict_attribute_to_type[self._encoding_name]['arrity']
            self.arrities = [self.arrity for i in range(self.n)]
        else:
            self.arrity = None
        if self._encoding_type == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY:
            self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
    if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
        self.arrity = 2
        self.arrities = [2 for i in range(self.n)]
    if objective_handling is None:
        self._objective_handling = ObjectiveHandling.SINGLE
    else:
        self._objective_handling = objective_handling
    self._objectives = objectives
    if (isinstance(self._objectives, List) and len(self._objectives) > 1) and self._objective_handling == ObjectiveHandling.SINGLE:
        pass
    self._objective_weights = objective_weights
    if self._objective_weights is None or (self._objective_weights is not None and (len(self._objective_weights) != len(self._objectives) and self._objective_handling == ObjectiveHandling.AGGREGATE)):
        self._objective_weights = [1 for i in range(len(self._objectives))]
    if selection is None:
        self._selection_type = self._default_selection
    else:
        self._selection_type = selection
    self._toolbox = base.Toolbox()
    creator.create('fitness', base.Fitness, weights=(1.0,))
    creator.create('individual', list, fitness=creator.fitness)
    if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
        self._toolbox.register('bit', random.randint, 0, 1)
        self._toolbox.register('individual', tools.initRepeat, creator.individual, self._toolbox.bit, n=self.n)
    elif self._encoding_type == TypeAttribute.PERMUTATION:
        self._toolbox.register('permutation_indices', random.sample, range(self.n), self.n)
        self._toolbox.register('individual', tools.initIterate, creator.individual, self._toolbox.permutation_indices)
    elif self._encoding_type == TypeAttribute.LIST_INTEGER:
        self._toolbox.register('int_val', random.randint, 0, self.arrity - 1)
        self._toolbox.register('individual', tools.initRepeat, creator.individual, self._toolbox.int_val, n=self.n)
    elif self._encoding_type == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY:
        gen_idx = lambda: [random.randint(0, arrity - 1) for arrity in self.arrities]
        self._toolbox.register('individual', tools.initIterate, creator.individual, gen_idx)
    self._toolbox.register('population', tools.initRepeat, list, self._toolbox.individual, n=self._pop_size)
    self._toolbox.register('evaluate', self.evaluate_problem)
    if crossover is None:
        self._crossover = self._default_crossovers[self._encoding_type]
    else:
        self._crossover = crossover
    if self._crossover == DeapCrossover.CX_UNIFORM:
        self._toolbox.register('mate', tools.cxUniform, indpb=self._crossover_rate)
    elif self._crossover == DeapCrossover.CX_ONE_POINT:
        self._toolbox.register('mate', tools.cxOnePoint)
    elif self._crossover == DeapCrossover.CX_TWO_POINT:
        self._toolbox.register('mate', tools.cxTwoPoint)
    elif self._crossover == DeapCrossover.CX_UNIFORM_PARTIALY_MATCHED:
        self._toolbox.register('mate', tools.cxUniformPartialyMatched, indpb=0.5)
    elif self._crossover == DeapCrossover.CX_ORDERED:
        self._toolbox.register('mate', tools.cxOrdered)
    elif self._crossover == DeapCrossover.CX_PARTIALY_MATCHED:
        self._toolbox.register('mate', tools.cxPartialyMatched)
    if mutation is None:
        self._mutation = self._default_mutations[self._encoding_type]
    else:
        self._mutation = mutation
    if isinstance(self._mutation, Mutation):
        self._toolbox.register('mutate', generic_mutate_wrapper, problem=self.problem, encoding_name=self._encoding_variable_name, indpb=self._mut_rate, solution_fn=self.problem.get_solution_type(), custom_mutation=mutation)
    elif isinstance(self._mutation, DeapMutation):
        if self._mutation == DeapMutation.MUT_FLIP_BIT:
            self._toolbox.register('mutate', tools.mutFlipBit, indpb=self._mut_rate)
        elif self._mutation == DeapMutation.MUT_SHUFFLE_INDEXES:
            self._toolbox.register('mutate', tools.mutShuffleIndexes, indpb=self._mut_rate)
        elif self._mutation == DeapMutation.MUT_UNIFORM_INT:
            self._toolbox.register('mutate', tools.mutUniformInt, low=0, up=[arrity - 1 for arrity in self.arrities], indpb=self._mut_rate)
    if self._selection_type == DeapSelection.SEL_TOURNAMENT:
        self._toolbox.register('select', tools.selTournament, tournsize=int(self._tournament_size * self._pop_size))
    elif self._selection_type == DeapSelection.SEL_RANDOM:
        self._toolbox.register('select', tools.selRandom)
    elif self._selection_type == DeapSelection.SEL_BEST:
        self._toolbox.register('select', tools.selBest)
    elif self._selection_type == DeapSelection.SEL_ROULETTE:
        self._toolbox.register('select', tools.selRoulette)
    elif self._selection_type == DeapSelection.SEL_WORST:
        self._toolbox.register('select', tools.selWorst)
    elif self._selection_type == DeapSelection.SEL_STOCHASTIC_UNIVERSAL_SAMPLING:
        self._toolbox.register('select', tools.selStochasticUniversalSampling)
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=None)


@spec("builders/discrete_optimization/generic_tools/ea/nsga.py", "Nsga.__init__")
def _(self, problem, mutation=None, crossover=None, selection=None, encoding=None, objectives=None, objective_weights=None, pop_size=None, max_evals=None, mut_rate=None, crossover_rate=None, deap_verbose=None):
    self._default_crossovers = {TypeAttribute.LIST_BOOLEAN: DeapCrossover.CX_UNIFORM, TypeAttribute.LIST_INTEGER: DeapCrossover.CX_ONE_POINT, TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapCrossover.CX_ONE_POINT, TypeAttribute.PERMUTATION: DeapCrossover.CX_UNIFORM_PARTIALY_MATCHED}
    self._default_mutations = {TypeAttribute.LIST_BOOLEAN: DeapMutation.MUT_FLIP_BIT, TypeAttribute.LIST_INTEGER: DeapMutation.MUT_UNIFORM_INT, TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY: DeapMutation.MUT_UNIFORM_INT, TypeAttribute.PERMUTATION: DeapMutation.MUT_SHUFFLE_INDEXES}
    self._default_selection = DeapSelection.SEL_TOURNAMENT
    self.params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ, objectives=objectives, weights=objective_weights, sense_function=ModeOptim.MAXIMIZATION)
    self.evaluate_sol, _ = build_evaluate_function_aggregated(problem=problem, params_objective_function=self.params_objective_function)
    self.problem = problem
    if pop_size is not None:
        self._pop_size = pop_size
    else:
        self._pop_size = 100
    if max_evals is not None:
        self._max_evals = max_evals
    else:
        self._max_evals = 100 * self._pop_size
    if mut_rate is not None:
        self._mut_rate = mut_rate
    else:
        self._mut_rate = 0.1
    if crossover_rate is not None:
        self._crossover_rate = crossover_rate
    else:
        self._crossover_rate = 0.9
    self.problem = problem
    if deap_verbose is not None:
        self._deap_verbose = deap_verbose
    else:
        self._deap_verbose = True
    register_solution = problem.get_attribute_register()
    self._encoding_name = None
    self._encoding_variable_name = None
    if encoding is not None and isinstance(encoding, str):
        if encoding in register_solution.dict_attribute_to_type.keys():
            self._encoding_name = encoding
            self._encoding_variable_name = register_solution.dict_attribute_to_type[self._encoding_name]['name']
            self._encoding_type = register_solution.dict_attribute_to_type[self._encoding_name]['type'][0]
            self.n = register_solution.dict_attribute_to_type[self._encoding_name]['n']
            if self._encoding_type == TypeAttribute.LIST_INTEGER:
                self.arrity = register_solution.dict_attribute_to_type[self._encoding_name]['arrity']
                self.arrities = [self.arrity for i in range(self.n)]
            else:
                self.arrity = None
            if self._encoding_type == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY:
                self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
    if encoding is not None and isinstance(encoding, Dict):
        if 'name' in encoding.keys() and 'type' in encoding.keys() and ('n' in encoding.keys()):
            self._encoding_name = 'custom'
            self._encoding_variable_name = encoding['name']
            self._encoding_type = encoding['type'][0]
            self.n = encoding['n']
            if 'arrity' in encoding.keys():
                self.arrity = encoding['arrity']
                self.arrities = [self.arrity for i in range(self.n)]
            if 'arrities' in encoding.keys():
                self.arrities = encoding['arrities']
    if self._encoding_name is None:
        if len(register_solution.dict_attribute_to_type.keys()) == 0:
            raise Exception('An encoding of type TypeAttribute should be specified or at least 1 TypeAttribute should be defined in the RegisterSolution of your Problem')
        self._encoding_name = list(register_solution.dict_attribute_to_type.keys())[0]
        self._encoding_variable_name = register_solution.dict_attribute_to_type[self._encoding_name]['name']
        self._encoding_type = register_solution.dict_attribute_to_type[self._encoding_name]['type'][0]
        self.n = register_solution.dict_attribute_to_type[self._encoding_name]['n']
        if self._encoding_type == TypeAttribute.LIST_INTEGER:
            self.arrity = register_solution.dict_attribute_to_type[self._encoding_name]['arrity']
            self.arrities = [self.arrity for i in range(self.n)]
        else:
            self.arrity = None
        if self._encoding_type == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY:
            self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
    if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
        self.arrity = 2
        self.arrities = [2 for i in range(self.n)]
    self._objectives = objectives
    self._objective_weights = objective_weights
    if self._objective_weights is None or (self._objective_weights is not None and len(self._objective_weights) != len(self._objectives)):
        self._objective_weights = [1 for i in range(len(self._objectives))]
    if selection is None:
        self._selection_type = self._default_selection
    else:
        self._selection_type = selection
    nobj = len(self._objectives)
    ref_points = tools.uniform_reference_points(nobj=nobj)
    self._toolbox = base.Toolbox()
    creator.create('fitness', base.Fitness, weights=tuple(self._objective_weights))
    creator.create('individual', list, fitness=creator.fitness)
    if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
        self._toolbox.register('bit', random.randint, 0, 1)
        self._toolbox.register('individual', tools.initRepeat, creator.individual, self._toolbox.bit, n=self.n)
    elif self._encoding_type == TypeAttribute.PERMUTATION:
        self._toolbox.register('permutation_indices', random.sample, range(self.n), self.n)
        self._toolbox.register('individual', tools.initIterate, creator.individual, self._toolbox.permutation_indices)
    elif self._encoding_type == TypeAttribute.LIST_INTEGER:
        self._toolbox.register('int_val', random.randint, 0, self.arrity - 1)
        self._toolbox.register('individual', tools.initRepeat, creator.individual, self._toolbox.int_val, n=self.n)
    elif self._encoding_type == TypeAttribute.LIST_INTEGER_SPECIFIC_ARRITY:
        gen_idx = lambda: [random.randint(0, arrity - 1) for arrity in self.arrities]
        self._toolbox.register('individual', tools.initIterate, creator.individual, gen_idx)
    self._toolbox.register('population', tools.initRepeat, list, self._toolbox.individual, n=self._pop_size)
    self._toolbox.register('evaluate', self.evaluate_problem)
    if crossover is None:
        self._crossover = self._default_crossovers[self._encoding_type]
    else:
        self._crossover = crossover
    if self._crossover == DeapCrossover.CX_UNIFORM:
        self._toolbox.register('mate', tools.cxUniform, indpb=self._crossover_rate)
    elif self._crossover == DeapCrossover.CX_ONE_POINT:
        self._toolbox.register('mate', tools.cxOnePoint)
    elif self._crossover == DeapCrossover.CX_TWO_POINT:
        self._toolbox.register('mate', tools.cxTwoPoint)
    elif self._crossover == DeapCrossover.CX_UNIFORM_PARTIALY_MATCHED:
        self._toolbox.register('mate', tools.cxUniformPartialyMatched, indpb=0.5)
    elif self._crossover == DeapCrossover.CX_ORDERED:
        self._toolbox.register('mate', tools.cxOrdered)
    elif self._crossover == DeapCrossover.CX_PARTIALY_MATCHED:
        self._toolbox.register('mate', tools.cxPartialyMatched)
    if mutation is None:
        self._mutation = self._default_mutations[self._encoding_type]
    else:
        self._mutation = mutation
    if isinstance(self._mutation, Mutation):
        self._toolbox.register('mutate', generic_mutate_wrapper, problem=self.problem, encoding_name=self._encoding_variable_name, indpb=self._mut_rate, solution_fn=self.problem.get_solution_type(), custom_mutation=mutation)
    elif isinstance(self._mutation, DeapMutation):
        if self._mutation == DeapMutation.MUT_FLIP_BIT:
            self._toolbox.register('mutate', tools.mutFlipBit, indpb=self._mut_rate)
        elif self._mutation == DeapMutation.MUT_SHUFFLE_INDEXES:
            self._toolbox.register('mutate', tools.mutShuffleIndexes, indpb=self._mut_rate)
        elif self._mutation == DeapMutation.MUT_UNIFORM_INT:
            self._toolbox.register('mutate', tools.mutUniformInt, low=0, up=[arrity - 1 for arrity in self.arrities], indpb=self._mut_rate)
    self._toolbox.register('select', tools.selNSGA3, ref_points=ref_points)


@spec("builders/discrete_optimization/generic_tools/robustness/robustness_tool.py", "RobustnessTool.__init__")
def _(self, base_instance, all_instances, train_instance=None, test_instance=None, proportion_train=0.8):
    self.base_instance = base_instance
    self.all_instances = all_instances
    self.train_instance = train_instance
    self.test_instance = test_instance
    if self.train_instance is None:
        random.shuffle(self.all_instances)
        len_train = int(proportion_train * len(self.all_instances))
        self.train_instance = self.all_instances[:len_train]
        self.test_instance = self.all_instances[len_train:]
    self.model_aggreg_mean = Aggreg_RCPSPModel(list_problem=self.train_instance, method_aggregating=MethodAggregating(BaseMethodAggregating.MEAN))
    self.model_aggreg_max = Aggreg_RCPSPModel(list_problem=self.train_instance, method_aggregating=MethodAggregating(BaseMethodAggregating.MAX))
    self.model_aggreg_min = Aggreg_RCPSPModel(list_problem=self.train_instance, method_aggregating=MethodAggregating(BaseMethodAggregating.MIN))
    self.model_aggreg_median = Aggreg_RCPSPModel(list_problem=self.train_instance, method_aggregating=MethodAggregating(BaseMethodAggregating.MEDIAN))


@spec("builders/discrete_optimization/generic_tools/robustness/robustness_tool.py", "RobustnessTool.get_models")
def _(self, apriori=True, aposteriori=True):
    models = []
    tags = []
    if aposteriori:
        models += [self.model_aggreg_mean, self.model_aggreg_max, self.model_aggreg_min, self.model_aggreg_median]
        tags += ['post_mean', 'post_max', 'post_min', 'post_median']
    if apriori:
        model_apriori_mean = self.model_aggreg_mean.get_unique_rcpsp_model()
        model_apriori_max = self.model_aggreg_max.get_unique_rcpsp_model()
        model_apriori_min = self.model_aggreg_min.get_unique_rcpsp_model()
        model_apriori_median = self.model_aggreg_median.get_unique_rcpsp_model()
        models += [model_apriori_mean, model_apriori_max, model_apriori_min, model_apriori_median]
        tags += ['prio_mean', 'prio_max', 'prio_min', 'prio_median']
    models += [self.base_instance]
    tags += ['original']
    self.models = models
    self.tags = tags
    return models


@spec("builders/discrete_optimization/generic_tools/robustness/robustness_tool.py", "RobustnessTool.solve_and_retrieve")
def _(self, solve_models_function, apriori=True, aposteriori=True):
    from multiprocessing import Pool
    from functools import partial
    models = self.get_models(apriori, aposteriori)
    p = Pool(min(8, len(models)))
    l = p.map(solve_models_function, models)
    solutions = [li.best_solution for li in l]
    results = np.zeros((len(solutions), len(self.test_instance), 3))
    for index_instance in range(len(self.test_instance)):
        instance = self.test_instance[index_instance]
        for index_pareto in range(len(solutions)):
            sol_ = RCPSPSolution(problem=instance, rcpsp_permutation=solutions[index_pareto].rcpsp_permutation, rcpsp_modes=solutions[index_pareto].rcpsp_modes)
            fit = instance.evaluate(sol_)
            results[index_pareto, index_instance, 0] = 1 if sol_.rcpsp_schedule_feasible else 0
            results[index_pareto, index_instance, 1] = fit['makespan']
            results[index_pareto, index_instance, 2] = fit['mean_resource_reserve']
    return results


@spec("builders/discrete_optimization/generic_tools/robustness/robustness_tool.py", "RobustnessTool.plot")
def _(self, results, image_tag=''):
    feasible = np.sum(results[:, :, 0], axis=1)
    mean_makespan = np.mean(results[:, :, 1], axis=1)
    max_makespan = np.max(results[:, :, 1], axis=1)
    fig, ax = plt.subplots(1, figsize=(10, 10))
    for tag, i in zip(self.tags, range(len(self.tags))):
        sns.distplot(results[i, :, 1], rug=True, bins=max(1, len(self.all_instances) // 10), label=tag)
    plt.legend()
    plt.figure('Makespan distribution over test instances, for different optimisation approaches')
    fig.savefig(str(image_tag) + '_comparaison_methods_robust.png')


@spec("builders/discrete_optimization/generic_tools/robustness/robustness_tool.py", "solve_model")
def _(model, postpro=True, nb_iteration=500):
    dummy = model.get_dummy_solution()
    _, mutations = get_available_mutations(model, dummy)
    list_mutation = [mutate[0].build(model, dummy, **mutate[1]) for mutate in mutations if mutate[0] == PermutationMutationRCPSP]
    mixed_mutation = BasicPortfolioMutation(list_mutation, np.ones(len(list_mutation)))
    objectives = ['makespan']
    objective_weights = [-1]
    if postpro:
        params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.AGGREGATE, objectives=objectives, weights=objective_weights, sense_function=ModeOptim.MAXIMIZATION)
        aggreg_sol, _, _ = build_aggreg_function_and_params_objective(model, params_objective_function)
        res = RestartHandlerLimit(200, cur_solution=dummy, cur_objective=aggreg_sol(dummy))
        sa = SimulatedAnnealing(evaluator=model, mutator=mixed_mutation, restart_handler=res, temperature_handler=TemperatureSchedulingFactor(temperature=0.5, restart_handler=res, coefficient=0.9999), mode_mutation=ModeMutation.MUTATE, params_objective_function=params_objective_function, store_solution=True, nb_solutions=10000)
        result_ls = sa.solve(dummy, nb_iteration_max=nb_iteration, pickle_result=False)
    else:
        params_objective_function = ParamsObjectiveFunction(objective_handling=ObjectiveHandling.MULTI_OBJ, objectives=objectives, weights=objective_weights, sense_function=ModeOptim.MAXIMIZATION)
        aggreg_sol, _, _ = build_aggreg_function_and_params_objective(model, params_objective_function)
        res = RestartHandlerLimit(200, cur_solution=dummy, cur_objective=aggreg_sol(dummy))
        sa = HillClimberPareto(evaluator=model, mutator=mixed_mutation, restart_handler=res, params_objective_function=params_objective_function, mode_mutation=ModeMutation.MUTATE, store_solution=True, nb_solutions=10000)
        result_ls = sa.solve(dummy, nb_iteration_max=nb_iteration, pickle_result=False, update_iteration_pareto=10000)
    return result_ls
