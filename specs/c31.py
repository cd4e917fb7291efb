# C31: knapsack, colouring and facility location


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackSolution.__init__")
def _(self, problem, list_taken, value=None, weight=None):
    self.problem = problem
    self.value = value
    self.weight = weight
    self.list_taken = list_taken


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackSolution.copy")
def _(self):
    return KnapsackSolution(problem=self.problem, value=self.value, weight=self.weight, list_taken=list(self.list_taken))


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackSolution.lazy_copy")
def _(self):
    return KnapsackSolution(problem=self.problem, value=self.value, weight=self.weight, list_taken=self.list_taken)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackSolution.change_problem")
def _(self, new_problem):
    self.__init__(problem=new_problem, list_taken=list(self.list_taken))


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackSolution.__hash__")
def _(self):
    return hash(tuple(self.list_taken))


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackSolution.__eq__")
def _(self, other):
    return self.list_taken == other.list_taken


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.__init__")
def _(self, list_items, max_capacity, force_recompute_values=False):
    self.list_items = list_items
    self.nb_items = len(list_items)
    self.max_capacity = max_capacity
    self.index_to_item = {list_items[i].index: list_items[i] for i in range(self.nb_items)}
    self.index_to_index_list = {list_items[i].index: i for i in range(self.nb_items)}
    self.force_recompute_values = force_recompute_values


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.get_attribute_register")
def _(self):
    dict_register = {}
    dict_register['list_taken'] = {'name': 'list_taken', 'type': [TypeAttribute.LIST_BOOLEAN, TypeAttribute.LIST_BOOLEAN_KNAP], 'n': self.nb_items}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.get_objective_register")
def _(self):
    dict_objective = {'weight_violation': {'type': TypeObjective.PENALTY, 'default_weight': -100000}, 'value': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.AGGREGATE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'list_taken':
        kp_sol = KnapsackSolution(problem=self, list_taken=int_vector)
    elif encoding_name == 'custom':
        kwargs = {encoding_name: int_vector, 'problem': self}
        kp_sol = KnapsackSolution(**kwargs)
    objectives = self.evaluate(kp_sol)
    return objectives


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.evaluate")
def _(self, knapsack_solution):
    if knapsack_solution.value is None or self.force_recompute_values:
        val = self.evaluate_value(knapsack_solution)
    else:
        val = knapsack_solution.value
    w_violation = self.evaluate_weight_violation(knapsack_solution)
    return {'value': val, 'weight_violation': w_violation}


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.evaluate_value")
def _(self, knapsack_solution):
    s = sum([knapsack_solution.list_taken[i] * self.list_items[i].value for i in range(self.nb_items)])
    w = sum([knapsack_solution.list_taken[i] * self.list_items[i].weight for i in range(self.nb_items)])
    knapsack_solution.value = s
    knapsack_solution.weight = w
    return sum([knapsack_solution.list_taken[i] * self.list_items[i].value for i in range(self.nb_items)])


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.evaluate_weight_violation")
def _(self, knapsack_solution):
    return max(0, knapsack_solution.weight - self.max_capacity)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.satisfy")
def _(self, knapsack_solution):
    if knapsack_solution.value is None:
        self.evaluate(knapsack_solution)
    return knapsack_solution.weight <= self.max_capacity


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.get_dummy_solution")
def _(self):
    kp_sol = KnapsackSolution(problem=self, list_taken=[0] * self.nb_items)
    self.evaluate(kp_sol)
    return kp_sol


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel.get_solution_type")
def _(self):
    return KnapsackSolution


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel_Mobj.from_knapsack")
def _(knapsack_model):
    return KnapsackModel_Mobj(list_items=knapsack_model.list_items, max_capacity=knapsack_model.max_capacity, force_recompute_values=knapsack_model.force_recompute_values)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel_Mobj.get_objective_register")
def _(self):
    dict_objective = {'weight_violation': {'type': TypeObjective.PENALTY, 'default_weight': -100000}, 'heaviest_item': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}, 'weight': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}, 'value': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.MULTI_OBJ, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel_Mobj.evaluate")
def _(self, knapsack_solution):
    res = super().evaluate(knapsack_solution)
    heaviest = 0
    weight = 0
    for i in range(self.nb_items):
        if knapsack_solution.list_taken[i] == 1:
            heaviest = max(heaviest, self.list_items[i].weight)
            weight += self.list_items[i].weight
    res['heaviest_item'] = heaviest
    res['weight'] = weight
    return res


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel_Mobj.evaluate_mobj_from_dict")
def _(self, dict_values):
    return TupleFitness(np.array([dict_values['value'], -dict_values['heaviest_item']]), 2)


@spec("builders/discrete_optimization/knapsack/knapsack_model.py", "KnapsackModel_Mobj.evaluate_mobj")
def _(self, solution):
    return self.evaluate_mobj_from_dict(self.evaluate(solution))


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "SingleBitFlipMove.__init__")
def _(self, i, problem):
    self.i = i
    self.problem = problem


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "SingleBitFlipMove.apply_local_move")
def _(self, solution):
    new_list_taken = solution.list_taken.copy()
    new_list_taken[self.i] = abs(new_list_taken[self.i] - 1)
    new_solution = KnapsackSolution(problem=self.problem, list_taken=new_list_taken)
    return new_solution


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "SingleBitFlipMove.backtrack_local_move")
def _(self, solution):
    return self.apply_local_move(solution)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "KnapsackMutationSingleBitFlip.__init__")
def _(self, problem):
    self.problem = problem


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "KnapsackMutationSingleBitFlip.mutate")
def _(self, solution):
    s, m, f = self.mutate_and_compute_obj(solution)
    return (s, m)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "KnapsackMutationSingleBitFlip.mutate_and_compute_obj")
def _(self, solution):
    n = len(solution.list_taken)
    i = random.randint(0, n - 1)
    move = SingleBitFlipMove(i, self.problem)
    new_sol = move.apply_local_move(solution)
    if solution.weight is not None:
        if new_sol.list_taken[i] == 0:
            new_weight = solution.weight - self.problem.list_items[i].weight
            new_value = solution.value - self.problem.list_items[i].value
        else:
            new_weight = solution.weight + self.problem.list_items[i].weight
            new_value = solution.value + self.problem.list_items[i].value
        obj = {'value': new_value, 'weight_violation': max(0, new_weight - self.problem.max_capacity)}
    else:
        obj = self.problem.evaluate(new_sol)
    return (new_sol, move, obj)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "KnapsackMutationSingleBitFlip.build")
def _(knapsack_model, solution):
    return KnapsackMutationSingleBitFlip(knapsack_model)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "BitFlipMoveKP.__init__")
def _(self, attribute, problem, list_index_flip):
    self.attribute = attribute
    self.problem = problem
    self.list_index_flip = list_index_flip


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "BitFlipMoveKP.apply_local_move")
def _(self, solution):
    if solution.weight is None:
        self.problem.evaluate(solution)
    l = getattr(solution, self.attribute)
    weight = solution.weight
    value = solution.value
    for index in self.list_index_flip:
        l[index] = 1 - l[index]
        if l[index] == 0:
            weight -= self.problem.list_items[index].weight
            value -= self.problem.list_items[index].value
        else:
            weight += self.problem.list_items[index].weight
            value += self.problem.list_items[index].value
    solution.weight = weight
    solution.value = value
    return solution


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "BitFlipMoveKP.backtrack_local_move")
def _(self, solution):
    return self.apply_local_move(solution)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "MutationKnapsack.build")
def _(knapsack_model, solution):
    return MutationKnapsack(knapsack_model)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "MutationKnapsack.__init__")
def _(self, knapsack_model, attribute=None):
    self.knapsack_model = knapsack_model
    self.nb_items = knapsack_model.nb_items
    self.list_items = knapsack_model.list_items
    self.profit_per_capacity = [self.list_items[i].value / self.list_items[i].weight for i in range(self.nb_items)]
    self.sum = np.sum(self.profit_per_capacity)
    self.profit_per_capacity /= self.sum
    self.sorted_by_utility = np.argsort(self.profit_per_capacity)
    self.attribute = attribute
    if attribute is None:
        attributes = get_attribute_for_type(self.knapsack_model, TypeAttribute.LIST_BOOLEAN)
        if len(attributes) > 0:
            self.attribute = attributes[0]


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "MutationKnapsack.switch_on")
def _(self, variable, come_from_outside=False):
    not_used = [i for i in range(self.nb_items) if variable.list_taken[i] == 0 and variable.weight + self.list_items[i].weight <= self.knapsack_model.max_capacity]
    if len(not_used) > 0:
        proba = np.array([self.profit_per_capacity[i] for i in not_used])
        proba = proba / np.sum(proba)
        index = np.random.choice(not_used, size=1, p=proba)[0]
        move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
        sol = move.apply_local_move(variable)
        return (sol, move, {'value': sol.value, 'weight_violation': max(0, sol.weight - self.knapsack_model.max_capacity)})
    else:
        if come_from_outside:
            return (variable, LocalMoveDefault(variable, variable), {'value': variable.value, 'weight_violation': max(0, variable.weight - self.knapsack_model.max_capacity)})
        return self.switch_off(variable, True)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "MutationKnapsack.switch_off")
def _(self, variable, come_from_outside=False):
    used = [i for i in range(self.nb_items) if variable.list_taken[i] == 1]
    if len(used) > 0:
        proba = np.array([1 / self.profit_per_capacity[i] for i in used])
        proba = proba / np.sum(proba)
        index = np.random.choice(used, size=1, p=proba)[0]
        move = BitFlipMoveKP(self.attribute, problem=self.knapsack_model, list_index_flip=[index])
        sol = move.apply_local_move(variable)
        return (sol, move, {'value': sol.value, 'weight_violation': max(0, sol.weight - self.knapsack_model.max_capacity)})
    else:
        if come_from_outside:
            return (variable, LocalMoveDefault(variable, variable), {'value': variable.value, 'weight_violation': max(0, variable.weight - self.knapsack_model.max_capacity)})
        return self.switch_on(variable, come_from_outside=True)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "MutationKnapsack.mutate")
def _(self, variable):
    s, m, f = self.mutate_and_compute_obj(variable)
    return (s, m)


@spec("builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py", "MutationKnapsack.mutate_and_compute_obj")
def _(self, variable):
    if variable.weight is None:
        self.knapsack_model.evaluate(variable)
    r = random.random()
    if r < 0.8:
        return self.switch_on(variable)
    else:
        return self.switch_off(variable)


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "compute_density")
def _(knapsack_model):
    dd = sorted([l for l in knapsack_model.list_items if l.weight <= knapsack_model.max_capacity], key=lambda x: x.value / x.weight, reverse=True)
    return dd


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "compute_density_and_penalty")
def _(knapsack_model):
    dd = sorted([l for l in knapsack_model.list_items if l.weight <= knapsack_model.max_capacity], key=lambda x: x.value / x.weight - x.weight, reverse=True)
    return dd


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "greedy_using_queue")
def _(knapsack_model, method_queue=None):
    if method_queue is None:
        method_queue = compute_density
    value = 0
    weight = 0
    taken = [0] * knapsack_model.nb_items
    sorted_per_density = method_queue(knapsack_model)
    for i in range(len(sorted_per_density)):
        if sorted_per_density[i].weight + weight <= knapsack_model.max_capacity:
            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
            value += sorted_per_density[i].value
            weight += sorted_per_density[i].weight
        else:
            continue
    return KnapsackSolution(problem=knapsack_model, value=value, weight=weight, list_taken=taken)


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "best_of_greedy")
def _(knapsack_model):
    result1 = greedy_using_queue(knapsack_model, compute_density)
    result2 = greedy_using_queue(knapsack_model, compute_density_and_penalty)
    return result1 if result1.value > result2.value else result2


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "GreedyBest.__init__")
def _(self, knapsack_model, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "GreedyBest.solve")
def _(self):
    res = best_of_greedy(self.knapsack_model)
    fit = self.aggreg_sol(res)
    return ResultStorage(list_solution_fits=[(res, fit)], best_solution=res, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "GreedyDummy.__init__")
def _(self, knapsack_model, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/greedy_solvers.py", "GreedyDummy.solve")
def _(self):
    sol = KnapsackSolution(problem=self.knapsack_model, value=0, weight=0, list_taken=[0] * self.knapsack_model.nb_items)
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], best_solution=sol, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py", "KnapsackDynProg.__init__")
def _(self, knapsack_model, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.nb_items = self.knapsack_model.nb_items
    self.capacity = self.knapsack_model.max_capacity
    self.table = np.zeros((self.nb_items + 1, self.capacity + 1))
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py", "KnapsackDynProg.solve")
def _(self, **args):
    start_by_most_promising = args.get('greedy_start', False)
    stop_after_n_item = args.get('stop_after_n_item', False)
    max_items = args.get('max_items', self.knapsack_model.nb_items + 1)
    max_time_seconds = args.get('max_time_seconds', None)
    verbose = args.get('verbose', False)
    if max_time_seconds is None:
        do_time = False
    else:
        do_time = True
    if start_by_most_promising:
        promising = sorted([l for l in self.knapsack_model.list_items if l.weight <= self.knapsack_model.max_capacity], key=lambda x: x.value / x.weight, reverse=True)
        index_promising = [l.index for l in promising]
    else:
        index_promising = [l.index for l in self.knapsack_model.list_items]
    max_items = min(len(index_promising) + 1, max_items)
    if do_time:
        t_start = time.time()
    cur_indexes = (0, 0)
    for nb_item in range(1, max_items):
        if do_time:
            if time.time() - t_start > max_time_seconds:
                break
        index_item = self.knapsack_model.index_to_index_list[index_promising[nb_item - 1]]
        for capacity in range(self.capacity + 1):
            weight = self.knapsack_model.list_items[index_item].weight
            value = self.knapsack_model.list_items[index_item].value
            if weight > capacity:
                self.table[nb_item, capacity] = self.table[nb_item - 1, capacity]
                continue
            self.table[nb_item, capacity] = max(self.table[nb_item - 1, capacity], self.table[nb_item - 1, capacity - weight] + value)
            if capacity == self.capacity:
                cur_indexes = (nb_item, capacity)
                if verbose:
                    pass
    taken = [0] * self.nb_items
    weight = 0
    value = 0
    cur_value = self.table[cur_indexes[0], cur_indexes[1]]
    while cur_indexes[0] != 0:
        value_left = self.table[cur_indexes[0] - 1, cur_indexes[1]]
        if cur_value != value_left:
            index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0] - 1]]
            taken[index_item] = 1
            value += self.knapsack_model.list_items[index_item].value
            weight += self.knapsack_model.list_items[index_item].weight
            cur_indexes = (cur_indexes[0] - 1, cur_indexes[1] - self.knapsack_model.list_items[index_item].weight)
        else:
            cur_indexes = (cur_indexes[0] - 1, cur_indexes[1])
        cur_value = self.table[cur_indexes[0], cur_indexes[1]]
    sol = KnapsackSolution(problem=self.knapsack_model, value=value, weight=weight, list_taken=taken)
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], best_solution=sol, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py", "KnapsackDynProg.solve_np")
def _(self, **args):
    start_by_most_promising = args.get('greedy_start', False)
    stop_after_n_item = args.get('stop_after_n_item', False)
    max_items = args.get('max_items', self.knapsack_model.nb_items + 1)
    max_time_seconds = args.get('max_time_seconds', None)
    if max_time_seconds is None:
        do_time = False
    else:
        do_time = True
    if start_by_most_promising:
        promising = sorted([l for l in self.knapsack_model.list_items if l.weight <= self.knapsack_model.max_capacity], key=lambda x: x.value / x.weight, reverse=True)
        index_promising = [l.index for l in promising]
    else:
        index_promising = [l.index for l in self.knapsack_model.list_items]
    max_items = min(len(index_promising) + 1, max_items)
    if do_time:
        t_start = time.time()
    cur_indexes = (0, 0)
    for nb_item in range(1, max_items):
        if do_time:
            if time.time() - t_start > max_time_seconds:
                break
        index_item = self.knapsack_model.index_to_index_list[index_promising[nb_item - 1]]
        weight = self.knapsack_model.list_items[index_item].weight
        value = self.knapsack_model.list_items[index_item].value
        vec_1 = self.table[nb_item - 1, :]
        self.table[nb_item, :] = vec_1
        if weight <= self.capacity:
            self.table[nb_item, weight:] = np.maximum(vec_1[weight:], vec_1[:self.capacity + 1 - weight] + value)
        cur_indexes = (nb_item, self.capacity)
    taken = [0] * self.nb_items
    weight = 0
    value = 0
    cur_value = self.table[cur_indexes[0], cur_indexes[1]]
    while cur_indexes[0] != 0:
        value_left = self.table[cur_indexes[0] - 1, cur_indexes[1]]
        if cur_value != value_left:
            index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0] - 1]]
            taken[index_item] = 1
            value += self.knapsack_model.list_items[index_item].value
            weight += self.knapsack_model.list_items[index_item].weight
            cur_indexes = (cur_indexes[0] - 1, cur_indexes[1] - self.knapsack_model.list_items[index_item].weight)
        else:
            cur_indexes = (cur_indexes[0] - 1, cur_indexes[1])
        cur_value = self.table[cur_indexes[0], cur_indexes[1]]
    sol = KnapsackSolution(problem=self.knapsack_model, value=value, weight=weight, list_taken=taken)
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], best_solution=sol, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN.__init__")
def _(self, knapsack_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.key_decision_variable = ['list_items']
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN.retrieve_solutions")
def _(self, result, parameters_cp):
    intermediate_solutions = parameters_cp.intermediate_solution
    l_items = []
    objectives = []
    if intermediate_solutions:
        for i in range(len(result)):
            l_items += [result[i, 'list_items']]
            objectives += [result[i, 'objective']]
    else:
        l_items += [result['list_items']]
        objectives += [result['objective']]
    list_solutions_fit = []
    for items, objective in zip(l_items, objectives):
        taken = [0] * self.knapsack_model.nb_items
        weight = 0
        value = 0
        for i in range(len(items)):
            if items[i] != 0:
                taken[items[i] - 1] = 1
                weight += self.knapsack_model.list_items[items[i] - 1].weight
                value += self.knapsack_model.list_items[items[i] - 1].value
        sol = KnapsackSolution(problem=self.knapsack_model, value=value, weight=weight, list_taken=taken)
        fit = self.aggreg_sol(sol)
        list_solutions_fit += [(sol, fit)]
    return ResultStorage(list_solution_fits=list_solutions_fit, best_solution=None, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN.init_model")
def _(self, **args):
    model = Model(os.path.join(this_path, '../minizinc/knapsack_mzn.mzn'))
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    instance = Instance(solver, model)
    instance['nb_items'] = self.knapsack_model.nb_items
    instance['values'] = [0] + [self.knapsack_model.list_items[i].value for i in range(self.knapsack_model.nb_items)]
    instance['weights'] = [0] + [self.knapsack_model.list_items[i].weight for i in range(self.knapsack_model.nb_items)]
    instance['max_capacity'] = self.knapsack_model.max_capacity
    self.instance = instance


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN.solve")
def _(self, parameters_cp=ParametersCP.default(), **args):
    result = self.instance.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit), intermediate_solutions=parameters_cp.intermediate_solution)
    return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN2.__init__")
def _(self, knapsack_model, cp_solver_name=CPSolverName.CHUFFED, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.instance = None
    self.cp_solver_name = cp_solver_name
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN2.init_model")
def _(self, **args):
    model = Model(os.path.join(this_path, '../minizinc/knapsack_global.mzn'))
    solver = Solver.lookup(map_cp_solver_name[self.cp_solver_name])
    instance = Instance(solver, model)
    instance['nb_items'] = self.knapsack_model.nb_items
    instance['values'] = [self.knapsack_model.list_items[i].value for i in range(self.knapsack_model.nb_items)]
    instance['weights'] = [self.knapsack_model.list_items[i].weight for i in range(self.knapsack_model.nb_items)]
    instance['max_capacity'] = self.knapsack_model.max_capacity
    self.instance = instance


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN2.retrieve_solutions")
def _(self, result, parameters_cp):
    l_items_taken = []
    intermediate_solution = parameters_cp.intermediate_solution
    if intermediate_solution:
        for i in range(len(result)):
            l_items_taken += [result[i, 'taken']]
    else:
        l_items_taken += [result['taken']]
    list_solution_fits = []
    for i in range(len(l_items_taken)):
        items_taken = l_items_taken[i]
        taken = [0] * self.knapsack_model.nb_items
        weight = 0
        value = 0
        for i in range(len(items_taken)):
            if items_taken[i] != 0:
                taken[i] = 1
                weight += self.knapsack_model.list_items[i].weight
                value += self.knapsack_model.list_items[i].value
        sol = KnapsackSolution(problem=self.knapsack_model, value=value, weight=weight, list_taken=taken)
        fit = self.aggreg_sol(sol)
        list_solution_fits += [(sol, fit)]
    return ResultStorage(list_solution_fits=list_solution_fits, best_solution=None, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN2.solve")
def _(self, parameter_cp=ParametersCP.default(), **args):
    result = self.instance.solve(timeout=timedelta(seconds=parameter_cp.TimeLimit), intermediate_solutions=parameter_cp.intermediate_solution)
    return self.retrieve_solutions(result=result, parameters_cp=parameter_cp)


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN2.retrieve")
def _(self, items_taken):
    taken = [0] * self.knapsack_model.nb_items
    weight = 0
    value = 0
    for i in range(len(items_taken)):
        if items_taken[i] != 0:
            taken[i] = 1
            weight += self.knapsack_model.list_items[i].weight
            value += self.knapsack_model.list_items[i].value
    return [KnapsackSolution(problem=self.knapsack_model, value=value, weight=weight, list_taken=taken)]


@spec("builders/discrete_optimization/knapsack/solvers/cp_solvers.py", "CPKnapsackMZN2.solve_lns")
def _(self, init_solution, fraction_decision_fixed, nb_iteration_max, max_time_per_iteration_s, save_results=True):
    taken_current_solution = list(init_solution.list_taken)
    current_objective = init_solution.value
    nb_items = self.knapsack_model.nb_items
    range_item = list(range(nb_items))
    current_solution = init_solution
    iteration = 0
    results = {'taken': [init_solution.list_taken], 'objective': [init_solution.value], 'weight': [init_solution.weight]}
    while iteration < nb_iteration_max:
        with self.instance.branch() as child:
            subpart_item = set(random.sample(range_item, int(fraction_decision_fixed * nb_items)))
            for i in range_item:
                if i in subpart_item:
                    child.add_string('constraint taken[' + str(i + 1) + '] == ' + str(taken_current_solution[i]) + ';\n')
            res = child.solve(timeout=timedelta(seconds=max_time_per_iteration_s))
            if res.solution is not None:
                solution = self.retrieve(res['taken'])[0]
            if res.solution is not None and res['objective'] > current_objective:
                current_objective = res['objective']
                iteration += 1
                current_solution = solution
                taken_current_solution = list(solution.list_taken)
                if save_results:
                    results['taken'] += [taken_current_solution]
                    results['objective'] += [current_objective]
                    results['weight'] += [res['weight']]
            else:
                iteration += 1
                if res.solution is not None:
                    objective = res['objective']
                    taken_solution = list(solution.list_taken)
                    if save_results:
                        results['taken'] += [taken_solution]
                        results['objective'] += [objective]
                        results['weight'] += [res['weight']]
    return ([current_solution], results)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.__init__")
def _(self, knapsack_model, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.model = None
    self.variable_decision = {}
    self.constraints_dict = {}
    self.description_variable_description = {}
    self.description_constraint = {}
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.init_model")
def _(self, **args):
    warm_start = args.get('warm_start', {})
    self.model = Model('Knapsack')
    self.variable_decision = {'x': {}}
    self.description_variable_description = {'x': {'shape': self.knapsack_model.nb_items, 'type': bool, 'descr': 'dictionary with key the item index                                                                  and value the boolean value corresponding                                                                  to taking the item or not'}}
    self.description_constraint['weight'] = {'descr': "sum of weight of used items doesn't exceed max capacity"}
    weight = {}
    list_item = self.knapsack_model.list_items
    max_capacity = self.knapsack_model.max_capacity
    x = {}
    for item in list_item:
        i = item.index
        x[i] = self.model.addVar(vtype=GRB.BINARY, obj=item.value, name='x_' + str(i))
        if i in warm_start:
            x[i].start = warm_start[i]
            x[i].varhinstval = warm_start[i]
        weight[i] = item.weight
    self.variable_decision['x'] = x
    self.model.update()
    self.constraints_dict['weight'] = self.model.addConstr(quicksum([weight[i] * x[i] for i in x]) <= max_capacity)
    self.model.update()
    self.model.setParam('TimeLimit', 200)
    self.model.modelSense = GRB.MAXIMIZE
    self.model.setParam(GRB.Param.PoolSolutions, 10000)
    self.model.setParam('MIPGapAbs', 1e-05)
    self.model.setParam('MIPGap', 1e-08)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.retrieve_solutions")
def _(self, range_solutions):
    solutions = []
    fits = []
    for s in range_solutions:
        weight = 0
        xs = {}
        self.model.params.SolutionNumber = s
        obj = self.model.getAttr('ObjVal')
        for e in self.variable_decision['x']:
            value = self.variable_decision['x'][e].getAttr('Xn')
            if value <= 0.1:
                xs[e] = 0
                continue
            xs[e] = 1
            weight += self.knapsack_model.index_to_item[e].weight
        solutions += [KnapsackSolution(problem=self.knapsack_model, value=obj, weight=weight, list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
        fits += [self.aggreg_sol(solutions[-1])]
    return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.solve")
def _(self, parameter_gurobi):
    self.model.setParam('TimeLimit', parameter_gurobi.TimeLimit)
    self.model.modelSense = GRB.MAXIMIZE
    self.model.setParam(GRB.Param.PoolSolutions, parameter_gurobi.PoolSolutions)
    self.model.setParam('MIPGapAbs', parameter_gurobi.MIPGapAbs)
    self.model.setParam('MIPGap', parameter_gurobi.MIPGap)
    self.model.optimize()
    nSolutions = self.model.SolCount
    nObjectives = self.model.NumObj
    objective = self.model.getObjective().getValue()
    if parameter_gurobi.retrieve_all_solution:
        solutions = self.retrieve_solutions(list(range(nSolutions)))
    else:
        solutions = self.retrieve_solutions([0])
    return solutions


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.solve_lns")
def _(self, parameter_gurobi, init_solution, fraction_decision_fixed, nb_iteration_max):
    self.model.setParam('TimeLimit', parameter_gurobi.TimeLimit)
    self.model.setParam('OutputFlag', 0)
    self.model.modelSense = GRB.MAXIMIZE
    self.model.setParam(GRB.Param.PoolSolutions, parameter_gurobi.PoolSolutions)
    self.model.setParam('MIPGapAbs', parameter_gurobi.MIPGapAbs)
    self.model.setParam('MIPGap', parameter_gurobi.MIPGap)
    current_solution = init_solution
    constraints = {}
    list_solutions = [current_solution]
    list_objective = [current_solution.value]
    objective = init_solution.value
    for k in trange(nb_iteration_max):
        for c in constraints:
            self.model.remove(constraints[c])
        self.add_init_solution(current_solution)
        fixed_variable = set(random.sample(list(self.variable_decision['x'].keys()), int(fraction_decision_fixed * len(self.variable_decision['x']))))
        constraints = self.fix_decision(current_solution, fixed_variable)
        self.model.optimize()
        nSolutions = self.model.SolCount
        nObjectives = self.model.NumObj
        objective = self.model.getObjective().getValue()
        if parameter_gurobi.retrieve_all_solution:
            solutions = self.retrieve_solutions(list(range(nSolutions)))
        else:
            solutions = self.retrieve_solutions([0])
        current_solution = solutions[0]
        list_solutions += [solutions[0]]
        list_objective += [solutions[0].value]
    fig, ax = plt.subplots(1)
    ax.plot(list_objective)
    plt.show()


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.add_init_solution")
def _(self, init_solution):
    for i in self.variable_decision['x']:
        self.variable_decision['x'][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
        self.variable_decision['x'][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackGurobi.fix_decision")
def _(self, init_solution, fixed_variable_keys):
    constraints = {}
    for i in fixed_variable_keys:
        constraints[i] = self.model.addConstr(self.variable_decision['x'][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
    return constraints


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackCBC.__init__")
def _(self, knapsack_model, params_objective_function):
    self.knapsack_model = knapsack_model
    self.model = None
    self.variable_decision = {}
    self.constraints_dict = {}
    self.description_variable_description = {}
    self.description_constraint = {}
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackCBC.init_model")
def _(self, warm_start=None):
    if warm_start is None:
        warm_start = {}
    self.variable_decision = {'x': {}}
    self.description_variable_description = {'x': {'shape': self.knapsack_model.nb_items, 'type': bool, 'descr': 'dictionary with key the item index                                                                  and value the boolean value corresponding                                                                  to taking the item or not'}}
    self.description_constraint['weight'] = {'descr': "sum of weight of used items doesn't exceed max capacity"}
    S = pywraplp.Solver('knapsack', pywraplp.Solver.CBC_MIXED_INTEGER_PROGRAMMING)
    x = {}
    weight = {}
    value = {}
    list_item = self.knapsack_model.list_items
    max_capacity = self.knapsack_model.max_capacity
    for item in list_item:
        i = item.index
        x[i] = S.BoolVar('x_' + str(i))
        if i in warm_start:
            S.SetHint([x[i]], [warm_start[i]])
        weight[i] = item.weight
        value[i] = item.value
    self.constraints_dict['weight'] = S.Add(S.Sum([x[i] * weight[i] for i in x]) <= max_capacity)
    value_knap = S.Sum([x[i] * value[i] for i in x])
    S.Maximize(value_knap)
    self.model = S
    self.variable_decision['x'] = x


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsackCBC.solve")
def _(self):
    self.model.SetTimeLimit(60000)
    res = self.model.Solve()
    resdict = {0: 'OPTIMAL', 1: 'FEASIBLE', 2: 'INFEASIBLE', 3: 'UNBOUNDED', 4: 'ABNORMAL', 5: 'MODEL_INVALID', 6: 'NOT_SOLVED'}
    objective = self.model.Objective().Value()
    xs = {}
    x = self.variable_decision['x']
    weight = 0
    for i in x:
        sv = x[i].solution_value()
        if sv >= 0.5:
            xs[i] = 1
            weight += self.knapsack_model.index_to_item[i].weight
        else:
            xs[i] = 0
    sol = KnapsackSolution(problem=self.knapsack_model, value=objective, weight=weight, list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.__init__")
def _(self, knapsack_model, milp_solver_name, params_objective_function=None):
    self.knapsack_model = knapsack_model
    self.model = None
    self.milp_solver_name = milp_solver_name
    self.solver_name = map_solver[milp_solver_name]
    self.variable_decision = {}
    self.constraints_dict = {}
    self.description_variable_description = {}
    self.description_constraint = {}
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.init_model")
def _(self, **args):
    warm_start = args.get('warm_start', {})
    solver_name = args.get('solver_name', CBC)
    self.model = MyModelMilp('Knapsack', solver_name=solver_name, sense=MAXIMIZE)
    self.variable_decision = {'x': {}}
    self.description_variable_description = {'x': {'shape': self.knapsack_model.nb_items, 'type': bool, 'descr': 'dictionary with key the item index                                                                  and value the boolean value corresponding                                                                  to taking the item or not'}}
    self.description_constraint['weight'] = {'descr': "sum of weight of used items doesn't exceed max capacity"}
    weight = {}
    list_item = self.knapsack_model.list_items
    max_capacity = self.knapsack_model.max_capacity
    x = {}
    start = []
    for item in list_item:
        i = item.index
        x[i] = self.model.add_var(var_type=BINARY, obj=item.value, name='x_' + str(i))
        if i in warm_start:
            start += [(x[i], warm_start[i])]
        weight[i] = item.weight
    self.model.start = start
    self.variable_decision['x'] = x
    self.model.update()
    self.constraints_dict['weight'] = self.model.add_constr(xsum([weight[i] * x[i] for i in x]) <= max_capacity, name='capacity_constr')
    self.model.update()


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.retrieve_solutions")
def _(self, range_solutions):
    solutions = []
    fits = []
    for s in range_solutions:
        weight = 0
        xs = {}
        obj = self.model.objective_values[s]
        value_kp = 0
        for e in self.variable_decision['x']:
            value = self.variable_decision['x'][e].xi(s)
            if value <= 0.1:
                xs[e] = 0
                continue
            xs[e] = 1
            weight += self.knapsack_model.index_to_item[e].weight
            value_kp += self.knapsack_model.index_to_item[e].value
        solutions += [KnapsackSolution(problem=self.knapsack_model, value=value_kp, weight=weight, list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
        fits += [self.aggreg_sol(solutions[-1])]
    return ResultStorage(list_solution_fits=[(sol, fit) for sol, fit in zip(solutions, fits)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.solve")
def _(self, parameters_milp, **args):
    self.model.optimize(max_seconds=parameters_milp.TimeLimit, max_solutions=parameters_milp.PoolSolutions)
    nSolutions = self.model.num_solutions
    objective = self.model.objective_value
    if parameters_milp.retrieve_all_solution:
        solutions = self.retrieve_solutions(list(range(nSolutions)))
    else:
        solutions = self.retrieve_solutions([0])
    return solutions


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.solve_lns")
def _(self, parameter_gurobi, init_solution, fraction_decision_fixed, nb_iteration_max):
    current_solution = init_solution
    constraints = {}
    list_solutions = [current_solution]
    list_objective = [current_solution.value]
    objective = init_solution.value
    for k in trange(nb_iteration_max):
        for c in constraints:
            self.model.remove(constraints[c])
        self.add_init_solution(current_solution)
        fixed_variable = set(random.sample(list(self.variable_decision['x'].keys()), int(fraction_decision_fixed * len(self.variable_decision['x']))))
        constraints = self.fix_decision(current_solution, fixed_variable)
        self.model.optimize(max_seconds=parameter_gurobi.TimeLimit, max_solutions=parameter_gurobi.PoolSolutions)
        nSolutions = self.model.num_solutions
        objective = self.model.objective_value
        if parameter_gurobi.retrieve_all_solution:
            solutions = self.retrieve_solutions(list(range(nSolutions)))
        else:
            solutions = self.retrieve_solutions([0])
        current_solution = solutions.get_best_solution()
        list_solutions += [solutions.get_best_solution()]
        list_objective += [solutions.get_best_solution().value]
    fig, ax = plt.subplots(1)
    ax.plot(list_objective)
    plt.show()


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.add_init_solution")
def _(self, init_solution):
    start = []
    for i in self.variable_decision['x']:
        start += [(self.variable_decision['x'][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
    self.model.start = start


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "LPKnapsack.fix_decision")
def _(self, init_solution, fixed_variable_keys):
    constraints = {}
    for i in fixed_variable_keys:
        constraints[i] = self.model.add_constr(self.variable_decision['x'][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
    return constraints


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "KnapsackORTools.__init__")
def _(self, knapsack_model, params_objective_function):
    self.knapsack_model = knapsack_model
    self.model = None
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.knapsack_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "KnapsackORTools.init_model")
def _(self, **kwargs):
    solver = pywrapknapsack_solver.KnapsackSolver(pywrapknapsack_solver.KnapsackSolver.KNAPSACK_MULTIDIMENSION_BRANCH_AND_BOUND_SOLVER, 'KnapsackExample')
    list_item = self.knapsack_model.list_items
    max_capacity = self.knapsack_model.max_capacity
    values = [item.value for item in list_item]
    weights = [[item.weight for item in list_item]]
    capacities = [max_capacity]
    solver.Init(values, weights, capacities)
    self.model = solver


@spec("builders/discrete_optimization/knapsack/solvers/lp_solvers.py", "KnapsackORTools.solve")
def _(self, **kwargs):
    computed_value = self.model.Solve()
    xs = {}
    weight = 0
    value = 0
    for i in range(self.knapsack_model.nb_items):
        if self.model.BestSolutionContains(i):
            weight += self.knapsack_model.list_items[i].weight
            value += self.knapsack_model.list_items[i].value
            xs[self.knapsack_model.list_items[i].index] = 1
        else:
            xs[self.knapsack_model.list_items[i].index] = 0
    sol = KnapsackSolution(problem=self.knapsack_model, value=value, weight=weight, list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py", "InitialKnapsackSolution.__init__")
def _(self, problem, initial_method, params_objective_function):
    self.problem = problem
    self.initial_method = initial_method
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py", "InitialKnapsackSolution.get_starting_solution")
def _(self):
    if self.initial_method == InitialKnapsackMethod.GREEDY:
        greedy_solver = GreedyBest(self.problem, params_objective_function=self.params_objective_function)
        return greedy_solver.solve()
    else:
        solution = self.problem.get_dummy_solution()
        fit = self.aggreg_sol(solution)
        return ResultStorage(list_solution_fits=[(solution, fit)], best_solution=solution, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py", "ConstraintHandlerKnapsack.__init__")
def _(self, problem, fraction_to_fix=0.9):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.iter = 0


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py", "ConstraintHandlerKnapsack.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    subpart_item = set(random.sample(range(self.problem.nb_items), int(self.fraction_to_fix * self.problem.nb_items)))
    current_solution = result_storage.get_best_solution_fit()[0]
    dict_f_fixed = {}
    dict_f_start = {}
    start = []
    for c in range(self.problem.nb_items):
        dict_f_start[c] = current_solution.list_taken[c]
        if c in subpart_item:
            dict_f_fixed[c] = dict_f_start[c]
    x_var = milp_solver.variable_decision['x']
    lns_constraint = {}
    for key in x_var:
        c = self.problem.index_to_index_list[key]
        start += [(x_var[key], dict_f_start[c])]
        if c in subpart_item:
            lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[c], name=str(key))
    if milp_solver.milp_solver_name == MilpSolverName.GRB:
        milp_solver.model.solver.update()
    milp_solver.model.start = start
    return lns_constraint


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py", "ConstraintHandlerKnapsack.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove([previous_constraints[k] for k in previous_constraints])
    if milp_solver.milp_solver_name == MilpSolverName.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_cp_solver.py", "ConstraintHandlerKnapsack.__init__")
def _(self, problem, fraction_to_fix=0.9):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.iter = 0


@spec("builders/discrete_optimization/knapsack/solvers/knapsack_lns_cp_solver.py", "ConstraintHandlerKnapsack.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    subpart_item = set(random.sample(range(self.problem.nb_items), int(self.fraction_to_fix * self.problem.nb_items)))
    current_solution = result_storage.get_best_solution_fit()[0]
    list_strings = []
    for item in subpart_item:
        list_strings += ['constraint taken[' + str(item + 1) + '] == ' + str(current_solution.list_taken[item]) + ';\n']
        child_instance.add_string(list_strings[-1])
    return list_strings


@spec("builders/discrete_optimization/knapsack/knapsack_parser.py", "parse_input_data")
def _(input_data, force_recompute_values=False):
    lines = input_data.split('\n')
    firstLine = lines[0].split()
    item_count = int(firstLine[0])
    capacity = int(firstLine[1])
    items = []
    for i in range(1, item_count + 1):
        line = lines[i]
        parts = line.split()
        items.append(Item(i - 1, int(parts[0]), int(parts[1])))
    return KnapsackModel(list_items=items, max_capacity=capacity, force_recompute_values=force_recompute_values)


@spec("builders/discrete_optimization/knapsack/knapsack_parser.py", "parse_file")
def _(file_path, force_recompute_values=False):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        knapsack_model = parse_input_data(input_data, force_recompute_values=force_recompute_values)
        return knapsack_model


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringSolution.__init__")
def _(self, problem, colors=None, nb_color=None, nb_violations=None):
    self.problem = problem
    self.colors = colors
    self.nb_color = nb_color
    self.nb_violations = nb_violations


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringSolution.copy")
def _(self):
    return ColoringSolution(problem=self.problem, colors=list(self.colors), nb_color=self.nb_color, nb_violations=self.nb_violations)


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringSolution.lazy_copy")
def _(self):
    return ColoringSolution(problem=self.problem, colors=self.colors, nb_color=self.nb_color, nb_violations=self.nb_violations)


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringSolution.to_reformated_solution")
def _(self):
    sol = ColoringSolution(problem=self.problem, colors=transform_color_values_to_value_precede(self.colors), nb_color=self.nb_color, nb_violations=self.nb_violations)
    return sol


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringSolution.change_problem")
def _(self, new_problem):
    self.__init__(problem=new_problem, colors=list(self.colors))


@spec("builders/discrete_optimization/coloring/coloring_model.py", "transform_color_values_to_value_precede")
def _(color_vector):
    index_value_color = {}
    new_value = 0
    new_colors_vector = []
    for k in range(len(color_vector)):
        if color_vector[k] not in index_value_color:
            index_value_color[color_vector[k]] = new_value
            new_value += 1
        new_colors_vector += [index_value_color[color_vector[k]]]
    return new_colors_vector


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.__init__")
def _(self, graph):
    self.graph = graph
    self.number_of_nodes = len(self.graph.nodes_infos_dict)
    self.nodes_name = self.graph.nodes_name
    self.index_nodes_name = {self.nodes_name[i]: i for i in range(self.number_of_nodes)}
    self.index_to_nodes_name = {i: self.nodes_name[i] for i in range(self.number_of_nodes)}


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.evaluate")
def _(self, variable):
    if variable.nb_color is None:
        variable.nb_color = len(set(variable.colors))
        variable.nb_violations = self.count_violations(variable)
    return {'nb_colors': variable.nb_color, 'nb_violations': variable.nb_violations}


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.satisfy")
def _(self, variable):
    for e in self.graph.edges:
        if variable.colors[self.index_nodes_name[e[0]]] == variable.colors[self.index_nodes_name[e[1]]]:
            return False
    return True


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.get_attribute_register")
def _(self):
    dict_register = {'colors': {'name': 'colors', 'type': [TypeAttribute.LIST_INTEGER], 'n': self.number_of_nodes, 'arrity': self.number_of_nodes}}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.get_solution_type")
def _(self):
    return ColoringSolution


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.get_objective_register")
def _(self):
    dict_objective = {'nb_colors': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}, 'nb_violations': {'type': TypeObjective.PENALTY, 'default_weight': -100}}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.AGGREGATE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.get_dummy_solution")
def _(self):
    colors = list(range(self.number_of_nodes))
    solution = ColoringSolution(self, colors)
    self.evaluate(solution)
    return solution


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.count_violations")
def _(self, variable):
    val = 0
    for e in self.graph.edges:
        if variable.colors[self.index_nodes_name[e[0]]] == variable.colors[self.index_nodes_name[e[1]]]:
            val += 1
    return val


@spec("builders/discrete_optimization/coloring/coloring_model.py", "ColoringProblem.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    coloring_sol = None
    if encoding_name == 'colors':
        coloring_sol = ColoringSolution(problem=self, colors=int_vector)
    elif encoding_name == 'custom':
        kwargs = {encoding_name: int_vector, 'problem': self}
        coloring_sol = ColoringSolution(**kwargs)
    objectives = self.evaluate(coloring_sol)
    return objectives


@spec("builders/discrete_optimization/coloring/coloring_toolbox.py", "compute_cliques")
def _(g, nb_max=None):
    cliques = []
    nb = 0
    not_all = False
    for c in nx.algorithms.clique.find_cliques(g):
        cliques += [c]
        nb += 1
        if nb_max is not None and nb >= nb_max:
            not_all = True
            break
    return (cliques, not_all)


@spec("builders/discrete_optimization/coloring/coloring_parser.py", "parse")
def _(input_data):
    lines = input_data.split('\n')
    first_line = lines[0].split()
    node_count = int(first_line[0])
    edge_count = int(first_line[1])
    edges = []
    nodes = [(i, {}) for i in range(node_count)]
    for i in range(1, edge_count + 1):
        line = lines[i]
        parts = line.split()
        edges.append((int(parts[0]), int(parts[1]), {}))
    return ColoringProblem(Graph(nodes, edges, undirected=True))


@spec("builders/discrete_optimization/coloring/coloring_parser.py", "parse_file")
def _(file_path):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        coloring_model = parse(input_data)
        return coloring_model


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_lns_solvers.py", "InitialColoring.__init__")
def _(self, problem, initial_method, params_objective_function):
    self.problem = problem
    self.initial_method = initial_method
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_lns_solvers.py", "InitialColoring.get_starting_solution")
def _(self):
    if self.initial_method == InitialColoringMethod.DUMMY:
        sol = self.problem.get_dummy_solution()
        fit = self.aggreg_sol(sol)
        return ResultStorage(list_solution_fits=[(sol, fit)], best_solution=sol, mode_optim=self.params_objective_function.sense_function)
    else:
        solver = GreedyColoring(color_problem=self.problem, params_objective_function=self.params_objective_function)
        return solver.solve()


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_lns_solvers.py", "ConstraintHandlerFixColorsCP.__init__")
def _(self, problem, fraction_to_fix=0.9):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_lns_solvers.py", "ConstraintHandlerFixColorsCP.adding_constraint_from_results_store")
def _(self, cp_solver, child_instance, result_storage):
    range_node = range(1, self.problem.number_of_nodes + 1)
    current_solution = result_storage.get_best_solution()
    subpart_color = set(random.sample(range_node, int(self.fraction_to_fix * self.problem.number_of_nodes)))
    dict_color = {i + 1: current_solution.colors[i] + 1 for i in range(self.problem.number_of_nodes)}
    current_nb_color = max(dict_color.values())
    for i in range_node:
        if i in subpart_color and dict_color[i] < current_nb_color:
            child_instance.add_string('constraint color_graph[' + str(i) + '] == ' + str(dict_color[i]) + ';\n')
        child_instance.add_string('constraint color_graph[' + str(i) + '] <= ' + str(current_nb_color) + ';\n')


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_lns_solvers.py", "PostProcessSolutionColoring.__init__")
def _(self, problem, params_objective_function):
    self.problem = problem
    self.params_objective_function = params_objective_function
    self.aggreg_from_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=self.params_objective_function)


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_lns_solvers.py", "PostProcessSolutionColoring.build_other_solution")
def _(self, result_storage):
    bs = result_storage.get_best_solution()
    colors = bs.colors
    set_colors = sorted(set(colors))
    nb_colors = len(set(set_colors))
    new_color_dict = {set_colors[i]: i for i in range(nb_colors)}
    new_solution = ColoringSolution(problem=self.problem, colors=[new_color_dict[colors[i]] for i in range(len(colors))])
    fit = self.aggreg_from_sol(new_solution)
    result_storage.add_solution(new_solution, fit)
    return result_storage


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py", "ColoringCP.__init__")
def _(self, coloring_problem, params_objective_function):
    self.coloring_problem = coloring_problem
    self.number_of_nodes = self.coloring_problem.number_of_nodes
    self.number_of_edges = len(self.coloring_problem.graph.edges_infos_dict)
    self.nodes_name = self.coloring_problem.graph.nodes_name
    self.index_nodes_name = self.coloring_problem.index_nodes_name
    self.index_to_nodes_name = self.coloring_problem.index_to_nodes_name
    self.graph = self.coloring_problem.graph
    self.model = None
    self.instance = None
    self.g = None
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.coloring_problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py", "ColoringCP.init_model")
def _(self, **kwargs):
    nb_colors = kwargs.get('nb_colors', None)
    verbose = kwargs.get('verbose', False)
    if nb_colors is None:
        solution = self.get_solution(**kwargs)
        nb_colors = solution.nb_color
    model_type = kwargs.get('cp_model', ColoringCPModel.DEFAULT)
    nb_cliques = kwargs.get('nb_cliques', 200)
    path = os.path.join(path_minizinc, file_dict[model_type])
    self.model = Model(path)
    solver = Solver.lookup('chuffed')
    instance = Instance(solver, self.model)
    instance['n_nodes'] = self.number_of_nodes
    instance['n_edges'] = len(self.coloring_problem.graph.edges)
    instance['nb_colors'] = nb_colors
    keys = ['n_nodes', 'n_edges', 'nb_colors']
    edges = [[self.index_nodes_name[e[0]] + 1, self.index_nodes_name[e[1]] + 1, e[2]] for e in self.coloring_problem.graph.edges]
    g = nx.Graph()
    g.add_nodes_from([i for i in range(1, self.number_of_nodes + 1)])
    g.add_edges_from(edges)
    self.g = g
    if model_type == ColoringCPModel.CLIQUES:
        cliques, not_all = compute_cliques(g, nb_cliques)
        instance['cliques'] = [set(c) for c in cliques]
        instance['n_cliques'] = len(instance['cliques'])
        instance['all_cliques'] = not not_all
        keys += ['cliques', 'n_cliques', 'all_cliques']
    instance['list_edges'] = [[e[0], e[1]] for e in edges]
    keys += ['list_edges']
    self.instance = instance
    self.dict_datas = {k: instance[k] for k in keys}


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py", "ColoringCP.retrieve_solutions")
def _(self, result, parameters_cp=ParametersCP.default()):
    intermediate_solutions = parameters_cp.intermediate_solution
    colors = []
    objectives = []
    solutions_fit = []
    if intermediate_solutions:
        for i in range(len(result)):
            colors += [result[i, 'color_graph']]
            objectives += [result[i, 'objective']]
    else:
        colors += [result['color_graph']]
        objectives += [result['objective']]
    for k in range(len(colors)):
        sol = [colors[k][self.index_nodes_name[self.nodes_name[i]]] - 1 for i in range(self.number_of_nodes)]
        color_sol = ColoringSolution(self.coloring_problem, sol)
        fit = self.aggreg_sol(color_sol)
        solutions_fit += [(color_sol, fit)]
    return ResultStorage(list_solution_fits=solutions_fit, limit_store=False, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py", "ColoringCP.solve")
def _(self, parameters_cp=None, **kwargs):
    if parameters_cp is None:
        parameters_cp = ParametersCP.default()
    if self.model is None:
        self.init_model(**kwargs)
    limit_time_s = parameters_cp.TimeLimit
    intermediate_solutions = parameters_cp.intermediate_solution
    result = self.instance.solve(timeout=timedelta(seconds=limit_time_s), intermediate_solutions=intermediate_solutions)
    verbose = kwargs.get('verbose', False)
    if verbose:
        pass
    return self.retrieve_solutions(result=result, parameters_cp=parameters_cp)


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py", "ColoringCP.get_solution")
def _(self, **kwargs):
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedyColoring(self.coloring_problem, params_objective_function=self.params_objective_function)
        result_store = greedy_solver.solve(strategy=kwargs.get('greedy_method', NXGreedyColoringMethod.best), verbose=verbose)
        solution = result_store.get_best_solution_fit()[0]
    else:
        if verbose:
            pass
        solution = self.coloring_problem.get_dummy_solution()
    return solution


@spec("builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py", "ColoringCP.solve_lns")
def _(self, fraction_to_fix=0.9, nb_iteration=10, parameters_cp=None, **kwargs):
    if parameters_cp is None:
        parameters_cp = ParametersCP.default()
    first_solution = self.get_solution(**kwargs)
    dict_color = {i + 1: first_solution.colors[i] + 1 for i in range(self.number_of_nodes)}
    nb_colors = first_solution.nb_color
    kwargs['nb_colors'] = nb_colors
    self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 100)
    range_node = range(1, self.number_of_nodes + 1)
    iteration = 0
    current_solution = first_solution
    current_best_solution = current_solution.copy()
    current_nb_color = current_best_solution.nb_color
    while iteration < nb_iteration:
        with self.instance.branch() as child:
            subpart_color = set(random.sample(range_node, int(fraction_to_fix * self.number_of_nodes)))
            for i in range_node:
                if i in subpart_color and dict_color[i] < current_nb_color - 2:
                    child.add_string('constraint color_graph[' + str(i) + '] == ' + str(dict_color[i]) + ';\n')
                child.add_string('constraint color_graph[' + str(i) + '] <= ' + str(current_nb_color) + ';\n')
            child.add_string(f'solve minimize(obj);\n')
            res = child.solve(timeout=timedelta(seconds=parameters_cp.TimeLimit), intermediate_solutions=parameters_cp.intermediate_solution)
            result_storage = self.retrieve_solutions(res, parameters_cp=parameters_cp)
            sol, fit = result_storage.get_best_solution_fit()
            nb_color = self.coloring_problem.evaluate(sol)['nb_colors']
            if res.solution is not None and nb_color < current_nb_color:
                current_nb_color = nb_color
                current_best_solution = sol
                dict_color = {i + 1: current_best_solution.colors[i] + 1 for i in range(self.number_of_nodes)}
            else:
                try:
                    pass
                except:
                    pass
            iteration += 1
    fit = self.coloring_problem.evaluate(current_best_solution)
    return (current_best_solution, fit)


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP.__init__")
def _(self, coloring_problem, params_objective_function=None):
    self.coloring_problem = coloring_problem
    self.number_of_nodes = self.coloring_problem.number_of_nodes
    self.nodes_name = self.coloring_problem.graph.nodes_name
    self.index_nodes_name = {self.nodes_name[i]: i for i in range(self.number_of_nodes)}
    self.index_to_nodes_name = {i: self.nodes_name[i] for i in range(self.number_of_nodes)}
    self.graph = self.coloring_problem.graph
    self.model = None
    self.variable_decision = {}
    self.constraints_dict = {}
    self.description_variable_description = {}
    self.description_constraint = {}
    self.params_objective_function = params_objective_function
    self.aggreg_from_sol, self.aggreg_from_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.coloring_problem, params_objective_function=params_objective_function)
    self.sense_optim = self.params_objective_function.sense_function
    self.start_solution = None


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP.init_model")
def _(self, **kwargs):
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    use_cliques = kwargs.get('use_cliques', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedyColoring(self.coloring_problem, params_objective_function=self.params_objective_function)
        result_store = greedy_solver.solve(strategy=NXGreedyColoringMethod.best, verbose=verbose)
        self.start_solution = result_store.get_best_solution_fit()[0]
    else:
        if verbose:
            pass
        solution = self.coloring_problem.get_dummy_solution()
        self.start_solution = solution
    nb_colors = self.start_solution.nb_color
    color_model = Model('color')
    colors_var = {}
    range_node = self.nodes_name
    range_color = range(nb_colors)
    for node in self.nodes_name:
        for color in range_color:
            colors_var[node, color] = color_model.addVar(vtype=GRB.BINARY, obj=0, name='x_' + str((node, color)))
    one_color_constraints = {}
    for n in range_node:
        one_color_constraints[n] = color_model.addConstr(quicksum([colors_var[n, c] for c in range_color]) == 1)
    color_model.update()
    cliques = []
    g = self.graph.to_networkx()
    if use_cliques:
        for c in nx.algorithms.clique.find_cliques(g):
            cliques += [c]
        cliques = sorted(cliques, key=lambda x: len(x), reverse=True)
    else:
        cliques = [[e[0], e[1]] for e in g.edges()]
    cliques_constraint = {}
    index_c = 0
    opt = color_model.addVar(vtype=GRB.INTEGER, lb=0, ub=nb_colors, obj=1)
    if use_cliques:
        for c in cliques[:100]:
            cliques_constraint[index_c] = color_model.addConstr(quicksum([(color_i + 1) * colors_var[node, color_i] for node in c for color_i in range_color]) >= sum([i + 1 for i in range(len(c))]))
            cliques_constraint[index_c, 1] = color_model.addConstr(quicksum([colors_var[node, color_i] for node in c for color_i in range_color]) <= opt)
            index_c += 1
    edges = g.edges()
    constraints_neighbors = {}
    for e in edges:
        for c in range_color:
            constraints_neighbors[e[0], e[1], c] = color_model.addConstr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
    for n in range_node:
        color_model.addConstr(quicksum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
    color_model.update()
    color_model.modelSense = GRB.MINIMIZE
    color_model.setParam(GRB.Param.Threads, 8)
    color_model.setParam(GRB.Param.PoolSolutions, 10000)
    color_model.setParam(GRB.Param.Method, -1)
    color_model.setParam('MIPGapAbs', 0.001)
    color_model.setParam('MIPGap', 0.001)
    color_model.setParam('Heuristics', 0.01)
    self.model = color_model
    self.variable_decision = {'colors_var': colors_var}
    self.constraints_dict = {'one_color_constraints': one_color_constraints, 'constraints_neighbors': constraints_neighbors}
    self.description_variable_description = {'colors_var': {'shape': (self.number_of_nodes, nb_colors), 'type': bool, 'descr': 'for each node and each color, a binary indicator'}}
    self.description_constraint['one_color_constraints'] = {'descr': 'one and only one color should be assignated to a node'}
    self.description_constraint['constraints_neighbors'] = {'descr': 'no neighbors can have same color'}


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP.retrieve_solutions")
def _(self, parameters_milp):
    solution = [0] * self.number_of_nodes
    for key in self.variable_decision['colors_var']:
        value = self.variable_decision['colors_var'][key].getAttr('X')
        if value >= 0.5:
            node = key[0]
            color = key[1]
            solution[self.index_nodes_name[node]] = color
    color_solution = ColoringSolution(self.coloring_problem, solution)
    fit = self.aggreg_from_sol(color_solution)
    return ResultStorage(list_solution_fits=[(color_solution, fit)], best_solution=color_solution, mode_optim=self.sense_optim)


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP.solve")
def _(self, parameters_milp, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    self.model.setParam('TimeLimit', parameters_milp.TimeLimit)
    self.model.optimize()
    n_solutions = self.model.SolCount
    n_objectives = self.model.NumObj
    objective = self.model.getObjective().getValue()
    return self.retrieve_solutions(parameters_milp=parameters_milp)


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP_MIP.__init__")
def _(self, coloring_problem, params_objective_function, milp_solver_name=MilpSolverName.CBC):
    super().__init__(coloring_problem=coloring_problem, params_objective_function=params_objective_function)
    self.milp_solver_name = milp_solver_name
    self.solver_name = map_solver[self.milp_solver_name]


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP_MIP.init_model")
def _(self, **kwargs):
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    use_cliques = kwargs.get('use_cliques', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedyColoring(self.coloring_problem, params_objective_function=self.params_objective_function)
        result_store = greedy_solver.solve(strategy=NXGreedyColoringMethod.best, verbose=verbose)
        self.start_solution = result_store.get_best_solution_fit()[0]
    else:
        if verbose:
            pass
        solution = self.coloring_problem.get_dummy_solution()
        self.start_solution = solution
    nb_colors = self.start_solution.nb_color
    color_model = mip.Model('color', sense=mip.MINIMIZE, solver_name=self.solver_name)
    colors_var = {}
    range_node = self.nodes_name
    range_color = range(nb_colors)
    for node in self.nodes_name:
        for color in range_color:
            colors_var[node, color] = color_model.add_var(var_type=BINARY, obj=0, name='x_' + str((node, color)))
    one_color_constraints = {}
    for n in range_node:
        one_color_constraints[n] = color_model.add_constr(xsum([colors_var[n, c] for c in range_color]) == 1)
    cliques = []
    g = self.graph.to_networkx()
    if use_cliques:
        for c in nx.algorithms.clique.find_cliques(g):
            cliques += [c]
        cliques = sorted(cliques, key=lambda x: len(x), reverse=True)
    else:
        cliques = [[e[0], e[1]] for e in g.edges()]
    cliques_constraint = {}
    index_c = 0
    opt = color_model.add_var(var_type=INTEGER, lb=0, ub=nb_colors, obj=1)
    if use_cliques:
        for c in cliques[:100]:
            cliques_constraint[index_c] = color_model.add_constr(xsum([(color_i + 1) * colors_var[node, color_i] for node in c for color_i in range_color]) >= sum([i + 1 for i in range(len(c))]))
            cliques_constraint[index_c, 1] = color_model.add_constr(xsum([colors_var[node, color_i] for node in c for color_i in range_color]) <= opt)
            index_c += 1
    edges = g.edges()
    constraints_neighbors = {}
    for e in edges:
        for c in range_color:
            constraints_neighbors[e[0], e[1], c] = color_model.add_constr(colors_var[e[0], c] + colors_var[e[1], c] <= 1)
    for n in range_node:
        color_model.add_constr(xsum([(color_i + 1) * colors_var[n, color_i] for color_i in range_color]) <= opt)
    self.model = color_model
    self.variable_decision = {'colors_var': colors_var}
    self.constraints_dict = {'one_color_constraints': one_color_constraints, 'constraints_neighbors': constraints_neighbors}
    self.description_variable_description = {'colors_var': {'shape': (self.number_of_nodes, nb_colors), 'type': bool, 'descr': 'for each node and each color, a binary indicator'}}
    self.description_constraint['one_color_constraints'] = {'descr': 'one and only one color should be assignated to a node'}
    self.description_constraint['constraints_neighbors'] = {'descr': 'no neighbors can have same color'}


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP_MIP.retrieve_solutions")
def _(self, parameters_milp):
    solution = [0] * self.number_of_nodes
    for key in self.variable_decision['colors_var']:
        value = self.variable_decision['colors_var'][key].x
        if value >= 0.5:
            node = key[0]
            color = key[1]
            solution[self.index_nodes_name[node]] = color
    color_solution = ColoringSolution(self.coloring_problem, solution)
    fit = self.aggreg_from_sol(color_solution)
    return ResultStorage(list_solution_fits=[(color_solution, fit)], best_solution=color_solution, mode_optim=self.sense_optim)


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py", "ColoringLP_MIP.solve")
def _(self, parameters_milp, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    self.model.max_mip_gap = parameters_milp.MIPGap
    self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
    self.model.sol_pool_size = parameters_milp.PoolSolutions
    self.model.optimize(max_seconds=parameters_milp.TimeLimit, max_solutions=parameters_milp.n_solutions_max)
    n_solutions = self.model.num_solutions
    objective = self.model.objective_value
    return self.retrieve_solutions(parameters_milp=parameters_milp)


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "InitialColoring.__init__")
def _(self, problem, initial_method, params_objective_function):
    self.problem = problem
    self.initial_method = initial_method
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "InitialColoring.get_starting_solution")
def _(self):
    if self.initial_method == InitialColoringMethod.DUMMY:
        sol = self.problem.get_dummy_solution()
        fit = self.aggreg_sol(sol)
        return ResultStorage(list_solution_fits=[(sol, fit)], best_solution=sol, mode_optim=self.params_objective_function.sense_function)
    else:
        solver = GreedyColoring(color_problem=self.problem, params_objective_function=self.params_objective_function)
        return solver.solve()


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "ConstraintHandlerFixColorsGrb.__init__")
def _(self, problem, fraction_to_fix=0.9):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "ConstraintHandlerFixColorsGrb.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    subpart_color = set(random.sample(milp_solver.nodes_name, int(self.fraction_to_fix * milp_solver.number_of_nodes)))
    dict_color_fixed = {}
    dict_color_start = {}
    current_solution = result_storage.get_best_solution_fit()[0]
    max_color = max(current_solution.colors)
    for n in milp_solver.nodes_name:
        dict_color_start[n] = current_solution.colors[milp_solver.index_nodes_name[n]]
        if n in subpart_color and dict_color_start[n] <= max_color - 1:
            dict_color_fixed[n] = dict_color_start[n]
    colors_var = milp_solver.variable_decision['colors_var']
    lns_constraint = {}
    for key in colors_var:
        n, c = key
        if c == dict_color_start[n]:
            colors_var[n, c].start = 1
            colors_var[n, c].varhintval = 1
        else:
            colors_var[n, c].start = 0
            colors_var[n, c].varhintval = 0
        if n in dict_color_fixed:
            if c == dict_color_fixed[n]:
                lns_constraint[n, c] = milp_solver.model.addConstr(colors_var[key] == 1, name=str((n, c)))
            else:
                lns_constraint[n, c] = milp_solver.model.addConstr(colors_var[key] == 0, name=str((n, c)))
    return lns_constraint


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "ConstraintHandlerFixColorsGrb.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    for k in previous_constraints:
        milp_solver.model.remove(previous_constraints[k])
    milp_solver.model.update()


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "ConstraintHandlerFixColorsPyMip.__init__")
def _(self, problem, fraction_to_fix=0.9):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "ConstraintHandlerFixColorsPyMip.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    subpart_color = set(random.sample(milp_solver.nodes_name, int(self.fraction_to_fix * milp_solver.number_of_nodes)))
    dict_color_fixed = {}
    dict_color_start = {}
    current_solution = result_storage.get_best_solution_fit()[0]
    max_color = max(current_solution.colors)
    for n in milp_solver.nodes_name:
        dict_color_start[n] = current_solution.colors[milp_solver.index_nodes_name[n]]
        if n in subpart_color and dict_color_start[n] <= max_color - 1:
            dict_color_fixed[n] = dict_color_start[n]
    colors_var = milp_solver.variable_decision['colors_var']
    lns_constraint = {}
    start = []
    for key in colors_var:
        n, c = key
        if c == dict_color_start[n]:
            start += [(colors_var[n, c], 1)]
        else:
            start += [(colors_var[n, c], 0)]
        if n in dict_color_fixed:
            if c == dict_color_fixed[n]:
                lns_constraint[n, c] = milp_solver.model.add_constr(colors_var[key] == 1, name=str((n, c)))
            else:
                lns_constraint[n, c] = milp_solver.model.add_constr(colors_var[key] == 0, name=str((n, c)))
    milp_solver.model.start = start
    if milp_solver.milp_solver_name == MilpSolverName.GRB:
        milp_solver.model.solver.update()
    return lns_constraint


@spec("builders/discrete_optimization/coloring/solvers/coloring_lp_lns_solvers.py", "ConstraintHandlerFixColorsPyMip.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove([previous_constraints[k] for k in previous_constraints])
    if milp_solver.milp_solver_name == MilpSolverName.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/coloring/solvers/greedy_coloring.py", "GreedyColoring.__init__")
def _(self, color_problem, params_objective_function=None):
    self.color_problem = color_problem
    self.nx_graph = self.color_problem.graph.to_networkx()
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.color_problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/coloring/solvers/greedy_coloring.py", "GreedyColoring.solve")
def _(self, **kwargs):
    strategy = kwargs.get('strategy', NXGreedyColoringMethod.best)
    verbose = kwargs.get('verbose', False)
    strategy_name = strategy.value
    if strategy_name == 'best':
        strategies_to_test = strategies
    else:
        strategies_to_test = [strategy_name]
    best_solution = None
    best_nb_color = float('inf')
    for strategy in strategies_to_test:
        try:
            colors = nx.algorithms.coloring.greedy_color(self.nx_graph, strategy=strategy, interchange=False)
            sorted_nodes = sorted(list(colors.keys()))
            number_colors = len(set(list(colors.values())))
            solution = [colors[i] for i in sorted_nodes]
            if verbose:
                pass
            if number_colors < best_nb_color:
                best_solution = solution
                best_nb_color = number_colors
        except Exception as e:
            pass
    if verbose:
        pass
    solution = ColoringSolution(self.color_problem, colors=best_solution, nb_color=None)
    solution = solution.to_reformated_solution()
    fit = self.aggreg_sol(solution)
    if verbose:
        pass
    return ResultStorage(list_solution_fits=[(solution, fit)], best_solution=solution, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilitySolution.__init__")
def _(self, problem, facility_for_customers, dict_details=None):
    self.problem = problem
    self.facility_for_customers = facility_for_customers
    self.dict_details = dict_details


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilitySolution.copy")
def _(self):
    return FacilitySolution(self.problem, facility_for_customers=list(self.facility_for_customers), dict_details=deepcopy(self.dict_details))


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilitySolution.lazy_copy")
def _(self):
    return FacilitySolution(self.problem, facility_for_customers=self.facility_for_customers, dict_details=self.dict_details)


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilitySolution.change_problem")
def _(self, new_problem):
    self.__init__(problem=new_problem, facility_for_customers=list(self.facility_for_customers))


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.__init__")
def _(self, facility_count, customer_count, facilities, customers):
    self.facility_count = facility_count
    self.customer_count = customer_count
    self.facilities = facilities
    self.customers = customers


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.evaluate")
def _(self, variable):
    if variable.dict_details is not None:
        return variable.dict_details
    d = self.evaluate_cost(variable)
    capacity_constraint_violation = 0
    for f in d['details']:
        capacity_constraint_violation += max(d['details'][f]['capacity_used'] - self.facilities[f].capacity, 0)
    d['capacity_constraint_violation'] = capacity_constraint_violation
    return d


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    kp_sol = None
    if encoding_name == 'facility_for_customers':
        kp_sol = FacilitySolution(problem=self, facility_for_customers=int_vector)
    elif encoding_name == 'custom':
        kwargs = {encoding_name: int_vector, 'problem': self}
        kp_sol = FacilitySolution(**kwargs)
    objectives = self.evaluate(kp_sol)
    return objectives


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.evaluate_cost")
def _(self, variable):
    facility_details = {}
    cost = 0.0
    setup_cost = 0.0
    for i in range(self.customer_count):
        f = variable.facility_for_customers[i]
        if f not in facility_details:
            facility_details[f] = {'capacity_used': 0.0, 'customers': set(), 'cost': 0.0, 'setup_cost': self.facilities[f].setup_cost}
            setup_cost += facility_details[f]['setup_cost']
        facility_details[f]['capacity_used'] += self.customers[i].demand
        facility_details[f]['customers'].add(i)
        c = self.evaluate_customer_facility(facility=self.facilities[f], customer=self.customers[i])
        facility_details[f]['cost'] += c
        cost += c
    return {'cost': cost, 'setup_cost': setup_cost, 'details': facility_details}


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.satisfy")
def _(self, variable):
    d = self.evaluate(variable)
    return d['capacity_constraint_violation'] == 0.0


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.get_attribute_register")
def _(self):
    dict_register = dict()
    dict_register['facility_for_customers'] = {'name': 'facility_for_customers', 'type': [TypeAttribute.LIST_INTEGER], 'n': self.customer_count, 'arrity': self.facility_count}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.get_dummy_solution")
def _(self):
    return FacilitySolution(self, [0] * self.customer_count)


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.get_solution_type")
def _(self):
    return FacilitySolution


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem.get_objective_register")
def _(self):
    dict_objective = {'cost': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}, 'setup_cost': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}, 'capacity_constraint_violation': {'type': TypeObjective.OBJECTIVE, 'default_weight': -10000}}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.AGGREGATE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/facility/facility_model.py", "length")
def _(point1, point2):
    return math.sqrt((point1.x - point2.x) ** 2 + (point1.y - point2.y) ** 2)


@spec("builders/discrete_optimization/facility/facility_model.py", "FacilityProblem2DPoints.evaluate_customer_facility")
def _(self, facility, customer):
    return length(facility.location, customer.location)


@spec("builders/discrete_optimization/facility/facility_parser.py", "parse")
def _(input_data):
    lines = input_data.split('\n')
    parts = lines[0].split()
    facility_count = int(parts[0])
    customer_count = int(parts[1])
    facilities = []
    for i in range(1, facility_count + 1):
        parts = lines[i].split()
        facilities.append(Facility(i - 1, float(parts[0]), int(parts[1]), Point(float(parts[2]), float(parts[3]))))
    customers = []
    for i in range(facility_count + 1, facility_count + 1 + customer_count):
        parts = lines[i].split()
        customers.append(Customer(i - 1 - facility_count, int(parts[0]), Point(float(parts[1]), float(parts[2]))))
    problem = FacilityProblem2DPoints(facility_count, customer_count, facilities, customers)
    return problem


@spec("builders/discrete_optimization/facility/facility_parser.py", "parse_file")
def _(file_path):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        facility_model = parse(input_data)
        return facility_model


@spec("builders/discrete_optimization/facility/solvers/greedy_solvers.py", "GreedySolverFacility.__init__")
def _(self, facility_problem, params_objective_function=None):
    self.facility_problem = facility_problem
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.facility_problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/facility/solvers/greedy_solvers.py", "GreedySolverFacility.solve")
def _(self, **kwargs):
    solution = [-1] * self.facility_problem.customer_count
    capacity_remaining = [f.capacity for f in self.facility_problem.facilities]
    facility_index = 0
    for index in range(len(self.facility_problem.customers)):
        customer = self.facility_problem.customers[index]
        while capacity_remaining[facility_index] < customer.demand:
            facility_index += 1
        solution[index] = facility_index
        capacity_remaining[facility_index] -= customer.demand
    sol = FacilitySolution(problem=self.facility_problem, facility_for_customers=solution)
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], best_solution=sol, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "compute_length_matrix")
def _(facility_problem):
    facilities = facility_problem.facilities
    customers = facility_problem.customers
    nb_facilities = len(facilities)
    nb_customers = len(customers)
    matrix_distance = np.zeros((nb_facilities, nb_customers))
    costs = np.array([facilities[f].setup_cost for f in range(nb_facilities)])
    for f in range(nb_facilities):
        for c in range(nb_customers):
            matrix_distance[f, c] = facility_problem.evaluate_customer_facility(facilities[f], customers[c])
    closest = np.argsort(matrix_distance, axis=0)
    return (costs, closest, matrix_distance)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "prune_search_space")
def _(facility_problem, n_cheapest=10, n_shortest=10):
    costs, closest, matrix_distance = compute_length_matrix(facility_problem)
    sorted_costs = np.argsort(costs)
    facilities = facility_problem.facilities
    customers = facility_problem.customers
    nb_facilities = len(facilities)
    nb_customers = len(customers)
    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
    matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
    for c in range(nb_customers):
        matrix_fc_indicator[closest[:n_shortest, c], c] = 2
    return (matrix_fc_indicator, matrix_distance)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.__init__")
def _(self, facility_problem, params_objective_function):
    self.facility_problem = facility_problem
    self.model = None
    self.variable_decision = {}
    self.constraints_dict = {}
    self.description_variable_description = {}
    self.description_constraint = {}
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.facility_problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.init_model")
def _(self, **kwargs):
    nb_facilities = self.facility_problem.facility_count
    nb_customers = self.facility_problem.customer_count
    use_matrix_indicator_heuristic = kwargs.get('use_matrix_indicator_heuristic', True)
    if use_matrix_indicator_heuristic:
        n_shortest = kwargs.get('n_shortest', 10)
        n_cheapest = kwargs.get('n_cheapest', 10)
        matrix_fc_indicator, matrix_length = prune_search_space(self.facility_problem, n_cheapest=n_cheapest, n_shortest=n_shortest)
    else:
        matrix_fc_indicator, matrix_length = prune_search_space(self.facility_problem, n_cheapest=nb_facilities, n_shortest=nb_facilities)
    s = Model('facilities')
    x = {}
    for f in range(nb_facilities):
        for c in range(nb_customers):
            if matrix_fc_indicator[f, c] == 0:
                x[f, c] = 0
            elif matrix_fc_indicator[f, c] == 1:
                x[f, c] = 1
            elif matrix_fc_indicator[f, c] == 2:
                x[f, c] = s.addVar(vtype=GRB.BINARY, obj=0, name='x_' + str((f, c)))
    facilities = self.facility_problem.facilities
    customers = self.facility_problem.customers
    used = s.addVars(nb_facilities, vtype=GRB.BINARY, name='y')
    constraints_customer = {}
    for c in range(nb_customers):
        constraints_customer[c] = s.addConstr(quicksum([x[f, c] for f in range(nb_facilities)]) == 1)
    constraint_capacity = {}
    for f in range(nb_facilities):
        s.addConstrs((used[f] >= x[f, c] for c in range(nb_customers)))
        constraint_capacity[f] = s.addConstr(quicksum([x[f, c] * customers[c].demand for c in range(nb_customers)]) <= facilities[f].capacity)
    s.update()
    new_obj_f = LinExpr(0.0)
    new_obj_f += quicksum([facilities[f].setup_cost * used[f] for f in range(nb_facilities)])
    new_obj_f += quicksum([matrix_length[f, c] * x[f, c] for f in range(nb_facilities) for c in range(nb_customers)])
    s.setObjective(new_obj_f)
    s.update()
    s.modelSense = GRB.MINIMIZE
    s.setParam(GRB.Param.Threads, 4)
    s.setParam(GRB.Param.PoolSolutions, 10000)
    s.setParam(GRB.Param.Method, 1)
    s.setParam('MIPGapAbs', 1e-05)
    s.setParam('MIPGap', 1e-08)
    self.model = s
    self.variable_decision = {'x': x}
    self.constraints_dict = {'constraint_customer': constraints_customer, 'constraint_capacity': constraint_capacity}
    self.description_variable_description = {'x': {'shape': (nb_facilities, nb_customers), 'type': bool, 'descr': 'for each facility/customer indicate if the pair is active, meaning that the customer c is dealt with facility f'}}
    self.description_constraint = {'Im lazy.'}


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.retrieve")
def _(self):
    solution = [0] * self.facility_problem.customer_count
    for key in self.variable_decision['x']:
        try:
            value = self.variable_decision['x'][key].getAttr('X')
        except:
            value = self.variable_decision['x'][key]
        if value >= 0.5:
            f = key[0]
            c = key[1]
            solution[c] = f
    facility_solution = FacilitySolution(self.facility_problem, solution)
    fit = self.facility_problem.evaluate(facility_solution)
    return (facility_solution, fit)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.solve")
def _(self, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 1000)
    self.model.setParam('TimeLimit', limit_time_s)
    self.model.optimize()
    nSolutions = self.model.SolCount
    nObjectives = self.model.NumObj
    objective = self.model.getObjective().getValue()
    return self.retrieve()


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.fix_decision_fo_customer")
def _(self, current_solution, fraction_to_fix=0.9):
    subpart_customer = set(random.sample(range(self.facility_problem.customer_count), int(fraction_to_fix * self.facility_problem.customer_count)))
    dict_f_fixed = {}
    dict_f_start = {}
    for c in range(self.facility_problem.customer_count):
        dict_f_start[c] = current_solution.facility_for_customers[c]
        if c in subpart_customer:
            dict_f_fixed[c] = dict_f_start[c]
    x_var = self.variable_decision['x']
    lns_constraint = {}
    for key in x_var:
        f, c = key
        if f == dict_f_start[c]:
            try:
                x_var[f, c].start = 1
                x_var[f, c].varhintval = 1
            except:
                pass
        else:
            try:
                x_var[f, c].start = 0
                x_var[f, c].varhintval = 0
            except:
                pass
        if c in dict_f_fixed:
            if f == dict_f_fixed[c]:
                try:
                    lns_constraint[f, c] = self.model.addConstr(x_var[key] == 1, name=str((f, c)))
                except:
                    pass
            else:
                try:
                    lns_constraint[f, c] = self.model.addConstr(x_var[key] == 0, name=str((f, c)))
                except:
                    pass
    self.constraints_dict['lns'] = lns_constraint


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.fix_decision")
def _(self, current_solution, fraction_to_fix=0.9):
    self.fix_decision_fo_customer(current_solution, fraction_to_fix)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.remove_lns_constraint")
def _(self):
    for k in self.constraints_dict['lns']:
        self.model.remove(self.constraints_dict['lns'][k])


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver.solve_lns")
def _(self, fraction_to_fix_first_iter=0.0, fraction_to_fix=0.9, nb_iteration=10, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedySolverFacility(self.facility_problem)
        solution, f = greedy_solver.solve().get_best_solution_fit()
        self.start_solution = solution
    else:
        if verbose:
            pass
        solution = self.facility_problem.get_dummy_solution()
        self.start_solution = solution
    current_solution = self.start_solution
    fit = self.facility_problem.evaluate(current_solution)
    for i in range(nb_iteration):
        self.fix_decision(current_solution, fraction_to_fix if i > 0 else fraction_to_fix_first_iter)
        cur_sol, fit = self.solve(**kwargs)
        self.remove_lns_constraint()
        current_solution = cur_sol
    return (current_solution, fit)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.__init__")
def _(self, facility_problem, params_objective_function):
    self.facility_problem = facility_problem
    self.model = None
    self.variable_decision = {}
    self.constraints_dict = {}
    self.description_variable_description = {}
    self.description_constraint = {}


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.init_model")
def _(self, **kwargs):
    nb_facilities = self.facility_problem.facility_count
    nb_customers = self.facility_problem.customer_count
    use_matrix_indicator_heuristic = kwargs.get('use_matrix_indicator_heuristic', True)
    if use_matrix_indicator_heuristic:
        n_shortest = kwargs.get('n_shortest', 10)
        n_cheapest = kwargs.get('n_cheapest', 10)
        matrix_fc_indicator, matrix_length = prune_search_space(self.facility_problem, n_cheapest=n_cheapest, n_shortest=n_shortest)
    else:
        matrix_fc_indicator, matrix_length = prune_search_space(self.facility_problem, n_cheapest=nb_facilities, n_shortest=nb_facilities)
    s = pywraplp.Solver('facility', pywraplp.Solver.CBC_MIXED_INTEGER_PROGRAMMING)
    x = {}
    for f in range(nb_facilities):
        for c in range(nb_customers):
            if matrix_fc_indicator[f, c] == 0:
                x[f, c] = 0
            elif matrix_fc_indicator[f, c] == 1:
                x[f, c] = 1
            elif matrix_fc_indicator[f, c] == 2:
                x[f, c] = s.BoolVar(name='x_' + str((f, c)))
    facilities = self.facility_problem.facilities
    customers = self.facility_problem.customers
    used = [s.BoolVar(name='y_' + str(j)) for j in range(self.facility_problem.facility_count)]
    constraints_customer = {}
    for c in range(nb_customers):
        constraints_customer[c] = s.Add(s.Sum([x[f, c] for f in range(nb_facilities)]) == 1)
    constraint_capacity = {}
    for f in range(nb_facilities):
        for c in range(nb_customers):
            s.Add(used[f] >= x[f, c])
        constraint_capacity[f] = s.Add(s.Sum([x[f, c] * customers[c].demand for c in range(nb_customers)]) <= facilities[f].capacity)
    obj = s.Sum([facilities[f].setup_cost * used[f] for f in range(nb_facilities)] + [matrix_length[f, c] * x[f, c] for f in range(nb_facilities) for c in range(nb_customers)])
    s.Minimize(obj)
    self.model = s
    self.variable_decision = {'x': x}
    self.constraints_dict = {'constraint_customer': constraints_customer, 'constraint_capacity': constraint_capacity}
    self.description_variable_description = {'x': {'shape': (nb_facilities, nb_customers), 'type': bool, 'descr': 'for each facility/customer indicate if the pair is active, meaning that the customer c is dealt with facility f'}}
    self.description_constraint = {'Im lazy.'}


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.retrieve")
def _(self):
    solution = [0] * self.facility_problem.customer_count
    for key in self.variable_decision['x']:
        try:
            value = self.variable_decision['x'][key].solution_value()
        except:
            value = self.variable_decision['x'][key]
        if value >= 0.5:
            f = key[0]
            c = key[1]
            solution[c] = f
    facility_solution = FacilitySolution(self.facility_problem, solution)
    fit = self.facility_problem.evaluate(facility_solution)
    return (facility_solution, fit)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.solve")
def _(self, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 1000)
    self.model.SetTimeLimit(limit_time_s * 1000)
    res = self.model.Solve()
    resdict = {0: 'OPTIMAL', 1: 'FEASIBLE', 2: 'INFEASIBLE', 3: 'UNBOUNDED', 4: 'ABNORMAL', 5: 'MODEL_INVALID', 6: 'NOT_SOLVED'}
    objective = self.model.Objective().Value()
    return self.retrieve()


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.fix_decision_fo_customer")
def _(self, current_solution, fraction_to_fix=0.9):
    subpart_customer = set(random.sample(range(self.facility_problem.customer_count), int(fraction_to_fix * self.facility_problem.customer_count)))
    dict_f_fixed = {}
    dict_f_start = {}
    for c in range(self.facility_problem.customer_count):
        dict_f_start[c] = current_solution.facility_for_customers[c]
        if c in subpart_customer:
            dict_f_fixed[c] = dict_f_start[c]
    x_var = self.variable_decision['x']
    lns_constraint = {}
    for key in x_var:
        f, c = key
        if f == dict_f_start[c]:
            try:
                self.model.SetHint([x_var[f, c]], [1])
            except:
                pass
        else:
            try:
                self.model.SetHint([x_var[f, c]], [0])
            except:
                pass
        if c in dict_f_fixed:
            if f == dict_f_fixed[c]:
                try:
                    lns_constraint[f, c] = self.model.Add(x_var[key] == 1)
                except:
                    pass
            else:
                try:
                    lns_constraint[f, c] = self.model.Add(x_var[key] == 0)
                except:
                    pass
    self.constraints_dict['lns'] = lns_constraint


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.fix_decision")
def _(self, current_solution, fraction_to_fix=0.9):
    self.fix_decision_fo_customer(current_solution, fraction_to_fix)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.remove_lns_constraint")
def _(self):
    for k in self.constraints_dict['lns']:
        self.model.remove(self.constraints_dict['lns'][k])


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_CBC.solve_lns")
def _(self, fraction_to_fix_first_iter=0.0, fraction_to_fix=0.9, nb_iteration=10, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedySolverFacility(self.facility_problem)
        solution, f = greedy_solver.solve().get_best_solution_fit()
        self.start_solution = solution
    else:
        if verbose:
            pass
        solution = self.facility_problem.get_dummy_solution()
        self.start_solution = solution
    current_solution = self.start_solution
    fit = self.facility_problem.evaluate(current_solution)
    for i in range(nb_iteration):
        self.fix_decision(current_solution, fraction_to_fix if i > 0 else fraction_to_fix_first_iter)
        cur_sol, fit = self.solve(**kwargs)
        self.remove_lns_constraint()
        current_solution = cur_sol
    return (current_solution, fit)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.__init__")
def _(self, facility_problem, milp_solver_name, params_objective_function):
    super().__init__(facility_problem=facility_problem, params_objective_function=params_objective_function)
    self.model = None
    self.milp_solver_name = milp_solver_name
    self.solver_name = map_solver[milp_solver_name]


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.init_model")
def _(self, **kwargs):
    nb_facilities = self.facility_problem.facility_count
    nb_customers = self.facility_problem.customer_count
    use_matrix_indicator_heuristic = kwargs.get('use_matrix_indicator_heuristic', True)
    if use_matrix_indicator_heuristic:
        n_shortest = kwargs.get('n_shortest', 10)
        n_cheapest = kwargs.get('n_cheapest', 10)
        matrix_fc_indicator, matrix_length = prune_search_space(self.facility_problem, n_cheapest=n_cheapest, n_shortest=n_shortest)
    else:
        matrix_fc_indicator, matrix_length = prune_search_space(self.facility_problem, n_cheapest=nb_facilities, n_shortest=nb_facilities)
    s = mip.Model(name='facilities', sense=mip.MINIMIZE, solver_name=self.solver_name)
    x = {}
    for f in range(nb_facilities):
        for c in range(nb_customers):
            if matrix_fc_indicator[f, c] == 0:
                x[f, c] = 0
            elif matrix_fc_indicator[f, c] == 1:
                x[f, c] = 1
            elif matrix_fc_indicator[f, c] == 2:
                x[f, c] = s.add_var(var_type=mip.BINARY, obj=0, name='x_' + str((f, c)))
    facilities = self.facility_problem.facilities
    customers = self.facility_problem.customers
    used = s.add_var_tensor((nb_facilities, 1), var_type=GRB.BINARY, name='y')
    constraints_customer = {}
    for c in range(nb_customers):
        constraints_customer[c] = s.add_constr(mip.xsum([x[f, c] for f in range(nb_facilities)]) == 1)
    constraint_capacity = {}
    for f in range(nb_facilities):
        for c in range(nb_customers):
            s.add_constr(used[f, 0] >= x[f, c])
        constraint_capacity[f] = s.add_constr(mip.xsum([x[f, c] * customers[c].demand for c in range(nb_customers)]) <= facilities[f].capacity)
    new_obj_f = mip.LinExpr(const=0.0)
    new_obj_f.add_expr(mip.xsum([facilities[f].setup_cost * used[f, 0] for f in range(nb_facilities)]))
    new_obj_f.add_expr(mip.xsum([matrix_length[f, c] * x[f, c] for f in range(nb_facilities) for c in range(nb_customers)]))
    s.objective = new_obj_f
    self.model = s
    self.variable_decision = {'x': x}
    self.constraints_dict = {'constraint_customer': constraints_customer, 'constraint_capacity': constraint_capacity}
    self.description_variable_description = {'x': {'shape': (nb_facilities, nb_customers), 'type': bool, 'descr': 'for each facility/customer indicate if the pair is active, meaning that the customer c is dealt with facility f'}}
    self.description_constraint = {'Im lazy.'}


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.solve")
def _(self, parameters_milp, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    self.model.max_mip_gap_abs = parameters_milp.MIPGapAbs
    self.model.max_mip_gap = parameters_milp.MIPGap
    self.model.optimize(max_solutions=parameters_milp.n_solutions_max, max_seconds=parameters_milp.TimeLimit)
    nSolutions = self.model.num_solutions
    objective = self.model.objective_value
    return self.retrieve_solutions(parameters_milp)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.retrieve_solutions")
def _(self, parameters_milp):
    solution = [0] * self.facility_problem.customer_count
    for key in self.variable_decision['x']:
        try:
            value = self.variable_decision['x'][key].x
        except:
            value = self.variable_decision['x'][key]
        if value >= 0.5:
            f = key[0]
            c = key[1]
            solution[c] = f
    facility_solution = FacilitySolution(self.facility_problem, solution)
    result_store = ResultStorage(list_solution_fits=[(facility_solution, self.aggreg_sol(facility_solution))], best_solution=facility_solution, mode_optim=self.params_objective_function.sense_function)
    return result_store


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.fix_decision_fo_customer")
def _(self, current_solution, fraction_to_fix=0.9):
    subpart_customer = set(random.sample(range(self.facility_problem.customer_count), int(fraction_to_fix * self.facility_problem.customer_count)))
    dict_f_fixed = {}
    dict_f_start = {}
    for c in range(self.facility_problem.customer_count):
        dict_f_start[c] = current_solution.facility_for_customers[c]
        if c in subpart_customer:
            dict_f_fixed[c] = dict_f_start[c]
    x_var = self.variable_decision['x']
    lns_constraint = {}
    for key in x_var:
        f, c = key
        if f == dict_f_start[c]:
            try:
                x_var[f, c].start = 1
                x_var[f, c].varhintval = 1
            except:
                pass
        else:
            try:
                x_var[f, c].start = 0
                x_var[f, c].varhintval = 0
            except:
                pass
        if c in dict_f_fixed:
            if f == dict_f_fixed[c]:
                try:
                    lns_constraint[f, c] = self.model.addConstr(x_var[key] == 1, name=str((f, c)))
                except:
                    pass
            else:
                try:
                    lns_constraint[f, c] = self.model.addConstr(x_var[key] == 0, name=str((f, c)))
                except:
                    pass
    self.constraints_dict['lns'] = lns_constraint


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.fix_decision")
def _(self, current_solution, fraction_to_fix=0.9):
    self.fix_decision_fo_customer(current_solution, fraction_to_fix)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.remove_lns_constraint")
def _(self):
    for k in self.constraints_dict['lns']:
        self.model.remove(self.constraints_dict['lns'][k])


@spec("builders/discrete_optimization/facility/solvers/facility_lp_solver.py", "LP_Facility_Solver_PyMip.solve_lns")
def _(self, fraction_to_fix_first_iter=0.0, fraction_to_fix=0.9, nb_iteration=10, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedySolverFacility(self.facility_problem)
        solution, f = greedy_solver.solve().get_best_solution_fit()
        self.start_solution = solution
    else:
        if verbose:
            pass
        solution = self.facility_problem.get_dummy_solution()
        self.start_solution = solution
    current_solution = self.start_solution
    fit = self.facility_problem.evaluate(current_solution)
    for i in range(nb_iteration):
        self.fix_decision(current_solution, fraction_to_fix if i > 0 else fraction_to_fix_first_iter)
        cur_sol, fit = self.solve(**kwargs)
        self.remove_lns_constraint()
        current_solution = cur_sol
    return (current_solution, fit)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py", "InitialFacilitySolution.__init__")
def _(self, problem, initial_method, params_objective_function):
    self.problem = problem
    self.initial_method = initial_method
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py", "InitialFacilitySolution.get_starting_solution")
def _(self):
    if self.initial_method == InitialFacilityMethod.GREEDY:
        greedy_solver = GreedySolverFacility(self.problem, params_objective_function=self.params_objective_function)
        return greedy_solver.solve()
    else:
        solution = self.problem.get_dummy_solution()
        fit = self.aggreg_sol(solution)
        return ResultStorage(list_solution_fits=[(solution, fit)], best_solution=solution, mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py", "ConstraintHandlerFacility.__init__")
def _(self, problem, fraction_to_fix=0.9, skip_first_iter=True):
    self.problem = problem
    self.fraction_to_fix = fraction_to_fix
    self.iter = 0
    self.skip_first_iter = skip_first_iter


@spec("builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py", "ConstraintHandlerFacility.adding_constraint_from_results_store")
def _(self, milp_solver, result_storage):
    if self.iter == 0 and self.skip_first_iter:
        self.iter += 1
        return {}
    subpart_customer = set(random.sample(range(self.problem.customer_count), int(self.fraction_to_fix * self.problem.customer_count)))
    current_solution = result_storage.get_best_solution_fit()[0]
    dict_f_fixed = {}
    dict_f_start = {}
    start = []
    for c in range(self.problem.customer_count):
        dict_f_start[c] = current_solution.facility_for_customers[c]
        if c in subpart_customer:
            dict_f_fixed[c] = dict_f_start[c]
    x_var = milp_solver.variable_decision['x']
    lns_constraint = {}
    for key in x_var:
        f, c = key
        if f == dict_f_start[c]:
            if isinstance(x_var[f, c], mip.Var):
                start += [(x_var[f, c], 1)]
        elif isinstance(x_var[f, c], mip.Var):
            start += [(x_var[f, c], 0)]
        if c in dict_f_fixed:
            if f == dict_f_fixed[c]:
                if isinstance(x_var[f, c], mip.Var):
                    lns_constraint[f, c] = milp_solver.model.add_constr(x_var[key] == 1, name=str((f, c)))
            elif isinstance(x_var[f, c], mip.Var):
                lns_constraint[f, c] = milp_solver.model.add_constr(x_var[key] == 0, name=str((f, c)))
    if milp_solver.milp_solver_name == MilpSolverName.GRB:
        milp_solver.model.solver.update()
    milp_solver.model.start = start
    return lns_constraint


@spec("builders/discrete_optimization/facility/solvers/facility_lp_lns_solver.py", "ConstraintHandlerFacility.remove_constraints_from_previous_iteration")
def _(self, milp_solver, previous_constraints):
    milp_solver.model.remove([previous_constraints[k] for k in previous_constraints])
    if milp_solver.milp_solver_name == MilpSolverName.GRB:
        milp_solver.model.solver.update()


@spec("builders/discrete_optimization/facility/solvers/facility_cp_solvers.py", "FacilityCP.__init__")
def _(self, facility_problem, params_objective_function):
    self.facility_problem = facility_problem
    self.params_objective_function = params_objective_function
    if self.params_objective_function is None:
        self.params_objective_function = get_default_objective_setup(self.facility_problem)
    _, self.aggreg = build_evaluate_function_aggregated(problem=self.facility_problem, params_objective_function=self.params_objective_function)
    self.model = None
    self.instance = None


@spec("builders/discrete_optimization/facility/solvers/facility_cp_solvers.py", "FacilityCP.init_model")
def _(self, **kwargs):
    verbose = kwargs.get('verbose', False)
    model_type = kwargs.get('cp_model', FacilityCPModel.DEFAULT_INT)
    path = os.path.join(path_minizinc, file_dict[model_type])
    self.model = Model(path)
    solver = Solver.lookup('chuffed')
    instance = Instance(solver, self.model)
    instance['nb_facilities'] = self.facility_problem.facility_count
    instance['nb_customers'] = self.facility_problem.customer_count
    setup_costs, closests, distances = compute_length_matrix(self.facility_problem)
    if model_type in [FacilityCPModel.DEFAULT_INT, FacilityCPModel.DEFAULT_INT_LNS]:
        distances = [[int(distances[f, c]) for c in range(distances.shape[1])] for f in range(distances.shape[0])]
        instance['distance'] = distances
        instance['setup_cost_vector'] = [int(s) for s in setup_costs]
        instance['demand'] = [int(self.facility_problem.customers[c].demand) for c in range(self.facility_problem.customer_count)]
        instance['capacity'] = [int(self.facility_problem.facilities[f].capacity) for f in range(self.facility_problem.facility_count)]
    else:
        distances = [[distances[f, c] for c in range(distances.shape[1])] for f in range(distances.shape[0])]
        instance['distance'] = distances
        instance['setup_cost_vector'] = [s for s in setup_costs]
        instance['demand'] = [self.facility_problem.customers[c].demand for c in range(self.facility_problem.customer_count)]
        instance['capacity'] = [self.facility_problem.facilities[f].capacity for f in range(self.facility_problem.facility_count)]
    self.instance = instance


@spec("builders/discrete_optimization/facility/solvers/facility_cp_solvers.py", "FacilityCP.solve")
def _(self, **kwargs):
    if self.model is None:
        self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 100)
    result = self.instance.solve(timeout=timedelta(seconds=limit_time_s))
    opt = result.status
    facility_sol = FacilitySolution(self.facility_problem, [f - 1 for f in result['facility_for_customer']])
    fit = self.facility_problem.evaluate(facility_sol)
    return (facility_sol, fit)


@spec("builders/discrete_optimization/facility/solvers/facility_cp_solvers.py", "FacilityCP.get_solution")
def _(self, **kwargs):
    greedy_start = kwargs.get('greedy_start', True)
    verbose = kwargs.get('verbose', False)
    if greedy_start:
        if verbose:
            pass
        greedy_solver = GreedySolverFacility(self.facility_problem)
        solution, f = greedy_solver.solve().get_best_solution_fit()
    else:
        if verbose:
            pass
        solution = self.facility_problem.get_dummy_solution()
    return solution


@spec("builders/discrete_optimization/facility/solvers/facility_cp_solvers.py", "FacilityCP.solve_lns")
def _(self, fraction_to_fix=0.9, nb_iteration=10, **kwargs):
    first_solution = self.get_solution(**kwargs)
    dict_color = {i + 1: first_solution.facility_for_customers[i] + 1 for i in range(self.facility_problem.customer_count)}
    self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 100)
    range_node = range(1, self.facility_problem.customer_count + 1)
    iteration = 0
    current_solution = first_solution
    current_best_solution = current_solution.copy()
    current_objective = self.aggreg(self.facility_problem.evaluate(current_best_solution))
    while iteration < nb_iteration:
        with self.instance.branch() as child:
            subpart_color = set(random.sample(range_node, int(fraction_to_fix * self.facility_problem.customer_count)))
            for i in range_node:
                if i in subpart_color:
                    child.add_string('constraint facility_for_customer[' + str(i) + '] == ' + str(dict_color[i]) + ';\n')
            child.add_string(f'solve :: int_search(facility_for_customer, input_order, indomain_min, complete) minimize(objective);\n')
            res = child.solve(timeout=timedelta(seconds=limit_time_s))
            if res.solution is not None and -res['objective'] > current_objective:
                current_objective = -res['objective']
                current_best_solution = FacilitySolution(self.facility_problem, [f - 1 for f in res['facility_for_customer']])
                fit = self.facility_problem.evaluate(current_best_solution)
                dict_color = {i + 1: current_best_solution.facility_for_customers[i] + 1 for i in range(self.facility_problem.customer_count)}
            else:
                try:
                    pass
                except:
                    pass
            iteration += 1
    fit = self.facility_problem.evaluate(current_best_solution)
    return (current_best_solution, fit)
