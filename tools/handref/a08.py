DO = "builders/discrete_optimization/"
PM = DO + "generic_tools/mutations/permutation_mutations.py"
BM = DO + "generic_tools/mutations/mutation_bool.py"
IM = DO + "generic_tools/mutations/mutation_integer.py"
MX = DO + "generic_tools/mutations/mixed_mutation.py"
LS = DO + "generic_tools/ls/local_search.py"
HC = DO + "generic_tools/ls/hill_climber.py"
SA = DO + "generic_tools/ls/simulated_annealing.py"
KG = DO + "knapsack/solvers/greedy_solvers.py"
TM = DO + "tsp/tsp_model.py"
TMU = DO + "tsp/mutation/mutation_tsp.py"
TO = DO + "tsp/solver/solver_ortools.py"
fn("C28", PM, '''
def apply_local_move(self, solution):
    values = getattr(solution, self.attribute)
    for i, j in self.list_index_swap:
        values[i], values[j] = values[j], values[i]
    return solution

def backtrack_local_move(self, solution):
    values = getattr(solution, self.attribute)
    for i, j in reversed(self.list_index_swap):
        values[i], values[j] = values[j], values[i]
    return solution
''', "SwapsLocalMove")
fn("C28", PM, '''
def mutate(self, solution):
    pairs = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
    list_swaps = []
    for i in range(self.nb_swap):
        list_swaps.append((pairs[i, 0], pairs[i, 1]))
    move = SwapsLocalMove(self.attribute, list_swaps)
    return move.apply_local_move(solution), move
''', "PermutationSwap")
fn("C28", PM, '''
def apply_local_move(self, solution):
    return self._reverse_segments(solution, self.index_2opt)

def backtrack_local_move(self, solution):
    return self._reverse_segments(solution, self.index_2opt[::-1])

def _reverse_segments(self, solution, segments):
    permutation = getattr(solution, self.attribute)
    for first, last in segments:
        permutation = permutation[:first] + permutation[first:last + 1][::-1] + permutation[last + 1:]
    setattr(solution, self.attribute, permutation)
    return solution
''', "TwoOptMove")
fn("C28", BM, '''
def apply_local_move(self, solution):
    bits = getattr(solution, self.attribute)
    for index in self.list_index_flip:
        bits[index] = 1 - bits[index]
    return solution
''', "BitFlipMove")
fn("C28", BM, '''
def mutate(self, solution):
    draws = np.random.random(self.length)
    flipped = np.where(draws <= self.probability_flip)[0]
    move = BitFlipMove(self.attribute, flipped)
    mutated = move.apply_local_move(solution)
    return mutated, move
''', "MutationBitFlip")
fn("C28", IM, '''
def mutate(self, solution):
    mutated = solution.copy()
    vector = getattr(mutated, self.attribute)
    for k, choices in enumerate(self.range_arrities):
        if random.random() > self.probability_flip:
            continue
        vector[k] = random.choice(choices)
    setattr(mutated, self.attribute, vector)
    return mutated, LocalMoveDefault(solution, mutated)
''', "MutationIntegerSpecificArrity")
fn("C28", MX, '''
def mutate(self, solution):
    return self._choose().mutate(solution)

def mutate_and_compute_obj(self, solution):
    return self._choose().mutate_and_compute_obj(solution)

def _choose(self):
    drawn = np.random.choice(self.index_np, size=1, p=self.weight_mutation)
    return self.list_mutation[drawn[0]]
''', "BasicPortfolioMutation")
fn("C27", LS, '''
def update(self, nv, fitness, improved_global, improved_local):
    self.nb_iteration += 1
    self.nb_iteration_no_local_improve = 0 if improved_local else self.nb_iteration_no_local_improve + 1
    if not improved_global:
        self.nb_iteration_no_global_improve += 1
        return
    self.nb_iteration_no_global_improve = 0
    self.best_fitness = fitness
    self.solution_best = nv.copy()
''', "RestartHandler")
fn("C27", LS, '''
def restart(self, cur_solution, cur_objective):
    limit = self.nb_iteration_no_improvement
    if max(self.nb_iteration_no_global_improve, self.nb_iteration_no_local_improve) <= limit:
        return cur_solution, cur_objective
    self.nb_iteration_no_local_improve = self.nb_iteration_no_global_improve = 0
    return self.solution_best.copy(), self.best_fitness
''', "RestartHandlerLimit")
fn("C27", HC, '''
def solve(self, initial_variable, nb_iteration_max, pickle_result=False, pickle_name="tsp"):
    objective = self.aggreg_from_dict_values(self.evaluator.evaluate(initial_variable))
    cur_variable = initial_variable.copy()
    nb_best_store = 1000 if self.store_solution else 1
    store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                          best_solution=initial_variable.copy(),
                          mode_optim=self.mode_optim,
                          limit_store=True,
                          nb_best_store=nb_best_store)
    cur_best_variable = initial_variable.copy()
    cur_objective = cur_best_objective = objective
    self.restart_handler.best_fitness = objective
    for iteration in range(nb_iteration_max):
        if self.mode_mutation == ModeMutation.MUTATE:
            nv, move = self.mutator.mutate(cur_variable)
            objective = self.aggreg_from_solution(nv)
        elif self.mode_mutation == ModeMutation.MUTATE_AND_EVALUATE:
            nv, move, values = self.mutator.mutate_and_compute_obj(cur_variable)
            objective = self.aggreg_from_dict_values(values)
        accept = self._better(objective, cur_objective)
        global_improvement = accept and self._better(objective, cur_best_objective)
        if self.store_solution:
            store.add_solution(nv.copy(), objective)
        if accept:
            cur_objective = objective
            cur_variable = nv
        else:
            cur_variable = move.backtrack_local_move(nv)
        if global_improvement:
            print("iter ", iteration)
            print("new obj ", objective, " better than ", cur_best_objective)
            cur_best_objective = objective
            cur_best_variable = cur_variable.copy()
            if not self.store_solution:
                store.add_solution(cur_variable.copy(), objective)
        self.restart_handler.update(nv, objective, global_improvement, accept)
        cur_variable, cur_objective = self.restart_handler.restart(cur_variable, cur_objective)
        if pickle_result and (iteration + 1) % 20000 == 0:
            pickle.dump(cur_best_variable, open(pickle_name+".pk", "wb"))
    store.finalize()
    return store

def _better(self, a, b):
    if self.mode_optim == ModeOptim.MINIMIZATION:
        return a < b
    if self.mode_optim == ModeOptim.MAXIMIZATION:
        return a > b
    return False
''', "HillClimber")
fn("C31", KG, '''
def greedy_using_queue(knapsack_model, method_queue=None):
    queue = (compute_density if method_queue is None else method_queue)(knapsack_model)
    value = weight = 0
    taken = [0] * knapsack_model.nb_items
    for item in queue:
        if weight + item.weight > knapsack_model.max_capacity:
            continue
        taken[knapsack_model.index_to_index_list[item.index]] = 1
        value = value + item.value
        weight = weight + item.weight
    return KnapsackSolution(problem=knapsack_model, value=value, weight=weight, list_taken=taken)
''')
fn("C31", KG, '''
def compute_density(knapsack_model):
    fitting = [item for item in knapsack_model.list_items if item.weight <= knapsack_model.max_capacity]
    fitting.sort(key=lambda item: item.value / item.weight, reverse=True)
    return fitting
''')
fn("C34", TM, '''
def __init__(self, list_points, node_count, start_index=0, end_index=0):
    self.list_points = list_points
    self.node_count = node_count
    self.start_index = 0 if start_index is None else start_index
    self.end_index = 0 if end_index is None else end_index
    inner = [i for i in range(self.node_count) if i not in (self.start_index, self.end_index)]
    self.ind_in_permutation = inner
    self.length_permutation = len(inner)
    self.original_indices_to_permutation_indices = list(inner)
    self.original_indices_to_permutation_indices_dict = {i: k for k, i in enumerate(inner)}
''', "TSPModel")
fn("C34", TMU, '''
def get_points_index(it, jt, variable, length_permutation):
    perm = variable.permutation
    i_before = variable.start_index if it == 0 else perm[it - 1]
    last = jt == length_permutation - 1
    j_after = variable.end_index if last else perm[jt + 1]
    return i_before, perm[it], perm[jt], j_after
''')
fn("C34", TMU, '''
def find_intersection(variable, points, test_all=False, nb_tests=10):
    perm = variable.permutation
    n = len(perm)
    if test_all:
        its = range(n)
        jts = range(n - 1)
    else:
        its = random.sample(range(n), min(nb_tests, n))
        jts = random.sample(range(n - 1), min(nb_tests, n - 1))
    found = []
    for i in its:
        for j in jts:
            if j <= i + 1:
                continue
            if intersect(points[perm[i]], points[perm[i + 1]], points[perm[j]], points[perm[j + 1]]):
                found.append((i + 1, j))
                if len(found) > 5:
                    break
        if len(found) > 5:
            break
    return found
''')
fn("C34", TO, '''
def solve(self):
    solution = self.routing.SolveWithParameters(self.search_parameters)
    print('Objective: {} miles'.format(solution.ObjectiveValue()))
    index = self.routing.Start(0)
    visited = [self.manager.IndexToNode(index)]
    while not self.routing.IsEnd(index):
        index = solution.Value(self.routing.NextVar(index))
        visited.append(self.manager.IndexToNode(index))
    problem = self.tsp_model
    tour = SolutionTSP(problem=problem, start_index=problem.start_index, end_index=problem.end_index,
                       permutation=visited[1:-1], lengths=None, length=None)
    sense = self.params_objective_function.sense_function
    return ResultStorage(list_solution_fits=[(tour, self.aggreg_sol(tour))], mode_optim=sense)
''', "TSP_ORtools")
fn("C34", TO, '''
def init_model(self, **kwargs):
    model = self.tsp_model
    manager = pywrapcp.RoutingIndexManager(self.node_count, 1, [self.start_index], [self.end_index])
    if self.node_count < 1000:
        matrix = build_matrice_distance(self.node_count, self.list_points, method=model.evaluate_function_indexes)
        distance_matrix = (10**6*matrix).astype(int)

        def distance_callback(i, j):
            return distance_matrix[manager.IndexToNode(i), manager.IndexToNode(j)]
    else:
        def distance_callback(i, j):
            length = model.evaluate_function_indexes(manager.IndexToNode(i), manager.IndexToNode(j))
            return int(10**6*length)
    routing = pywrapcp.RoutingModel(manager)
    routing.SetArcCostEvaluatorOfAllVehicles(routing.RegisterTransitCallback(distance_callback))
    params = pywrapcp.DefaultRoutingSearchParameters()
    params.first_solution_strategy = routing_enums_pb2.FirstSolutionStrategy.PATH_CHEAPEST_ARC
    params.local_search_metaheuristic = routing_enums_pb2.LocalSearchMetaheuristic.GUIDED_LOCAL_SEARCH
    params.time_limit.seconds = 30
    self.manager, self.routing, self.search_parameters = manager, routing, params
''', "TSP_ORtools")
