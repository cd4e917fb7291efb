# C34: vehicle routing, travelling salesman and travelling thief


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpSolution.copy")
def _(self):
    return VrpSolution(problem=self.problem, list_start_index=self.list_start_index, list_end_index=self.list_end_index, list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths), length=self.length, capacities=deepcopy(self.capacities))


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpSolution.lazy_copy")
def _(self):
    return VrpSolution(problem=self.problem, list_start_index=self.list_start_index, list_end_index=self.list_end_index, list_paths=self.list_paths, lengths=self.lengths, length=self.length, capacities=self.capacities)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpSolution.__init__")
def _(self, problem, list_start_index, list_end_index, list_paths, length=None, lengths=None, capacities=None):
    self.problem = problem
    self.list_start_index = list_start_index
    self.list_end_index = list_end_index
    self.list_paths = list_paths
    self.length = length
    self.lengths = lengths
    self.capacities = capacities


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpSolution.change_problem")
def _(self, new_problem):
    self.__init__(problem=new_problem, list_start_index=self.list_start_index, list_end_index=self.list_end_index, list_paths=deepcopy(self.list_paths))


@spec("builders/discrete_optimization/vrp/vrp_model.py", "BasicCustomer.__init__")
def _(self, name, demand):
    self.name = name
    self.demand = demand


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.__init__")
def _(self, vehicle_count, vehicle_capacities, customer_count, customers, start_indexes, end_indexes):
    self.vehicle_count = vehicle_count
    self.vehicle_capacities = vehicle_capacities
    self.customer_count = customer_count
    self.customers = customers
    self.start_indexes = start_indexes
    self.end_indexes = end_indexes


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.evaluate")
def _(self, variable):
    if variable.lengths is None:
        lengths, obj_list, obj, capacity_list = self.evaluate_function(variable)
        variable.length = obj
        variable.lengths = lengths
        variable.capacities = capacity_list
    violation = 0
    for i in range(self.vehicle_count):
        violation += max(variable.capacities[i] - self.vehicle_capacities[i], 0)
    return {'length': variable.length, 'capacity_violation': violation}


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.satisfy")
def _(self, variable):
    d = self.evaluate(variable)
    return d['capacity_violation'] == 0


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.get_attribute_register")
def _(self):
    dict_encoding = {'list_paths': {'name': 'list_paths', 'type': [TypeAttribute.LIST_INTEGER]}}
    return EncodingRegister(dict_encoding)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.get_solution_type")
def _(self):
    return VrpSolution


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.get_objective_register")
def _(self):
    dict_objective = {'length': {'type': TypeObjective.OBJECTIVE, 'default_weight': -1}}
    dict_objective['capacity_violation'] = {'type': TypeObjective.PENALTY, 'default_weight': -100000}
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.SINGLE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.get_dummy_solution")
def _(self):
    s, fit = trivial_solution(self)
    return s


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem.get_stupid_solution")
def _(self):
    s, fit = stupid_solution(self)
    return s


@spec("builders/discrete_optimization/vrp/vrp_model.py", "length")
def _(point1, point2):
    return math.sqrt((point1.x - point2.x) ** 2 + (point1.y - point2.y) ** 2)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "Customer2D.__init__")
def _(self, name, demand, x, y):
    super().__init__(name=name, demand=demand)
    self.x = x
    self.y = y


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem2D.__init__")
def _(self, vehicle_count, vehicle_capacities, customer_count, customers, start_indexes, end_indexes):
    super().__init__(vehicle_count=vehicle_count, vehicle_capacities=vehicle_capacities, customer_count=customer_count, customers=customers, start_indexes=start_indexes, end_indexes=end_indexes)
    self.customers = self.customers
    self.evaluate_function_2d = build_evaluate_function(self)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem2D.evaluate_function")
def _(self, vrp_sol):
    return self.evaluate_function_2d(vrp_sol)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "VrpProblem2D.evaluate_function_indexes")
def _(self, index_1, index_2):
    return length(self.customers[index_1], self.customers[index_2])


@spec("builders/discrete_optimization/vrp/vrp_model.py", "trivial_solution")
def _(vrp_model):
    vehicle_tours = []
    customers = range(vrp_model.customer_count)
    nb_vehicles = vrp_model.vehicle_count
    nb_customers = vrp_model.customer_count
    remaining_capacity_vehicle = {v: vrp_model.vehicle_capacities[v] for v in range(nb_vehicles)}
    remaining_customers = set(customers)
    for v in range(nb_vehicles):
        start = vrp_model.start_indexes[v]
        end = vrp_model.end_indexes[v]
        remaining_capacity_vehicle[v] -= vrp_model.customers[start].demand
        if end != start:
            remaining_capacity_vehicle[v] -= vrp_model.customers[end].demand
        if start in remaining_customers:
            remaining_customers.remove(start)
        if end in remaining_customers:
            remaining_customers.remove(end)
    for v in range(nb_vehicles):
        vehicle_tours.append([])
        while sum([remaining_capacity_vehicle[v] >= vrp_model.customers[customer].demand for customer in remaining_customers]) > 0:
            used = set()
            order = sorted(remaining_customers, key=lambda x: -vrp_model.customers[x].demand * nb_customers + x)
            for customer in order:
                if remaining_capacity_vehicle[v] >= vrp_model.customers[customer].demand:
                    remaining_capacity_vehicle[v] -= vrp_model.customers[customer].demand
                    vehicle_tours[v].append(customer)
                    used.add(customer)
            remaining_customers -= used
    solution = VrpSolution(problem=vrp_model, list_start_index=vrp_model.start_indexes, list_end_index=vrp_model.end_indexes, list_paths=vehicle_tours, length=None, lengths=None)
    fit = vrp_model.evaluate(solution)
    return (solution, fit)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "stupid_solution")
def _(vrp_model):
    vehicle_tours = []
    customers = range(vrp_model.customer_count)
    nb_vehicles = vrp_model.vehicle_count
    remaining_capacity_vehicle = {v: vrp_model.vehicle_capacities[v] for v in range(nb_vehicles)}
    remaining_customers = set(customers)
    for v in range(nb_vehicles):
        start = vrp_model.start_indexes[v]
        end = vrp_model.end_indexes[v]
        remaining_capacity_vehicle[v] -= vrp_model.customers[start].demand
        if end != start:
            remaining_capacity_vehicle[v] -= vrp_model.customers[end].demand
        if start in remaining_customers:
            remaining_customers.remove(start)
        if end in remaining_customers:
            remaining_customers.remove(end)
    for v in range(nb_vehicles):
        vehicle_tours.append([])
    vehicle_tours[0] = list(sorted(remaining_customers))
    solution = VrpSolution(problem=vrp_model, list_start_index=vrp_model.start_indexes, list_end_index=vrp_model.end_indexes, list_paths=vehicle_tours, length=None, lengths=None)
    fit = vrp_model.evaluate(solution)
    return (solution, fit)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "compute_length")
def _(start_index, end_index, solution, list_customers, method):
    if len(solution) > 0:
        obj = method(start_index, solution[0])
        lengths = [obj]
        capacity = list_customers[start_index].demand
        capacity += list_customers[solution[0]].demand
        for index in range(0, len(solution) - 1):
            ll = method(solution[index], solution[index + 1])
            obj += ll
            lengths += [ll]
            capacity += list_customers[solution[index + 1]].demand
        lengths += [method(solution[-1], end_index)]
        if end_index != start_index:
            capacity += list_customers[end_index].demand
        obj += lengths[-1]
    else:
        obj = method(start_index, end_index)
        lengths = [obj]
        capacity = list_customers[start_index].demand
        if end_index != start_index:
            capacity += list_customers[end_index].demand
    return (lengths, obj, capacity)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "compute_length_np")
def _(start_index, end_index, solution, np_points):
    obj = np.sqrt((np_points[start_index, 0] - np_points[solution[0], 0]) ** 2 + (np_points[start_index, 1] - np_points[solution[0], 1]) ** 2)
    len_sol = len(solution)
    lengths = np.zeros(len_sol + 1)
    lengths[0] = obj
    for index in range(0, len_sol - 1):
        ll = math.sqrt((np_points[solution[index], 0] - np_points[solution[index + 1], 0]) ** 2 + (np_points[solution[index], 1] - np_points[solution[index + 1], 1]) ** 2)
        obj += ll
        lengths[index + 1] = ll
    lengths[len_sol] = np.sqrt((np_points[end_index, 0] - np_points[solution[-1], 0]) ** 2 + (np_points[end_index, 1] - np_points[solution[-1], 1]) ** 2)
    obj += lengths[len_sol]
    return (lengths, obj)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "sequential_computing")
def _(vrp_sol, vrp_model):
    lengths_list = []
    obj_list = []
    capacity_list = []
    sum_obj = 0
    for i in range(len(vrp_sol.list_paths)):
        lengths, obj, capacity = compute_length(start_index=vrp_sol.list_start_index[i], end_index=vrp_sol.list_end_index[i], solution=vrp_sol.list_paths[i], list_customers=vrp_model.customers, method=vrp_model.evaluate_function_indexes)
        lengths_list += [lengths]
        obj_list += [obj]
        capacity_list += [capacity]
        sum_obj += obj
    return (lengths_list, obj_list, sum_obj, capacity_list)


@spec("builders/discrete_optimization/vrp/vrp_model.py", "build_evaluate_function")
def _(vrp_model):
    return partial(sequential_computing, vrp_model=vrp_model)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "compute_length_matrix")
def _(vrp_model):
    nb_customers = vrp_model.customer_count
    matrix_distance = np.zeros((nb_customers, nb_customers))
    for f in range(nb_customers):
        for c in range(f + 1, nb_customers):
            matrix_distance[f, c] = vrp_model.evaluate_function_indexes(f, c)
            matrix_distance[c, f] = matrix_distance[f, c]
    closest = np.argsort(matrix_distance, axis=1)
    return (closest, matrix_distance)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "prune_search_space")
def _(vrp_model, n_shortest=10):
    closest, matrix_distance = compute_length_matrix(vrp_model)
    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
    nb_customers = vrp_model.customer_count
    if n_shortest < nb_customers:
        for c in range(matrix_adjacency.shape[0]):
            matrix_adjacency[c, closest[c, :n_shortest]] = matrix_distance[c, closest[c, :n_shortest]]
            matrix_adjacency[c, 0] = matrix_distance[c, 0]
    else:
        matrix_adjacency = matrix_distance
    return (matrix_adjacency, matrix_distance)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "build_graph")
def _(vrp_model):
    matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model, n_shortest=vrp_model.customer_count)
    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
    G.add_edge(0, 0, weight=0)
    return (G, matrix_distance)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "length")
def _(customer1, customer2):
    return math.sqrt((customer1.x - customer2.x) ** 2 + (customer1.y - customer2.y) ** 2)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "parse_input")
def _(input_data):
    lines = input_data.split('\n')
    parts = lines[0].split()
    customer_count = int(parts[0])
    vehicle_count = int(parts[1])
    vehicle_capacity = int(parts[2])
    customers = []
    for i in range(1, customer_count + 1):
        line = lines[i]
        parts = line.split()
        customers.append(Customer(i - 1, int(parts[0]), float(parts[1]), float(parts[2])))
    return (vehicle_count, vehicle_capacity, customer_count, customers)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "recompute_output")
def _(dictionary_path, customers):
    vehicle_tours = []
    obj = 0
    for k in dictionary_path:
        path = dictionary_path[k] + [0]
        range_index = range(len(path))
        obj += sum([length(customers[ii], customers[jj]) for ii, jj in zip(path[:-1], path[1:])])
        vehicle_tours += [[customers[j] for j in path[1:-1]]]
    return (vehicle_tours, obj, 0)


@spec("builders/discrete_optimization/vrp/vrp_toolbox.py", "output_result")
def _(vehicle_tours, obj, opt, vehicle_count, depot):
    outputData = '%.2f' % obj + ' ' + str(opt) + '\n'
    for v in range(0, vehicle_count):
        outputData += str(depot.index) + ' ' + ' '.join([str(customer.index) for customer in vehicle_tours[v]]) + ' ' + str(depot.index) + '\n'
    return outputData


@spec("builders/discrete_optimization/vrp/vrp_parser.py", "parse_input")
def _(input_data, start_index=0, end_index=0, vehicle_count=None):
    lines = input_data.split('\n')
    parts = lines[0].split()
    customer_count = int(parts[0])
    vehicle_count = int(parts[1]) if vehicle_count is None else vehicle_count
    vehicle_capacity = int(parts[2])
    customers = []
    for i in range(1, customer_count + 1):
        line = lines[i]
        parts = line.split()
        customers.append(Customer2D(i - 1, int(parts[0]), float(parts[1]), float(parts[2])))
    vehicle_capacities = [vehicle_capacity] * vehicle_count
    start_indexes = [start_index] * vehicle_count
    end_indexes = [end_index] * vehicle_count
    return VrpProblem2D(vehicle_count=vehicle_count, vehicle_capacities=vehicle_capacities, customer_count=customer_count, customers=customers, start_indexes=start_indexes, end_indexes=end_indexes)


@spec("builders/discrete_optimization/vrp/vrp_parser.py", "parse_file")
def _(file_path, start_index=0, end_index=0, vehicle_count=None):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        vrp_model = parse_input(input_data, start_index=start_index, end_index=end_index, vehicle_count=vehicle_count)
        return vrp_model


@spec("builders/discrete_optimization/vrp/solver/greedy_vrp.py", "GreedyVRPSolver.__init__")
def _(self, vrp_model, params_objective_function=None):
    self.vrp_model = vrp_model
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.vrp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/vrp/solver/greedy_vrp.py", "GreedyVRPSolver.solve")
def _(self, **kwargs):
    sol, fit = trivial_solution(self.vrp_model)
    fit = self.aggreg_sol(sol)
    return ResultStorage(list_solution_fits=[(sol, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/vrp/solver/solver_ortools.py", "VrpORToolsSolver.__init__")
def _(self, problem, params_objective_function=None):
    self.problem = problem
    self.manager = None
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/vrp/solver/solver_ortools.py", "VrpORToolsSolver.init_model")
def _(self, **kwargs):
    first_solution_strategy = kwargs.get('first_solution_strategy', FirstSolutionStrategy.SAVINGS)
    local_search_metaheuristic = kwargs.get('local_search_metaheuristic', LocalSearchMetaheuristic.GUIDED_LOCAL_SEARCH)
    first_solution_strategy = first_solution_map[first_solution_strategy]
    local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
    G, matrix_distance = build_graph(self.problem)
    matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
    demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
    manager = pywrapcp.RoutingIndexManager(self.problem.customer_count, self.problem.vehicle_count, self.problem.start_indexes, self.problem.end_indexes)
    routing = pywrapcp.RoutingModel(manager)

    def distance_callback(from_index, to_index):
        from_node = manager.IndexToNode(from_index)
        to_node = manager.IndexToNode(to_index)
        return matrix_distance_int[from_node, to_node]
    transit_callback_index = routing.RegisterTransitCallback(distance_callback)
    routing.SetArcCostEvaluatorOfAllVehicles(transit_callback_index)

    def demand_callback(from_index):
        from_node = manager.IndexToNode(from_index)
        return demands[from_node]
    demand_callback_index = routing.RegisterUnaryTransitCallback(demand_callback)
    routing.AddDimensionWithVehicleCapacity(demand_callback_index, 0, self.problem.vehicle_capacities, True, 'Capacity')
    search_parameters = pywrapcp.DefaultRoutingSearchParameters()
    search_parameters.first_solution_strategy = first_solution_strategy
    search_parameters.local_search_metaheuristic = local_search_metaheuristic
    search_parameters.time_limit.seconds = 100
    self.manager = manager
    self.routing = routing
    self.search_parameters = search_parameters


@spec("builders/discrete_optimization/vrp/solver/solver_ortools.py", "VrpORToolsSolver.retrieve")
def _(self, solution):
    vehicle_tours = []
    vehicle_tours_all = []
    vehicle_count = self.problem.vehicle_count
    objective = 0
    route_distance = 0
    for vehicle_id in range(vehicle_count):
        vehicle_tours.append([])
        vehicle_tours_all.append([])
        index = self.routing.Start(vehicle_id)
        plan_output = 'Route for vehicle {}:\n'.format(vehicle_id)
        route_load = 0
        cnt = 0
        while not self.routing.IsEnd(index):
            node_index = self.manager.IndexToNode(index)
            if cnt != 0:
                vehicle_tours[-1] += [node_index]
            vehicle_tours_all[-1] += [node_index]
            cnt += 1
            route_load += self.problem.customers[node_index].demand
            plan_output += ' {0} Load({1}) -> '.format(node_index, route_load)
            previous_index = index
            index = solution.Value(self.routing.NextVar(index))
            route_distance += self.routing.GetArcCostForVehicle(previous_index, index, vehicle_id)
            objective += self.problem.evaluate_function_indexes(node_index, self.manager.IndexToNode(index))
        vehicle_tours_all[-1] += [self.manager.IndexToNode(index)]
    variable_vrp = VrpSolution(problem=self.problem, list_start_index=self.problem.start_indexes, list_end_index=self.problem.end_indexes, list_paths=vehicle_tours, length=None, lengths=None, capacities=None)
    return variable_vrp


@spec("builders/discrete_optimization/vrp/solver/solver_ortools.py", "VrpORToolsSolver.solve")
def _(self, **kwargs):
    if self.manager is None:
        self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 100)
    self.search_parameters.time_limit.seconds = limit_time_s
    solution = self.routing.SolveWithParameters(self.search_parameters)
    variable_vrp = self.retrieve(solution)
    fit = self.aggreg_sol(variable_vrp)
    return ResultStorage(list_solution_fits=[(variable_vrp, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "SolutionTSP.__init__")
def _(self, problem=None, start_index=None, end_index=None, permutation=None, lengths=None, length=None, permutation_from0=None):
    assert permutation is not None or permutation_from0 is not None
    self.start_index = start_index
    self.end_index = end_index
    self.permutation = permutation
    self.lengths = lengths
    self.length = length
    self.permutation_from0 = permutation_from0
    self.problem = problem
    if self.start_index is None:
        self.start_index = problem.start_index
    if self.end_index is None:
        self.end_index = problem.end_index
    if self.permutation is None:
        self.permutation = self.problem.convert_perm_from0_to_original_perm(self.permutation_from0)
    if self.permutation_from0 is None:
        self.permutation_from0 = self.problem.convert_original_perm_to_perm_from0(self.permutation)
    if self.length is None:
        self.problem.evaluate(self)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "SolutionTSP.copy")
def _(self):
    return SolutionTSP(problem=self.problem, start_index=self.start_index, end_index=self.end_index, permutation=list(self.permutation), lengths=list(self.lengths), length=self.length, permutation_from0=deepcopy(self.permutation_from0))


@spec("builders/discrete_optimization/tsp/tsp_model.py", "SolutionTSP.lazy_copy")
def _(self):
    return SolutionTSP(problem=self.problem, start_index=self.start_index, end_index=self.end_index, permutation=self.permutation, lengths=self.lengths, length=self.length, permutation_from0=self.permutation_from0)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "SolutionTSP.change_problem")
def _(self, new_problem):
    self.__init__(problem=new_problem, start_index=self.start_index, end_index=self.end_index, permutation=list(self.permutation), permutation_from0=deepcopy(self.permutation_from0))


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.__init__")
def _(self, list_points, node_count, start_index=0, end_index=0):
    self.list_points = list_points
    self.node_count = node_count
    self.start_index = start_index
    self.end_index = end_index
    if self.start_index is None:
        self.start_index = 0
    if self.end_index is None:
        self.end_index = 0
    self.ind_in_permutation = [i for i in range(self.node_count) if i != self.start_index and i != self.end_index]
    self.length_permutation = len(self.ind_in_permutation)
    self.original_indices_to_permutation_indices = [i for i in range(self.node_count) if i != self.start_index and i != self.end_index]
    self.original_indices_to_permutation_indices_dict = {}
    counter = 0
    for i in range(self.node_count):
        if i != self.start_index and i != self.end_index:
            self.original_indices_to_permutation_indices_dict[i] = counter
            counter += 1


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.evaluate_from_encoding")
def _(self, int_vector, encoding_name):
    if encoding_name == 'permutation_from0':
        tsp_sol = SolutionTSP(problem=self, start_index=self.start_index, end_index=self.end_index, permutation=self.convert_perm_from0_to_original_perm(int_vector))
    elif encoding_name == 'permutation':
        tsp_sol = SolutionTSP(problem=self, start_index=self.start_index, end_index=self.end_index, permutation=int_vector)
    elif encoding_name == 'custom':
        kwargs = {encoding_name: int_vector, 'problem': self, 'start_index': self.start_index, 'end_index': self.end_index}
        tsp_sol = SolutionTSP(**kwargs)
    objectives = self.evaluate(tsp_sol)
    return objectives


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.evaluate")
def _(self, var_tsp):
    lengths, obj = self.evaluate_function(var_tsp)
    var_tsp.length = obj
    var_tsp.lengths = lengths
    return {'length': obj}


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.satisfy")
def _(self, var_tsp):
    b = var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index
    if not b:
        return False
    return sorted(var_tsp.permutation) == self.ind_in_permutation


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.get_dummy_solution")
def _(self):
    var = SolutionTSP(problem=self, start_index=self.start_index, end_index=self.end_index, permutation=list(self.ind_in_permutation), permutation_from0=None, lengths=None, length=None)
    self.evaluate(var)
    return var


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.convert_perm_from0_to_original_perm")
def _(self, perm_from0):
    perm = [self.original_indices_to_permutation_indices[x] for x in perm_from0]
    return perm


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.convert_original_perm_to_perm_from0")
def _(self, perm):
    perm_from0 = [self.original_indices_to_permutation_indices_dict[i] for i in perm]
    return perm_from0


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.get_solution_type")
def _(self):
    return SolutionTSP


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.get_attribute_register")
def _(self):
    dict_register = {}
    dict_register['permutation_from0'] = {'name': 'permutation_from0', 'type': [TypeAttribute.PERMUTATION], 'range': range(len(self.original_indices_to_permutation_indices)), 'n': len(self.original_indices_to_permutation_indices)}
    dict_register['permutation'] = {'name': 'permutation', 'type': [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_TSP], 'range': self.ind_in_permutation, 'n': self.length_permutation}
    return EncodingRegister(dict_register)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel.get_objective_register")
def _(self):
    dict_objective = {'length': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}}
    return ObjectiveRegister(objective_sense=ModeOptim.MINIMIZATION, objective_handling=ObjectiveHandling.SINGLE, dict_objective_to_doc=dict_objective)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel2D.__init__")
def _(self, list_points, node_count, start_index=0, end_index=0, use_numba=True):
    TSPModel.__init__(self, list_points, node_count, start_index=start_index, end_index=end_index)
    self.np_points = np.zeros((node_count, 2))
    for i in range(self.node_count):
        self.np_points[i, 0] = self.list_points[i].x
        self.np_points[i, 1] = self.list_points[i].y
    if use_numba:
        self.evaluate_function_2d = build_evaluate_function_np(self)
    else:
        self.evaluate_function_2d = build_evaluate_function(self)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel2D.evaluate_function")
def _(self, var_tsp):
    return self.evaluate_function_2d(solution=var_tsp.permutation)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "TSPModel2D.evaluate_function_indexes")
def _(self, index_1, index_2):
    return length(self.list_points[index_1], self.list_points[index_2])


@spec("builders/discrete_optimization/tsp/tsp_model.py", "length")
def _(point1, point2):
    return math.sqrt((point1.x - point2.x) ** 2 + (point1.y - point2.y) ** 2)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "compute_length")
def _(start_index, end_index, solution, list_points, node_count, length_permutation):
    obj = length(list_points[start_index], list_points[solution[0]])
    lengths = [obj]
    for index in range(0, length_permutation - 1):
        ll = length(list_points[solution[index]], list_points[solution[index + 1]])
        obj += ll
        lengths += [ll]
    lengths += [length(list_points[end_index], list_points[solution[-1]])]
    obj += lengths[-1]
    return (lengths, obj)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "compute_length_np")
def _(start_index, end_index, solution, np_points, node_count, length_permutation):
    obj = np.sqrt((np_points[start_index, 0] - np_points[solution[0], 0]) ** 2 + (np_points[start_index, 1] - np_points[solution[0], 1]) ** 2)
    lengths = np.zeros(length_permutation + 1)
    lengths[0] = obj
    pp = obj
    for index in range(0, length_permutation - 1):
        ll = math.sqrt((np_points[solution[index], 0] - np_points[solution[index + 1], 0]) ** 2 + (np_points[solution[index], 1] - np_points[solution[index + 1], 1]) ** 2)
        obj += ll
        lengths[index + 1] = ll
    lengths[length_permutation] = np.sqrt((np_points[end_index, 0] - np_points[solution[-1], 0]) ** 2 + (np_points[end_index, 1] - np_points[solution[-1], 1]) ** 2)
    obj += lengths[length_permutation]
    return (lengths, obj)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "build_evaluate_function")
def _(tsp_model):
    return partial(compute_length, start_index=tsp_model.start_index, end_index=tsp_model.end_index, length_permutation=tsp_model.length_permutation, list_points=tsp_model.list_points, node_count=tsp_model.node_count)


@spec("builders/discrete_optimization/tsp/tsp_model.py", "build_evaluate_function_np")
def _(tsp_model):
    return partial(compute_length_np, start_index=tsp_model.start_index, end_index=tsp_model.end_index, length_permutation=tsp_model.length_permutation, np_points=tsp_model.np_points, node_count=tsp_model.node_count)


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "length_1")
def _(point1, point2):
    return abs(point1.x - point2.x) + abs(point1.y - point2.y)


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "parse")
def _(input_data):
    lines = input_data.split('\n')
    nodeCount = int(lines[0])
    points = []
    for i in range(1, nodeCount + 1):
        line = lines[i]
        parts = line.split()
        points.append(Point2D(float(parts[0]), float(parts[1])))
    return (nodeCount, points)


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "compute_length")
def _(solution, list_points, nodeCount):
    obj = length(list_points[solution[-1]], list_points[solution[0]])
    lengths = []
    pp = obj
    for index in range(0, nodeCount - 1):
        ll = length(list_points[solution[index]], list_points[solution[index + 1]])
        obj += ll
        lengths += [ll]
    lengths += [pp]
    return (lengths, obj)


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "baseline_in_order")
def _(nodeCount, points):
    solution = range(0, nodeCount)
    obj = length(points[solution[-1]], points[solution[0]])
    for index in range(0, nodeCount - 1):
        obj += length(points[solution[index]], points[solution[index + 1]])
    return (solution, obj, 0)


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "build_matrice_distance")
def _(nodeCount, points, method=None):
    if method is None:
        method = lambda i, j: length(points[i], points[j])
    matrix = np.zeros((nodeCount, nodeCount))
    for i in range(nodeCount):
        for j in range(i + 1, nodeCount):
            d = method(i, j)
            matrix[i, j] = d
            matrix[j, i] = d
    return matrix


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "build_matrice_distance_np")
def _(nodeCount, points):
    matrix_x = np.ones((nodeCount, nodeCount), dtype=np.int32)
    matrix_y = np.ones((nodeCount, nodeCount), dtype=np.int32)
    id_x = np.zeros((nodeCount, nodeCount), dtype=np.int32)
    id_y = np.zeros((nodeCount, nodeCount), dtype=np.int32)
    for i in range(nodeCount):
        matrix_x[i, :] *= int(points[i].x)
        matrix_y[i, :] *= int(points[i].y)
    matrix_x = matrix_x - np.transpose(matrix_x)
    matrix_y = matrix_y - np.transpose(matrix_y)
    distances = np.abs(matrix_x) + np.abs(matrix_y)
    sorted_distance = np.argsort(distances, axis=1)
    return (sorted_distance, distances)


@spec("builders/discrete_optimization/tsp/common_tools_tsp.py", "closest_greedy")
def _(nodeCount, points):
    sd, d = build_matrice_distance_np(nodeCount, points)
    g = nx.DiGraph()
    sol = [0]
    length_circuit = 0.0
    index_in_sol = set([0])
    s = sd
    cur_point = 0
    nb_point = 1
    while nb_point < nodeCount:
        n = next((p for p in s[cur_point, :] if p not in index_in_sol))
        length_circuit += length(points[cur_point], points[n])
        index_in_sol.add(n)
        sol += [n]
        cur_point = n
        nb_point += 1
    length_circuit += length(points[cur_point], points[0])
    return (sol, length_circuit, 0)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "ccw")
def _(A, B, C):
    return (C.y - A.y) * (B.x - A.x) > (B.y - A.y) * (C.x - A.x)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "intersect")
def _(A, B, C, D):
    return ccw(A, C, D) != ccw(B, C, D) and ccw(A, B, C) != ccw(A, B, D)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "find_intersection")
def _(variable, points, test_all=False, nb_tests=10):
    perm = variable.permutation
    intersects = []
    its = range(len(perm)) if test_all else random.sample(range(len(perm)), min(nb_tests, len(perm)))
    jts = range(len(perm) - 1) if test_all else random.sample(range(len(perm) - 1), min(nb_tests, len(perm) - 1))
    for i in its:
        for j in jts:
            ii = i
            jj = j
            if jj <= ii + 1:
                continue
            A, B = (points[perm[ii]], points[perm[ii + 1]])
            C, D = (points[perm[jj]], points[perm[jj + 1]])
            if intersect(A, B, C, D):
                intersects += [(ii + 1, jj)]
                if len(intersects) > 5:
                    break
        if len(intersects) > 5:
            break
    return intersects


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "get_points_index")
def _(it, jt, variable, length_permutation):
    perm = variable.permutation
    i = perm[it]
    j = perm[jt]
    if it == 0:
        i_before = variable.start_index
    else:
        i_before = perm[it - 1]
    if jt == length_permutation - 1:
        j_after = variable.end_index
    else:
        j_after = perm[jt + 1]
    return (i_before, i, j, j_after)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2Opt.build")
def _(problem, solution, **kwargs):
    return Mutation2Opt(problem, **kwargs)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2Opt.__init__")
def _(self, tsp_model, test_all=False, nb_test=None, return_only_improvement=False, **kwargs):
    self.node_count = tsp_model.node_count
    self.length_permutation = tsp_model.length_permutation
    self.points = tsp_model.list_points
    self.test_all = test_all
    self.nb_test = nb_test if nb_test is None else min(nb_test, self.node_count - 1)
    self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
    self.return_only_improvement = return_only_improvement
    self.tsp_model = tsp_model
    if self.nb_test is None:
        self.nb_test = max(1, self.node_count // 10)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2Opt.get_points")
def _(self, it, jt, variable):
    point_before_i = None
    perm = variable.permutation
    if it == 0:
        point_before_i = self.points[variable.start_index]
    else:
        point_before_i = self.points[perm[it - 1]]
    point_i = self.points[perm[it]]
    point_j = self.points[perm[jt]]
    point_after_j = None
    if jt == self.length_permutation - 1:
        point_after_j = self.points[variable.end_index]
    else:
        point_after_j = self.points[perm[jt + 1]]
    return (point_before_i, point_i, point_j, point_after_j)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2Opt.get_points_index")
def _(self, it, jt, variable):
    i_before = None
    j_after = None
    perm = variable.permutation
    i = perm[it]
    j = perm[jt]
    if it == 0:
        i_before = variable.start_index
    else:
        i_before = perm[it - 1]
    if jt == self.length_permutation - 1:
        j_after = variable.end_index
    else:
        j_after = perm[jt + 1]
    return (i_before, i, j, j_after)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2Opt.mutate_and_compute_obj")
def _(self, variable):
    it = random.randint(0, self.length_permutation - 2)
    jt = random.randint(it + 1, self.length_permutation - 1)
    point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
    min_change = float('inf')
    range_its = range(self.length_permutation) if self.test_all else random.sample(range(self.length_permutation - 1), min(self.nb_test, self.length_permutation - 1))
    for i in range_its:
        if i == self.length_permutation - 1:
            range_jts = []
        else:
            range_jts = range(i + 1, self.length_permutation) if self.test_all else random.sample(range(i + 1, self.length_permutation), min(1, self.nb_test, self.length_permutation - i - 1))
        for j in range_jts:
            i_before, i_, j_, j_after = self.get_points_index(i, j, variable)
            change = self.evaluate_function_indexes(i_before, j_) - self.evaluate_function_indexes(i_before, i_) - self.evaluate_function_indexes(j_, j_after) + self.evaluate_function_indexes(i_, j_after)
            if change < min_change:
                it = i
                jt = j
                min_change = change
    fitness = variable.length + min_change
    i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
    permut = variable.permutation[:it] + variable.permutation[it:jt + 1][::-1] + variable.permutation[jt + 1:]
    lengths = []
    if it > 0:
        lengths += list(variable.lengths[:it])
    lengths += [self.evaluate_function_indexes(i_before, j_)]
    lengths += list(variable.lengths[it + 1:jt + 1][::-1])
    lengths += [self.evaluate_function_indexes(i_, j_after)]
    if jt < self.length_permutation - 1:
        lengths += list(variable.lengths[jt + 2:])
    if False:
        pass
    if min_change < 0 or not self.return_only_improvement:
        v = SolutionTSP(start_index=variable.start_index, end_index=variable.end_index, permutation=permut, lengths=lengths, length=fitness, problem=self.tsp_model)
        return (v, LocalMoveDefault(variable, v), {'length': fitness})
    else:
        return (variable, LocalMoveDefault(variable, variable), {'length': variable.length})


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2Opt.mutate")
def _(self, variable):
    v, move, f = self.mutate_and_compute_obj(variable)
    return (v, move)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2OptIntersection.build")
def _(problem, solution, **kwargs):
    return Mutation2OptIntersection(problem, **kwargs)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2OptIntersection.__init__")
def _(self, tsp_model, test_all=True, nb_test=None, return_only_improvement=False, i_j_pairs=None, **kwargs):
    Mutation2Opt.__init__(self, tsp_model, test_all, nb_test, return_only_improvement)
    self.tsp_model = tsp_model
    self.i_j_pairs = i_j_pairs
    if self.i_j_pairs is None:
        self.i_j_pairs = None


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "Mutation2OptIntersection.mutate_and_compute_obj")
def _(self, variable):
    reset_end = False
    if True:
        reset_end = True
        ints = find_intersection(variable, self.points, nb_tests=min(3000, self.node_count - 2))
        self.i_j_pairs = ints
        if len(self.i_j_pairs) == 0:
            return (variable, LocalMoveDefault(variable, variable), {'length': variable.length})
    min_change = float('inf')
    perm = variable.permutation
    for i, j in self.i_j_pairs:
        i_before, i_, j_, j_after = self.get_points_index(i, j, variable)
        change = self.evaluate_function_indexes(i_before, j_) - self.evaluate_function_indexes(i_before, i_) - self.evaluate_function_indexes(j_, j_after) + self.evaluate_function_indexes(i_, j_after)
        if change < min_change:
            it = i
            jt = j
            min_change = change
    fitness = variable.length + min_change
    i_before, i_, j_, j_after = self.get_points_index(it, jt, variable)
    permut = variable.permutation[:it] + variable.permutation[it:jt + 1][::-1] + variable.permutation[jt + 1:]
    lengths = []
    if it > 0:
        lengths += list(variable.lengths[:it])
    lengths += [self.evaluate_function_indexes(i_before, j_)]
    lengths += list(variable.lengths[it + 1:jt + 1][::-1])
    lengths += [self.evaluate_function_indexes(i_, j_after)]
    if jt < self.length_permutation - 1:
        lengths += list(variable.lengths[jt + 2:])
    if False:
        pass
    if reset_end:
        self.i_j_pairs = None
    if min_change < 0 or not self.return_only_improvement:
        v = SolutionTSP(start_index=variable.start_index, end_index=variable.end_index, permutation=permut, lengths=lengths, length=fitness, problem=self.tsp_model)
        return (v, LocalMoveDefault(variable, v), {'length': fitness})
    else:
        return (variable, LocalMoveDefault(variable, variable), {'length': variable.length})


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "SwapTSPMove.__init__")
def _(self, attribute, tsp_model, swap):
    self.attribute = attribute
    self.tsp_model = tsp_model
    self.swap = swap


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "SwapTSPMove.apply_local_move")
def _(self, solution):
    current = getattr(solution, self.attribute)
    i1, i2 = self.swap
    v1, v2 = (current[i1], current[i2])
    current[i1], current[i2] = (v2, v1)
    i_before, i, j, j_after = get_points_index(i1, i2, solution, self.tsp_model.length_permutation)
    previous = (solution.lengths[i1], solution.lengths[i1 + 1], solution.lengths[i2], solution.lengths[i2 + 1])
    solution.lengths[i1] = self.tsp_model.evaluate_function_indexes(i_before, current[i1])
    solution.lengths[i1 + 1] = self.tsp_model.evaluate_function_indexes(current[i1], current[i1 + 1])
    solution.lengths[i2] = self.tsp_model.evaluate_function_indexes(current[i2 - 1], current[i2])
    solution.lengths[i2 + 1] = self.tsp_model.evaluate_function_indexes(current[i2], j_after)
    if False:
        pass
    solution.length = solution.length + solution.lengths[i1] + solution.lengths[i1 + 1] + solution.lengths[i2] + solution.lengths[i2 + 1] + -sum(previous)
    return solution


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "SwapTSPMove.backtrack_local_move")
def _(self, solution):
    return self.apply_local_move(solution)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "MutationSwapTSP.build")
def _(problem, solution, **kwargs):
    return MutationSwapTSP(problem)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "MutationSwapTSP.__init__")
def _(self, tsp_model):
    self.tsp_model = tsp_model
    self.length_permutation = tsp_model.length_permutation


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "MutationSwapTSP.mutate")
def _(self, solution):
    i = random.randint(0, self.length_permutation - 2)
    j = random.randint(i + 1, min(self.length_permutation - 1, i + 1 + 3))
    two_opt_move = SwapTSPMove('permutation', self.tsp_model, (i, j))
    new_sol = two_opt_move.apply_local_move(solution)
    return (new_sol, two_opt_move)


@spec("builders/discrete_optimization/tsp/mutation/mutation_tsp.py", "MutationSwapTSP.mutate_and_compute_obj")
def _(self, solution):
    sol, move = self.mutate(solution)
    return (sol, move, {'length': sol.length})


@spec("builders/discrete_optimization/tsp/tsp_parser.py", "get_data_available")
def _():
    files = [f for f in os.listdir(folder_data) if 'pk' not in f and 'json' not in f]
    return [os.path.join(folder_data, f) for f in files]


@spec("builders/discrete_optimization/tsp/tsp_parser.py", "parse_file")
def _(file_path, start_index=None, end_index=None):
    with open(file_path, 'r') as input_data_file:
        input_data = input_data_file.read()
        lines = input_data.split('\n')
        node_count = int(lines[0])
        points = []
        for i in range(1, node_count + 1):
            line = lines[i]
            parts = line.split()
            points.append(Point2D(float(parts[0]), float(parts[1])))
        return TSPModel2D(list_points=points, node_count=node_count, start_index=start_index, end_index=end_index, use_numba=False)


@spec("builders/discrete_optimization/tsp/solver/solver_ortools.py", "TSP_ORtools.__init__")
def _(self, tsp_model, params_objective_function):
    self.tsp_model = tsp_model
    self.node_count = self.tsp_model.node_count
    self.list_points = self.tsp_model.list_points
    self.start_index = self.tsp_model.start_index
    self.end_index = self.tsp_model.end_index
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.tsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/tsp/solver/solver_ortools.py", "TSP_ORtools.init_model")
def _(self, **kwargs):
    if self.node_count < 1000:
        matrix = build_matrice_distance(self.node_count, self.list_points, method=self.tsp_model.evaluate_function_indexes)
        distance_matrix = (10 ** 6 * matrix).astype(int)

        def distance_callback(from_index, to_index):
            from_node = manager.IndexToNode(from_index)
            to_node = manager.IndexToNode(to_index)
            return distance_matrix[from_node, to_node]
    else:

        def distance_callback(from_index, to_index):
            from_node = manager.IndexToNode(from_index)
            to_node = manager.IndexToNode(to_index)
            return int(10 ** 6 * self.tsp_model.evaluate_function_indexes(from_node, to_node))
    manager = pywrapcp.RoutingIndexManager(self.node_count, 1, [self.start_index], [self.end_index])
    routing = pywrapcp.RoutingModel(manager)
    transit_callback_index = routing.RegisterTransitCallback(distance_callback)
    routing.SetArcCostEvaluatorOfAllVehicles(transit_callback_index)
    search_parameters = pywrapcp.DefaultRoutingSearchParameters()
    search_parameters.first_solution_strategy = routing_enums_pb2.FirstSolutionStrategy.PATH_CHEAPEST_ARC
    search_parameters.local_search_metaheuristic = routing_enums_pb2.LocalSearchMetaheuristic.GUIDED_LOCAL_SEARCH
    search_parameters.time_limit.seconds = 30
    self.manager = manager
    self.routing = routing
    self.search_parameters = search_parameters


@spec("builders/discrete_optimization/tsp/solver/solver_ortools.py", "TSP_ORtools.solve")
def _(self):
    solution = self.routing.SolveWithParameters(self.search_parameters)
    index = self.routing.Start(0)
    index_real = self.manager.IndexToNode(index)
    sol = [index_real]
    route_distance = 0
    while not self.routing.IsEnd(index):
        previous_index = index
        index = solution.Value(self.routing.NextVar(index))
        index_real = self.manager.IndexToNode(index)
        sol += [index_real]
        route_distance += self.routing.GetArcCostForVehicle(previous_index, index, 0)
    variableTSP = SolutionTSP(problem=self.tsp_model, start_index=self.tsp_model.start_index, end_index=self.tsp_model.end_index, permutation=sol[1:-1], lengths=None, length=None)
    fitness = self.aggreg_sol(variableTSP)
    return ResultStorage(list_solution_fits=[(variableTSP, fitness)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/tsp/solver/tsp_cp_solver.py", "TSP_CP_Solver.__init__")
def _(self, tsp_model, model_type, params_objective_function):
    self.tsp_model = tsp_model
    self.model_type = model_type
    self.start_index = self.tsp_model.start_index
    self.end_index = self.tsp_model.end_index
    self.instance = None
    self.key_decision_variable = ['x']
    self.distance_matrix = build_matrice_distance(self.tsp_model.node_count, self.tsp_model.list_points, method=self.tsp_model.evaluate_function_indexes)
    self.distance_matrix[self.end_index, self.start_index] = 0
    self.distance_list_2d = [[int(x) if model_type == TSP_CPModel.INT_VERSION else x for x in self.distance_matrix[i, :]] for i in range(self.distance_matrix.shape[0])]
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.tsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/tsp/solver/tsp_cp_solver.py", "TSP_CP_Solver.init_model")
def _(self, **args):
    solver = args.get('solver', 'chuffed')
    if self.model_type == TSP_CPModel.FLOAT_VERSION:
        model = Model(os.path.join(this_path, '../minizinc/tsp_float.mzn'))
    if self.model_type == TSP_CPModel.INT_VERSION:
        model = Model(os.path.join(this_path, '../minizinc/tsp_int.mzn'))
    solver = Solver.lookup(solver)
    instance = Instance(solver, model)
    instance['n'] = self.tsp_model.node_count
    instance['distances'] = self.distance_list_2d
    instance['start'] = self.start_index + 1
    instance['end'] = self.end_index + 1
    self.instance = instance


@spec("builders/discrete_optimization/tsp/solver/tsp_cp_solver.py", "TSP_CP_Solver.solve")
def _(self, **args):
    max_time_seconds = args.get('max_time_seconds', 5)
    result = self.instance.solve(timeout=timedelta(seconds=max_time_seconds))
    circuit = result['x']
    start_index = self.start_index
    path = []
    cur_pos = self.start_index
    init = False
    while cur_pos != self.end_index or not init:
        next_pos = circuit[cur_pos] - 1
        path += [next_pos]
        cur_pos = next_pos
        init = True
    var_tsp = SolutionTSP(problem=self.tsp_model, start_index=self.start_index, end_index=self.end_index, permutation=path[:-1], length=None, lengths=None)
    fit = self.aggreg_sol(var_tsp)
    return ResultStorage(list_solution_fits=[(var_tsp, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPSolution.__init__")
def _(self, tour, packing, **kwargs):
    self.tour = tour
    self.packing = packing
    self.time_trip = kwargs.get('time_trip', 0)
    self.distance = kwargs.get('distance', 0)
    self.profit = kwargs.get('profit', 0)
    self.weight_used = kwargs.get('weight_used', 0)
    self.weight_end = kwargs.get('weight_end', 0)
    self.objective = kwargs.get('objective', 0)
    self.weight_array = kwargs.get('weight_array', 0)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPSolution.copy")
def _(self):
    return TTPSolution(np.copy(self.tour), np.copy(self.packing), time_trip=self.time_trip, distance=self.distance, profit=self.profit, weight_used=self.weight_used, weight_end=self.weight_end, objective=self.objective, weight_array=self.weight_array)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "distance")
def _(point1, point2):
    return math.sqrt((point1['x'] - point2['x']) ** 2 + (point1['y'] - point2['y']) ** 2)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.satisfy")
def _(self, variable):
    return True


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.get_attribute_register")
def _(self):
    dict_attribute = {'tour': {'name': 'tour', 'type': [TypeAttribute.PERMUTATION, TypeAttribute.PERMUTATION_TSP], 'range': range(self.numberOfNodes), 'n': self.numberOfNodes}}
    return EncodingRegister(dict_attribute)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.get_solution_type")
def _(self):
    return TTPSolution


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.get_objective_register")
def _(self):
    return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION, objective_handling=ObjectiveHandling.AGGREGATE, dict_objective_to_doc={'obj': {'type': TypeObjective.OBJECTIVE, 'default_weight': 1}})


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.__init__")
def _(self, problemName=None, knapsackDataType=None, numberOfNodes=None, numberOfItems=None, capacityOfKnapsack=None, minSpeed=None, maxSpeed=None, rentingRatio=None, edgeWeightType=None, nodes=None, items=None, nodes_array=None, items_array=None):
    self.problemName = problemName
    self.knapsackDataType = knapsackDataType
    self.numberOfNodes = numberOfNodes
    self.numberOfItems = numberOfItems
    self.capacityOfKnapsack = capacityOfKnapsack
    self.minSpeed = minSpeed
    self.maxSpeed = maxSpeed
    self.rentingRatio = rentingRatio
    self.edgeWeightType = edgeWeightType
    self.nodes = nodes
    self.items = items
    self.weights = np.array([item['weight'] for item in self.items])
    self.profits = np.array([item['profit'] for item in self.items])
    self.av = np.zeros((self.numberOfItems, self.numberOfNodes))
    self.nodes_array = nodes_array
    self.items_array = items_array
    for i in range(len(self.items)):
        self.av[i, self.items[i]['node_index']] = 1
    self.evaluate_function = build_obj_function(self)
    self.evaluate_function_details = build_obj_function_details(self)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.evaluate")
def _(self, solution):
    objective, profit, distance_tour, time_trip, weight_used, weight_end = self.evaluate_function(solution.tour, solution.packing)
    solution.time_trip = time_trip
    solution.distance = distance_tour
    solution.profit = profit
    solution.weight_used = weight_used
    solution.weight_end = weight_end
    solution.objective = objective
    return {'obj': solution.objective}


@spec("builders/discrete_optimization/ttp/ttp_model.py", "TTPModel.evaluate_details")
def _(self, solution):
    objective, profit, distance_tour, time_trip, weight_used, weight_end, weight_array = self.evaluate_function_details(solution.tour, solution.packing)
    solution.time_trip = time_trip
    solution.distance = distance_tour
    solution.profit = profit
    solution.weight_used = weight_used
    solution.weight_end = weight_end
    solution.objective = objective
    solution.weight_array = weight_array
    return solution.objective


@spec("builders/discrete_optimization/ttp/ttp_model.py", "build_obj_function")
def _(ttp_model):
    return partial(evaluate, capacityOfKnapsack=ttp_model.capacityOfKnapsack, rentingRatio=ttp_model.rentingRatio, minSpeed=ttp_model.minSpeed, maxSpeed=ttp_model.maxSpeed, items_array=ttp_model.items_array, nodes_array=ttp_model.nodes_array, av=ttp_model.av)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "build_obj_function_details")
def _(ttp_model):
    return partial(evaluate_with_details, capacityOfKnapsack=ttp_model.capacityOfKnapsack, rentingRatio=ttp_model.rentingRatio, minSpeed=ttp_model.minSpeed, maxSpeed=ttp_model.maxSpeed, items_array=ttp_model.items_array, nodes_array=ttp_model.nodes_array, av=ttp_model.av)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "evaluate")
def _(tour, packing, capacityOfKnapsack, rentingRatio, minSpeed, maxSpeed, items_array, nodes_array, av):
    z = packing
    weightofKnapsack = capacityOfKnapsack
    rentRate = rentingRatio
    vmin = minSpeed
    vmax = maxSpeed
    if tour[0] != tour[len(tour) - 1]:
        return
    wc = 0
    time_trip = 0
    profit = 0
    distance_tour = 0
    for i in range(len(tour) - 1):
        selectedItem = [j for j in range(len(z)) if z[j] == tour[i]]
        currentcitytemp = tour[i]
        currentcity = currentcitytemp - 1
        availabilityCounter = 0
        for p in selectedItem:
            if av[p, tour[i]] != 1:
                break
        if len(selectedItem) > 0:
            for item in selectedItem:
                wc = wc + items_array[item, 2]
                profit = profit + items_array[item, 1]
        distance_i = math.sqrt((nodes_array[tour[i], 1] - nodes_array[tour[i + 1], 1]) ** 2 + (nodes_array[tour[i], 2] - nodes_array[tour[i + 1], 2]) ** 2)
        distance_tour += distance_i
        time_trip = time_trip + distance_i / (vmax - wc * (vmax - vmin) / weightofKnapsack)
    weight_used = wc
    weight_end = weightofKnapsack - wc
    objective = profit - time_trip * rentRate
    return (objective, profit, distance_tour, time_trip, weight_used, weight_end)


@spec("builders/discrete_optimization/ttp/ttp_model.py", "evaluate_with_details")
def _(tour, packing, capacityOfKnapsack, rentingRatio, minSpeed, maxSpeed, items_array, nodes_array, av):
    z = packing
    weightofKnapsack = capacityOfKnapsack
    rentRate = rentingRatio
    vmin = minSpeed
    vmax = maxSpeed
    if tour[0] != tour[len(tour) - 1]:
        return
    wc = 0
    time_trip = 0
    profit = 0
    distance_tour = 0
    lll = len(tour) - 1
    weight_array = np.zeros(lll, dtype=np.int32)
    for i in range(lll):
        selectedItem = [j for j in range(len(z)) if z[j] == tour[i]]
        currentcitytemp = tour[i]
        currentcity = currentcitytemp - 1
        availabilityCounter = 0
        for p in selectedItem:
            if av[p, tour[i]] != 1:
                break
        if len(selectedItem) > 0:
            for item in selectedItem:
                wc = wc + items_array[item, 2]
                profit = profit + items_array[item, 1]
        weight_array[i] = wc
        distance_i = math.sqrt((nodes_array[tour[i], 1] - nodes_array[tour[i + 1], 1]) ** 2 + (nodes_array[tour[i], 2] - nodes_array[tour[i + 1], 2]) ** 2)
        distance_tour += distance_i
        time_trip = time_trip + distance_i / (vmax - wc * (vmax - vmin) / weightofKnapsack)
    weight_used = wc
    weight_end = weightofKnapsack - wc
    objective = profit - time_trip * rentRate
    return (objective, profit, distance_tour, time_trip, weight_used, weight_end, weight_array)


@spec("builders/discrete_optimization/ttp/ttp_parser.py", "get_data_available")
def _():
    return [os.path.join(folder_data, f) for f in list_files] + [os.path.join(folder_data_gecco, f) for f in list_files_gecco]


@spec("builders/discrete_optimization/ttp/ttp_parser.py", "parse")
def _(file_path):
    with open(file_path) as fp:
        line = fp.readline()
        cnt = 1
        problemName = None
        knapsackDataType = None
        numberOfNodes = None
        numberOfItems = None
        capacityOfKnapsack = None
        minSpeed = None
        maxSpeed = None
        rentingRatio = None
        edgeWeightType = None
        nodes = None
        items = None
        nodes_array = None
        items_array = None
        while line:
            cnt += 1
            if line.startswith('PROBLEM NAME'):
                line = line[line.index(':') + 1:]
                line = line.split()
                problemName = line[0]
            elif line.startswith('KNAPSACK DATA TYPE'):
                line = line[line.index(':') + 1:]
                line = line.split()
                knapsackDataType = line[0]
            elif line.startswith('DIMENSION'):
                line = line[line.index(':') + 1:]
                line = line.split()
                numberOfNodes = int(line[0])
            elif line.startswith('NUMBER OF ITEMS'):
                line = line[line.index(':') + 1:]
                line = line.split()
                numberOfItems = int(line[0])
            elif line.startswith('CAPACITY OF KNAPSACK'):
                line = line[line.index(':') + 1:]
                line = line.split()
                capacityOfKnapsack = float(line[0])
            elif line.startswith('MIN SPEED'):
                line = line[line.index(':') + 1:]
                line = line.split()
                minSpeed = float(line[0])
            elif line.startswith('MAX SPEED'):
                line = line[line.index(':') + 1:]
                line = line.split()
                maxSpeed = float(line[0])
            elif line.startswith('RENTING RATIO'):
                line = line[line.index(':') + 1:]
                line = line.split()
                rentingRatio = float(line[0])
            elif line.startswith('EDGE_WEIGHT_TYPE'):
                line = line[line.index(':') + 1:]
                line = line.split()
                edgeWeightType = line[0]
            elif line.startswith('NODE_COORD_SECTION'):
                nodes = []
                nodes_array = np.zeros((numberOfNodes, 3), dtype=int)
                for i in range(numberOfNodes):
                    line = fp.readline()
                    line = line.split()
                    significa = ['index', 'x', 'y']
                    n = {}
                    for j in range(len(line)):
                        temp = int(line[j])
                        if j == 0:
                            temp = temp - 1
                            temp = i
                        n[significa[j]] = temp
                        nodes_array[i, j] = temp
                    nodes += [n]
            elif line.startswith('ITEMS SECTION'):
                items = []
                items_array = np.zeros((numberOfItems, 4), dtype=int)
                for j in range(numberOfItems):
                    line = fp.readline()
                    line = line.split()
                    significa = ['index', 'profit', 'weight', 'node_index']
                    item = {}
                    for l in range(len(line)):
                        temp = int(line[l])
                        if l in {0, 3}:
                            temp = temp - 1
                        if l == 0:
                            temp = j
                        item[significa[l]] = temp
                        items_array[j, l] = temp
                    items += [item]
            line = fp.readline()
        return TTPModel(problemName, knapsackDataType, numberOfNodes, numberOfItems, capacityOfKnapsack, minSpeed, maxSpeed, rentingRatio, edgeWeightType, nodes, items, nodes_array, items_array)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "build_matrice_distance_np")
def _(customer_count, customers):
    matrix_x = np.ones((customer_count, customer_count), dtype=np.int32)
    matrix_y = np.ones((customer_count, customer_count), dtype=np.int32)
    for i in range(customer_count):
        matrix_x[i, :] *= int(customers[i].x)
        matrix_y[i, :] *= int(customers[i].y)
    matrix_x = matrix_x - np.transpose(matrix_x)
    matrix_y = matrix_y - np.transpose(matrix_y)
    distances = np.abs(matrix_x) + np.abs(matrix_y)
    sorted_distance = np.argsort(distances, axis=1)
    return (sorted_distance, distances)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "build_graph_pruned_vrp")
def _(vrp_problem):
    customer_count = vrp_problem.customer_count
    customers = vrp_problem.customers
    vehicle_count = vrp_problem.vehicle_count
    sd, d = build_matrice_distance_np(customer_count, customers)
    g = nx.DiGraph()
    g.add_nodes_from([(v, i) for i in range(customer_count) for v in range(vehicle_count)])
    shape = sd.shape[0]
    edges_in_customers = {i: set() for i in range(customer_count)}
    edges_out_customers = {i: set() for i in range(customer_count)}
    edges_in_merged_graph = {n: set() for n in g.nodes()}
    edges_out_merged_graph = {n: set() for n in g.nodes()}
    for i in range(shape):
        nodes_to_add = sd[i, 1:10]
        for n in nodes_to_add:
            for v in range(vehicle_count):
                if n == i:
                    continue
                node_1 = (v, i)
                node_2 = (v, n)
                g.add_edge(node_1, node_2, weight=length(customers[i], customers[n]), demand=customers[n].demand)
                g.add_edge(node_2, node_1, weight=length(customers[i], customers[n]), demand=customers[i].demand)
                edges_in_merged_graph[node_2].add((node_1, node_2))
                edges_out_merged_graph[node_1].add((node_1, node_2))
                edges_in_merged_graph[node_1].add((node_2, node_1))
                edges_out_merged_graph[node_2].add((node_2, node_1))
                edges_in_customers[n].add((node_1, node_2))
                edges_out_customers[i].add((node_1, node_2))
                edges_in_customers[i].add((node_2, node_1))
                edges_out_customers[n].add((node_2, node_1))
        nodes_to_add = range(i, min(i + 5, customer_count))
        for n in nodes_to_add:
            for v in range(vehicle_count):
                if n == i:
                    continue
                node_1 = (v, i)
                node_2 = (v, n)
                g.add_edge(node_1, node_2, weight=length(customers[i], customers[n]), demand=customers[n].demand)
                g.add_edge(node_2, node_1, weight=length(customers[i], customers[n]), demand=customers[i].demand)
                edges_in_merged_graph[node_2].add((node_1, node_2))
                edges_out_merged_graph[node_1].add((node_1, node_2))
                edges_in_merged_graph[node_1].add((node_2, node_1))
                edges_out_merged_graph[node_2].add((node_2, node_1))
                edges_in_customers[n].add((node_1, node_2))
                edges_out_customers[i].add((node_1, node_2))
                edges_in_customers[i].add((node_2, node_1))
                edges_out_customers[n].add((node_2, node_1))
        for v in range(vehicle_count):
            nodes_to_add = [vrp_problem.start_indexes[v], vrp_problem.end_indexes[v]]
            for n in nodes_to_add:
                if n == i:
                    continue
                node_1 = (v, i)
                node_2 = (v, n)
                g.add_edge(node_1, node_2, weight=length(customers[i], customers[n]), demand=customers[n].demand)
                g.add_edge(node_2, node_1, weight=length(customers[i], customers[n]), demand=customers[i].demand)
                edges_in_merged_graph[node_2].add((node_1, node_2))
                edges_out_merged_graph[node_1].add((node_1, node_2))
                edges_in_merged_graph[node_1].add((node_2, node_1))
                edges_out_merged_graph[node_2].add((node_2, node_1))
                edges_in_customers[n].add((node_1, node_2))
                edges_out_customers[i].add((node_1, node_2))
                edges_in_customers[i].add((node_2, node_1))
                edges_out_customers[n].add((node_2, node_1))
    if False:
        for v in range(vehicle_count):
            start = vrp_problem.start_indexes[v]
            end = vrp_problem.end_indexes[v]
            g.add_edge((v, start), (v, end), weight=vrp_problem.evaluate_function_indexes(start, end), demand=customers[end].demand)
            edges_in_merged_graph[v, end].add(((v, start), (v, end)))
            edges_out_merged_graph[v, start].add(((v, start), (v, end)))
            edges_in_customers[end].add(((v, start), (v, end)))
            edges_out_customers[start].add(((v, start), (v, end)))
    g_empty = nx.DiGraph()
    g_empty.add_nodes_from([(v, i) for i in range(customer_count) for v in range(vehicle_count)])
    return (g, g_empty, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "compute_start_end_flows_info")
def _(start_indexes, end_indexes):
    start_to_i = {}
    end_to_i = {}
    for i in range(len(start_indexes)):
        s = start_indexes[i]
        e = end_indexes[i]
        if s not in start_to_i:
            start_to_i[s] = {'nb': 0, 'vehicle': set()}
        if e not in end_to_i:
            end_to_i[e] = {'nb': 0, 'vehicle': set()}
        start_to_i[s]['nb'] += 1
        start_to_i[s]['vehicle'].add(i)
        end_to_i[e]['nb'] += 1
        end_to_i[e]['vehicle'].add(i)
    return (start_to_i, end_to_i)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "init_model_lp")
def _(g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph, edges_warm_set, do_lns, fraction, start_indexes, end_indexes, vehicle_count, vehicle_capacity, include_backward=True, include_triangle=False):
    tsp_model = Model('VRP-master')
    x_var = {}
    constraint_on_edge = {}
    edges_to_constraint = set()
    if do_lns:
        edges_to_constraint = set(random.sample(list(edges), int(fraction * len(edges))))
        for iedge in constraint_on_edge:
            tsp_model.remove(constraint_on_edge[iedge])
    iedge = 0
    for e in edges:
        x_var[e] = tsp_model.addVar(vtype=GRB.BINARY, obj=g[e[0]][e[1]]['weight'], name='x_' + str(e))
        val = 0
        if e in edges_warm_set:
            x_var[e].start = 1
            x_var[e].varhintval = 1
            val = 1
        else:
            x_var[e].start = 0
            x_var[e].varhintval = 0
        if e in edges_to_constraint:
            constraint_on_edge[iedge] = tsp_model.addConstr(x_var[e] == val, name=str((e, iedge)))
            iedge += 1
    constraint_tour_2length = {}
    cnt_tour = 0
    if include_backward:
        for edge in edges:
            if (edge[1], edge[0]) in edges:
                if (edge[1], edge[0]) == edge:
                    continue
                if edge[0][1] == start_indexes[edge[0][0]] or edge[1][1] == start_indexes[edge[0][0]]:
                    continue
                if edge[0][1] == end_indexes[edge[0][0]] or edge[1][1] == end_indexes[edge[0][0]]:
                    continue
                constraint_tour_2length[cnt_tour] = tsp_model.addConstr(x_var[edge] + x_var[edge[1], edge[0]] <= 1, name='tour_' + str(edge))
                cnt_tour += 1
    if include_triangle:
        constraint_triangle = {}
        for node in g.nodes():
            neigh = set([n for n in nx.neighbors(g, node)])
            neigh_2 = {nn: neigh.intersection([n for n in nx.neighbors(g, nn)]) for nn in neigh}
            for node_neigh in neigh_2:
                if len(neigh_2[node_neigh]) >= 1:
                    for node_neigh_neigh in neigh_2[node_neigh]:
                        constraint_triangle[cnt_tour] = tsp_model.addConstr(x_var[node, node_neigh] + x_var[node_neigh, node_neigh_neigh] + x_var[node_neigh_neigh, node] <= 2)
    tsp_model.update()
    constraint_flow_in = {}
    constraint_flow_out = {}
    start_to_i, end_to_i = compute_start_end_flows_info(start_indexes, end_indexes)
    for s in start_to_i:
        for vehicle in start_to_i[s]['vehicle']:
            constraint_flow_out['start_v_' + str(vehicle)] = tsp_model.addConstr(quicksum([x_var[e] for e in edges_out_customers[s] if e[0][0] == vehicle]) == 1, name='start_v_' + str(vehicle))
    for s in end_to_i:
        for vehicle in end_to_i[s]['vehicle']:
            constraint_flow_in['end_v_' + str(vehicle)] = tsp_model.addConstr(quicksum([x_var[e] for e in edges_in_customers[s] if e[0][0] == vehicle]) == 1, name='end_v_' + str(vehicle))
    for customer in edges_in_customers:
        if customer in end_to_i or customer in start_to_i:
            continue
        else:
            constraint_flow_in[customer] = tsp_model.addConstr(quicksum([x_var[e] for e in edges_in_customers[customer]]) == 1, name='in_' + str(customer))
    c_flow = {}
    for n in edges_in_merged_graph:
        if start_indexes[n[0]] == end_indexes[n[0]] or n[1] not in [start_indexes[n[0]], end_indexes[n[0]]]:
            c_flow[n] = tsp_model.addConstr(quicksum([x_var[e] for e in edges_in_merged_graph[n]] + [-x_var[e] for e in edges_out_merged_graph[n]]) == 0, name='flow_' + str(n))
    for v in range(vehicle_count):
        tsp_model.addConstr(quicksum([g[e[0]][e[1]]['demand'] * x_var[e] for e in edges if e[0][0] == v]) <= vehicle_capacity[v], name='capa_' + str(v))
    tsp_model.setParam('TimeLimit', 800)
    tsp_model.modelSense = GRB.MINIMIZE
    tsp_model.setParam(GRB.Param.Threads, 8)
    tsp_model.setParam(GRB.Param.PoolSolutions, 10000)
    tsp_model.setParam(GRB.Param.Method, -1)
    tsp_model.setParam('MIPGapAbs', 0.01)
    tsp_model.setParam('MIPGap', 0.003)
    tsp_model.setParam('Heuristics', 0.1)
    return (tsp_model, x_var, constraint_flow_in, constraint_flow_out, constraint_on_edge)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "update_graph")
def _(g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph, missing_edge, customers):
    for edge in missing_edge:
        g.add_edge(edge[0], edge[1], weight=length(customers[edge[0][1]], customers[edge[1][1]]), demand=customers[edge[1][1]].demand)
        g.add_edge(edge[1], edge[0], weight=length(customers[edge[0][1]], customers[edge[1][1]]), demand=customers[edge[0][1]].demand)
        edges_in_merged_graph[edge[1]].add((edge[0], edge[1]))
        edges_out_merged_graph[edge[0]].add((edge[0], edge[1]))
        edges_in_customers[edge[1][1]].add((edge[0], edge[1]))
        edges_out_customers[edge[0][1]].add((edge[0], edge[1]))
        edges_in_merged_graph[edge[0]].add((edge[1], edge[0]))
        edges_out_merged_graph[edge[1]].add((edge[1], edge[0]))
        edges_in_customers[edge[0][1]].add((edge[1], edge[0]))
        edges_out_customers[edge[1][1]].add((edge[1], edge[0]))
        edges.add((edge[0], edge[1]))
        edges.add((edge[1], edge[0]))
    return (g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "build_warm_edges_and_update_graph")
def _(vrp_problem, vrp_solution, graph, edges, edges_in_merged_graph, edges_out_merged_graph, edges_in_customers, edges_out_customers):
    vehicle_paths = deepcopy(vrp_solution.list_paths)
    edges_warm = []
    edges_warm_set = set()
    for i in range(len(vehicle_paths)):
        vehicle_paths[i] = [vrp_problem.start_indexes[i]] + vehicle_paths[i] + [vrp_problem.end_indexes[i]]
        edges_warm += [[((i, v1), (i, v2)) for v1, v2 in zip(vehicle_paths[i][:-1], vehicle_paths[i][1:])]]
        edges_warm_set.update(set(edges_warm[i]))
        missing_edge = [e for e in set(edges_warm[i]) if e not in edges]
        for edge in missing_edge:
            graph.add_edge(edge[0], edge[1], weight=vrp_problem.evaluate_function_indexes(edge[0][1], edge[1][1]), demand=vrp_problem.customers[edge[1][1]].demand)
            graph.add_edge(edge[1], edge[0], weight=vrp_problem.evaluate_function_indexes(edge[1][1], edge[0][1]), demand=vrp_problem.customers[edge[0][1]].demand)
            edges_in_merged_graph[edge[1]].add((edge[0], edge[1]))
            edges_out_merged_graph[edge[0]].add((edge[0], edge[1]))
            edges_in_customers[edge[1][1]].add((edge[0], edge[1]))
            edges_out_customers[edge[0][1]].add((edge[0], edge[1]))
            edges_in_merged_graph[edge[0]].add((edge[1], edge[0]))
            edges_out_merged_graph[edge[1]].add((edge[1], edge[0]))
            edges_in_customers[edge[0][1]].add((edge[1], edge[0]))
            edges_out_customers[edge[1][1]].add((edge[1], edge[0]))
            edges.add((edge[0], edge[1]))
            edges.add((edge[1], edge[0]))
    return (edges_warm, edges_warm_set)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "VRPIterativeLP.__init__")
def _(self, problem, params_objective_function):
    self.problem = problem
    self.model = None
    self.x_var = None
    self.constraint_on_edge = None
    self.aggreg_sol, self.aggreg_fit, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "VRPIterativeLP.init_model")
def _(self, **kwargs):
    g, g_empty, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph = build_graph_pruned_vrp(self.problem)
    initial_solution = kwargs.get('initial_solution', None)
    if initial_solution is None:
        solution = self.problem.get_dummy_solution()
    else:
        vehicle_tours_b = initial_solution
        solution = VrpSolution(problem=self.problem, list_start_index=self.problem.start_indexes, list_end_index=self.problem.end_indexes, list_paths=vehicle_tours_b, length=None, lengths=None, capacities=None)
    edges = set(g.edges())
    edges_warm, edges_warm_set = build_warm_edges_and_update_graph(vrp_problem=self.problem, vrp_solution=solution, graph=g, edges=edges, edges_in_merged_graph=edges_in_merged_graph, edges_out_merged_graph=edges_out_merged_graph, edges_in_customers=edges_in_customers, edges_out_customers=edges_out_customers)
    do_lns = kwargs.get('do_lns', False)
    fraction = kwargs.get('fraction_lns', 0.9)
    tsp_model, x_var, constraint_flow_in, constraint_flow_out, constraint_on_edge = init_model_lp(g=g, edges=edges, edges_in_customers=edges_in_customers, edges_out_customers=edges_out_customers, edges_in_merged_graph=edges_in_merged_graph, edges_out_merged_graph=edges_out_merged_graph, edges_warm_set=edges_warm_set, start_indexes=self.problem.start_indexes, end_indexes=self.problem.end_indexes, do_lns=do_lns, fraction=fraction, vehicle_count=self.problem.vehicle_count, vehicle_capacity=self.problem.vehicle_capacities)
    self.model = tsp_model
    self.x_var = x_var
    self.constraint_on_edge = constraint_on_edge
    self.graph = g
    self.graph_infos = {'edges': edges, 'edges_in_customers': edges_in_customers, 'edges_out_customers': edges_out_customers, 'edges_in_merged_graph': edges_in_merged_graph, 'edges_out_merged_graph': edges_out_merged_graph, 'edges_warm_set': edges_warm_set}


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "build_the_cycles")
def _(x_solution, component, start_index, end_index):
    edge_of_interest = {e for e in x_solution if e[1] in component and e[0] in component}
    innn = {e[1]: e for e in edge_of_interest}
    outt = {e[0]: e for e in edge_of_interest}
    if start_index in outt:
        some_node = start_index
    else:
        some_node = next((e[0] for e in edge_of_interest))
    end_node = some_node if end_index not in innn else end_index
    path = [some_node]
    cur_edge = outt[some_node]
    indexes = {some_node: 0}
    cur_index = 1
    while cur_edge[1] != end_node:
        path += [cur_edge[1]]
        indexes[cur_edge[1]] = cur_index
        cur_index += 1
        cur_edge = outt[cur_edge[1]]
    if end_index in innn:
        path += [end_node]
        indexes[end_node] = cur_index
    return (path, indexes)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "rebuild_tsp_routine")
def _(sorted_connected_component, paths_component, node_to_component, indexes, graph, edges, evaluate_function_indexes, vrp_model, start_index, end_index, verbose=False):
    rebuilded_path = list(paths_component[node_to_component[start_index]])
    component_end = node_to_component[end_index]
    component_reconnected = {node_to_component[start_index]}
    current_component = sorted_connected_component[node_to_component[start_index]]
    path_set = set(rebuilded_path)
    total_length_path = len(rebuilded_path)
    while len(component_reconnected) < len(sorted_connected_component):
        if len(component_reconnected) == len(sorted_connected_component) - 1 and end_index != start_index and (node_to_component[end_index] != node_to_component[start_index]):
            rebuilded_path = rebuilded_path + paths_component[component_end]
            component_reconnected.add(component_end)
        else:
            index_path = {rebuilded_path[i]: i for i in range(len(rebuilded_path))}
            index_path = {}
            for i in range(len(rebuilded_path)):
                if rebuilded_path[i] not in index_path:
                    index_path[rebuilded_path[i]] = []
                index_path[rebuilded_path[i]] += [i]
            edge_out_of_interest = {e for e in edges if e[0] in path_set and e[1] not in path_set}
            edge_in_of_interest = {e for e in edges if e[0] not in path_set and e[1] in path_set}
            min_out_edge = None
            min_in_edge = None
            min_index_in_path = None
            min_component = None
            min_dist = float('inf')
            backup_min_out_edge = None
            backup_min_in_edge = None
            backup_min_index_in_path = None
            backup_min_component = None
            backup_min_dist = float('inf')
            for e in edge_out_of_interest:
                index_in = index_path[e[0]][0]
                index_in_1 = min(index_path[e[0]][0] + 1, total_length_path - 1)
                next_node_1 = rebuilded_path[index_in_1]
                component_e1 = node_to_component[e[1]]
                if component_e1 == component_end and len(component_reconnected) < len(sorted_connected_component) - 1:
                    continue
                index_component_e1 = indexes[component_e1][e[1]]
                index_component_e1_plus1 = index_component_e1 + 1
                if index_component_e1_plus1 >= len(paths_component[component_e1]):
                    index_component_e1_plus1 = 0
                next_node_component_e1 = paths_component[component_e1][index_component_e1_plus1]
                if (next_node_component_e1, next_node_1) in edge_in_of_interest:
                    cost = graph[e[0]][e[1]]['weight'] + graph[next_node_component_e1][next_node_1]['weight'] - graph[e[0]][next_node_1]['weight']
                    if cost < min_dist:
                        min_component = node_to_component[e[1]]
                        min_out_edge = e
                        min_in_edge = (next_node_component_e1, next_node_1)
                        min_index_in_path = index_in
                        min_dist = cost
                else:
                    cost = graph[e[0]][e[1]]['weight']
                    if cost < backup_min_dist:
                        backup_min_component = node_to_component[e[1]]
                        backup_min_out_edge = e
                        backup_min_in_edge = (next_node_component_e1, next_node_1)
                        backup_min_index_in_path = index_in
                        backup_min_dist = cost
            if min_out_edge is None:
                e = backup_min_in_edge
                graph.add_edge(e[0], e[1], weight=evaluate_function_indexes(e[0][0], e[1][0]))
                graph.add_edge(e[1], e[0], weight=evaluate_function_indexes(e[1][0], e[0][0]))
                min_out_edge = backup_min_out_edge
                min_in_edge = backup_min_in_edge
                min_index_in_path = backup_min_index_in_path
                min_component = backup_min_component
            len_this_component = len(paths_component[min_component])
            if verbose:
                pass
            index_of_in_component = indexes[min_component][min_out_edge[1]]
            new_component = [paths_component[min_component][(index_of_in_component + i) % len_this_component] for i in range(0, -len_this_component, -1)]
            if verbose:
                pass
            rebuilded_path = rebuilded_path[:min_index_in_path + 1] + new_component + rebuilded_path[min_index_in_path + 1:]
            for e1, e2 in zip(new_component[:-1], new_component[1:]):
                if (e1, e2) not in graph.edges():
                    graph.add_edge(e1, e2, weight=evaluate_function_indexes(e1, e2))
            path_set = set(rebuilded_path)
            total_length_path = len(rebuilded_path)
            component_reconnected.add(min_component)
    lengths, obj, capacities = compute_length(start_index=start_index[1], end_index=end_index[1], solution=[x[1] for x in rebuilded_path[1:-1]], list_customers=vrp_model.customers, method=vrp_model.evaluate_function_indexes)
    return (rebuilded_path, obj)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "retreve_solutions")
def _(model, x_var, vehicle_count, g):
    nSolutions = model.SolCount
    solutions = []
    for s in range(nSolutions):
        g_empty = {v: nx.DiGraph() for v in range(vehicle_count)}
        g_merge = nx.DiGraph()
        x_solution = {v: set() for v in range(vehicle_count)}
        model.params.SolutionNumber = s
        for e in x_var:
            value = x_var[e].getAttr('Xn')
            if value >= 0.5:
                vehicle = e[0][0]
                x_solution[vehicle].add(e)
                clients = (e[0], e[1])
                if clients[0] not in g_empty[vehicle]:
                    g_empty[vehicle].add_node(clients[0])
                if clients[1] not in g_empty[vehicle]:
                    g_empty[vehicle].add_node(clients[1])
                if clients[0][1] not in g_merge:
                    g_merge.add_node(clients[0][1])
                if clients[1][1] not in g_merge:
                    g_merge.add_node(clients[1][1])
                g_empty[vehicle].add_edge(clients[0], clients[1], weight=g[e[0]][e[1]]['weight'])
                g_merge.add_edge(clients[0][1], clients[1][1], weight=g[e[0]][e[1]]['weight'])
        solutions += [{'g_merge': g_merge.copy(), 'g_empty': g_empty, 'x_solution': x_solution.copy()}]
    return solutions


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "reevaluate_solutions")
def _(solutions, vehicle_count, g, vrp_problem):
    rebuilt_solution = []
    rebuilt_obj = []
    nb_components = []
    components = []
    components_global = []
    solutions_list = []
    for solution in solutions:
        g_empty = solution['g_empty']
        g_merge = solution['g_merge']
        x_solution = solution['x_solution']
        connected_components = {v: [(set(e), len(e)) for e in nx.weakly_connected_components(g_empty[v])] for v in g_empty}
        sorted_connected_component = {v: sorted(connected_components[v], key=lambda x: x[1], reverse=True) for v in connected_components}
        components += [sorted_connected_component]
        nb_components += [[len(sorted_connected_component[v]) for v in sorted_connected_component]]
        solutions_list += [x_solution.copy()]
        paths_component = {v: {} for v in range(vehicle_count)}
        indexes_component = {v: {} for v in range(vehicle_count)}
        node_to_component = {v: {} for v in range(vehicle_count)}
        nb_component = len(sorted_connected_component)
        rebuilt_dict = {}
        objective_dict = {}
        component_global = [(set(e), len(e)) for e in nx.weakly_connected_components(g_merge)]
        components_global += [component_global]
        nb_component_global = len(component_global)
        for v in range(vehicle_count):
            graph_of_interest = nx.subgraph(g, [e[0] for e in x_solution[v]] + [e[1] for e in x_solution[v]]).copy()
            nb = len(sorted_connected_component[v])
            for i in range(nb):
                s = sorted_connected_component[v][i]
                paths_component[v][i], indexes_component[v][i] = build_the_cycles(x_solution=x_solution[v], component=s[0], start_index=(v, vrp_problem.start_indexes[v]), end_index=(v, vrp_problem.end_indexes[v]))
                node_to_component[v].update({p: i for p in paths_component[v][i]})
            if True:
                rebuilt_dict[v], objective_dict[v] = rebuild_tsp_routine(sorted_connected_component=sorted_connected_component[v], paths_component=paths_component[v], node_to_component=node_to_component[v], start_index=(v, vrp_problem.start_indexes[v]), end_index=(v, vrp_problem.end_indexes[v]), indexes=indexes_component[v], graph=graph_of_interest, edges=set(graph_of_interest.edges()), evaluate_function_indexes=vrp_problem.evaluate_function_indexes, vrp_model=vrp_problem)
            else:
                rebuilt_dict[v], objective_dict[v] = (None, float('inf'))
        rebuilt_solution += [rebuilt_dict]
        rebuilt_obj += [sum(list(objective_dict.values()))]
    index_best = min(range(len(rebuilt_obj)), key=lambda x: rebuilt_obj[x])
    return (solutions_list[index_best], rebuilt_solution[index_best], rebuilt_obj[index_best], components[index_best], components_global[index_best], components, components_global)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "update_model")
def _(vrp_model, model, x_var, components_per_vehicle, edges_in_customers, edges_out_customers):
    for vehicle in components_per_vehicle:
        comps = components_per_vehicle[vehicle]
        if len(comps) > 1:
            for si in comps:
                s = (set([x[1] for x in si[0]]), si[1])
                edge_in_of_interest = [e for n in s[0] for e in edges_in_customers[n] if e[0][1] not in s[0]]
                edge_out_of_interest = [e for n in s[0] for e in edges_out_customers[n] if e[1][1] not in s[0]]
                model.addConstr(quicksum([x_var[e] for e in edge_in_of_interest]) >= 1)
                model.addConstr(quicksum([x_var[e] for e in edge_out_of_interest]) >= 1)
    model.update()


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "update_model_2")
def _(vrp_model, model, x_var, components_global, edges_in_customers, edges_out_customers):
    len_component_global = len(components_global)
    if len_component_global > 1:
        for s in components_global:
            if True:
                edge_in_of_interest = [e for n in s[0] for e in edges_in_customers[n] if e[0][1] not in s[0] and e[1][1] in s[0]]
                edge_out_of_interest = [e for n in s[0] for e in edges_out_customers[n] if e[1][1] not in s[0] and e[0][1] in s[0]]
                model.addConstr(quicksum([x_var[e] for e in edge_in_of_interest]) >= 1)
                model.addConstr(quicksum([x_var[e] for e in edge_out_of_interest]) >= 1)
    model.update()


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "init_model_lp")
def _(g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph, edges_warm_set, do_lns, fraction, start_indexes, end_indexes, vehicle_count, vehicle_capacity, include_backward=True, include_triangle=False, solver_name=CBC):
    tsp_model = MyModelMilp('VRP-master', sense=MINIMIZE, solver_name=solver_name)
    x_var = {}
    constraint_on_edge = {}
    edges_to_constraint = set()
    if do_lns:
        edges_to_constraint = set(random.sample(list(edges), int(fraction * len(edges))))
        for iedge in constraint_on_edge:
            tsp_model.remove(constraint_on_edge[iedge])
    iedge = 0
    start = []
    for e in edges:
        x_var[e] = tsp_model.add_var(var_type=BINARY, obj=g[e[0]][e[1]]['weight'], name='x_' + str(e))
        val = 0
        if e in edges_warm_set:
            start += [(x_var[e], 1)]
            val = 1
        else:
            start += [(x_var[e], 0)]
        if e in edges_to_constraint:
            constraint_on_edge[iedge] = tsp_model.add_constr(x_var[e] == val, name=str((e, iedge)))
            iedge += 1
    tsp_model.start = start
    constraint_tour_2length = {}
    cnt_tour = 0
    if include_backward:
        for edge in edges:
            if (edge[1], edge[0]) in edges:
                if (edge[1], edge[0]) == edge:
                    continue
                if edge[0][1] == start_indexes[edge[0][0]] or edge[1][1] == start_indexes[edge[0][0]]:
                    continue
                if edge[0][1] == end_indexes[edge[0][0]] or edge[1][1] == end_indexes[edge[0][0]]:
                    continue
                constraint_tour_2length[cnt_tour] = tsp_model.add_constr(x_var[edge] + x_var[edge[1], edge[0]] <= 1, name='tour_' + str(edge))
                cnt_tour += 1
    if include_triangle:
        constraint_triangle = {}
        for node in g.nodes():
            neigh = set([n for n in nx.neighbors(g, node)])
            neigh_2 = {nn: neigh.intersection([n for n in nx.neighbors(g, nn)]) for nn in neigh}
            for node_neigh in neigh_2:
                if len(neigh_2[node_neigh]) >= 1:
                    for node_neigh_neigh in neigh_2[node_neigh]:
                        constraint_triangle[cnt_tour] = tsp_model.add_constr(x_var[node, node_neigh] + x_var[node_neigh, node_neigh_neigh] + x_var[node_neigh_neigh, node] <= 2)
    constraint_flow_in = {}
    constraint_flow_out = {}
    start_to_i, end_to_i = compute_start_end_flows_info(start_indexes, end_indexes)
    for s in start_to_i:
        for vehicle in start_to_i[s]['vehicle']:
            constraint_flow_out['start_v_' + str(vehicle)] = tsp_model.add_constr(xsum([x_var[e] for e in edges_out_customers[s] if e[0][0] == vehicle]) == 1, name='start_v_' + str(vehicle))
    for s in end_to_i:
        for vehicle in end_to_i[s]['vehicle']:
            constraint_flow_in['end_v_' + str(vehicle)] = tsp_model.add_constr(xsum([x_var[e] for e in edges_in_customers[s] if e[0][0] == vehicle]) == 1, name='end_v_' + str(vehicle))
    for customer in edges_in_customers:
        if customer in end_to_i or customer in start_to_i:
            continue
        else:
            constraint_flow_in[customer] = tsp_model.add_constr(xsum([x_var[e] for e in edges_in_customers[customer]]) == 1, name='in_' + str(customer))
    c_flow = {}
    for n in edges_in_merged_graph:
        if start_indexes[n[0]] == end_indexes[n[0]] or n[1] not in [start_indexes[n[0]], end_indexes[n[0]]]:
            c_flow[n] = tsp_model.add_constr(xsum([x_var[e] for e in edges_in_merged_graph[n]] + [-x_var[e] for e in edges_out_merged_graph[n]]) == 0, name='flow_' + str(n))
    for v in range(vehicle_count):
        tsp_model.add_constr(xsum([g[e[0]][e[1]]['demand'] * x_var[e] for e in edges if e[0][0] == v]) <= vehicle_capacity[v], name='capa_' + str(v))
    return (tsp_model, x_var, constraint_flow_in, constraint_flow_out, constraint_on_edge)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "update_graph")
def _(g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph, missing_edge, customers):
    for edge in missing_edge:
        g.add_edge(edge[0], edge[1], weight=length(customers[edge[0][1]], customers[edge[1][1]]), demand=customers[edge[1][1]].demand)
        g.add_edge(edge[1], edge[0], weight=length(customers[edge[0][1]], customers[edge[1][1]]), demand=customers[edge[0][1]].demand)
        edges_in_merged_graph[edge[1]].add((edge[0], edge[1]))
        edges_out_merged_graph[edge[0]].add((edge[0], edge[1]))
        edges_in_customers[edge[1][1]].add((edge[0], edge[1]))
        edges_out_customers[edge[0][1]].add((edge[0], edge[1]))
        edges_in_merged_graph[edge[0]].add((edge[1], edge[0]))
        edges_out_merged_graph[edge[1]].add((edge[1], edge[0]))
        edges_in_customers[edge[0][1]].add((edge[1], edge[0]))
        edges_out_customers[edge[1][1]].add((edge[1], edge[0]))
        edges.add((edge[0], edge[1]))
        edges.add((edge[1], edge[0]))
    return (g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "build_warm_edges_and_update_graph")
def _(vrp_problem, vrp_solution, graph, edges, edges_in_merged_graph, edges_out_merged_graph, edges_in_customers, edges_out_customers):
    vehicle_paths = deepcopy(vrp_solution.list_paths)
    edges_warm = []
    edges_warm_set = set()
    for i in range(len(vehicle_paths)):
        vehicle_paths[i] = [vrp_problem.start_indexes[i]] + vehicle_paths[i] + [vrp_problem.end_indexes[i]]
        edges_warm += [[((i, v1), (i, v2)) for v1, v2 in zip(vehicle_paths[i][:-1], vehicle_paths[i][1:])]]
        edges_warm_set.update(set(edges_warm[i]))
        missing_edge = [e for e in set(edges_warm[i]) if e not in edges]
        for edge in missing_edge:
            graph.add_edge(edge[0], edge[1], weight=vrp_problem.evaluate_function_indexes(edge[0][1], edge[1][1]), demand=vrp_problem.customers[edge[1][1]].demand)
            graph.add_edge(edge[1], edge[0], weight=vrp_problem.evaluate_function_indexes(edge[1][1], edge[0][1]), demand=vrp_problem.customers[edge[0][1]].demand)
            edges_in_merged_graph[edge[1]].add((edge[0], edge[1]))
            edges_out_merged_graph[edge[0]].add((edge[0], edge[1]))
            edges_in_customers[edge[1][1]].add((edge[0], edge[1]))
            edges_out_customers[edge[0][1]].add((edge[0], edge[1]))
            edges_in_merged_graph[edge[0]].add((edge[1], edge[0]))
            edges_out_merged_graph[edge[1]].add((edge[1], edge[0]))
            edges_in_customers[edge[0][1]].add((edge[1], edge[0]))
            edges_out_customers[edge[1][1]].add((edge[1], edge[0]))
            edges.add((edge[0], edge[1]))
            edges.add((edge[1], edge[0]))
    return (edges_warm, edges_warm_set)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "VRPIterativeLP.__init__")
def _(self, problem, params_objective_function):
    self.problem = problem
    self.model = None
    self.x_var = None
    self.constraint_on_edge = None
    self.aggreg_sol, self.aggreg_dict, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.problem, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "VRPIterativeLP.init_model")
def _(self, **kwargs):
    g, g_empty, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph = build_graph_pruned_vrp(self.problem)
    initial_solution = kwargs.get('initial_solution', None)
    if initial_solution is None:
        solution = self.problem.get_dummy_solution()
    else:
        vehicle_tours_b = initial_solution
        solution = VrpSolution(problem=self.problem, list_start_index=self.problem.start_indexes, list_end_index=self.problem.end_indexes, list_paths=vehicle_tours_b, length=None, lengths=None, capacities=None)
    edges = set(g.edges())
    edges_warm, edges_warm_set = build_warm_edges_and_update_graph(vrp_problem=self.problem, vrp_solution=solution, graph=g, edges=edges, edges_in_merged_graph=edges_in_merged_graph, edges_out_merged_graph=edges_out_merged_graph, edges_in_customers=edges_in_customers, edges_out_customers=edges_out_customers)
    do_lns = kwargs.get('do_lns', False)
    fraction = kwargs.get('fraction_lns', 0.9)
    solver_name = kwargs.get('solver_name', CBC)
    tsp_model, x_var, constraint_flow_in, constraint_flow_out, constraint_on_edge = init_model_lp(g=g, edges=edges, edges_in_customers=edges_in_customers, edges_out_customers=edges_out_customers, edges_in_merged_graph=edges_in_merged_graph, edges_out_merged_graph=edges_out_merged_graph, edges_warm_set=edges_warm_set, start_indexes=self.problem.start_indexes, end_indexes=self.problem.end_indexes, do_lns=do_lns, fraction=fraction, vehicle_count=self.problem.vehicle_count, vehicle_capacity=self.problem.vehicle_capacities, solver_name=solver_name)
    self.model = tsp_model
    self.x_var = x_var
    self.constraint_on_edge = constraint_on_edge
    self.graph = g
    self.graph_infos = {'edges': edges, 'edges_in_customers': edges_in_customers, 'edges_out_customers': edges_out_customers, 'edges_in_merged_graph': edges_in_merged_graph, 'edges_out_merged_graph': edges_out_merged_graph, 'edges_warm_set': edges_warm_set}


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "build_the_cycles")
def _(x_solution, component, start_index, end_index):
    edge_of_interest = {e for e in x_solution if e[1] in component and e[0] in component}
    innn = {e[1]: e for e in edge_of_interest}
    outt = {e[0]: e for e in edge_of_interest}
    if start_index in outt:
        some_node = start_index
    else:
        some_node = next((e[0] for e in edge_of_interest))
    end_node = some_node if end_index not in innn else end_index
    path = [some_node]
    cur_edge = outt[some_node]
    indexes = {some_node: 0}
    cur_index = 1
    while cur_edge[1] != end_node:
        path += [cur_edge[1]]
        indexes[cur_edge[1]] = cur_index
        cur_index += 1
        cur_edge = outt[cur_edge[1]]
    if end_index in innn:
        path += [end_node]
        indexes[end_node] = cur_index
    return (path, indexes)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "rebuild_tsp_routine")
def _(sorted_connected_component, paths_component, node_to_component, indexes, graph, edges, evaluate_function_indexes, vrp_model, start_index, end_index, verbose=False):
    rebuilded_path = list(paths_component[node_to_component[start_index]])
    component_end = node_to_component[end_index]
    component_reconnected = {node_to_component[start_index]}
    current_component = sorted_connected_component[node_to_component[start_index]]
    path_set = set(rebuilded_path)
    total_length_path = len(rebuilded_path)
    while len(component_reconnected) < len(sorted_connected_component):
        if len(component_reconnected) == len(sorted_connected_component) - 1 and end_index != start_index and (node_to_component[end_index] != node_to_component[start_index]):
            rebuilded_path = rebuilded_path + paths_component[component_end]
            component_reconnected.add(component_end)
        else:
            index_path = {rebuilded_path[i]: i for i in range(len(rebuilded_path))}
            index_path = {}
            for i in range(len(rebuilded_path)):
                if rebuilded_path[i] not in index_path:
                    index_path[rebuilded_path[i]] = []
                index_path[rebuilded_path[i]] += [i]
            edge_out_of_interest = {e for e in edges if e[0] in path_set and e[1] not in path_set}
            edge_in_of_interest = {e for e in edges if e[0] not in path_set and e[1] in path_set}
            min_out_edge = None
            min_in_edge = None
            min_index_in_path = None
            min_component = None
            min_dist = float('inf')
            backup_min_out_edge = None
            backup_min_in_edge = None
            backup_min_index_in_path = None
            backup_min_component = None
            backup_min_dist = float('inf')
            for e in edge_out_of_interest:
                index_in = index_path[e[0]][0]
                index_in_1 = min(index_path[e[0]][0] + 1, total_length_path - 1)
                next_node_1 = rebuilded_path[index_in_1]
                component_e1 = node_to_component[e[1]]
                if component_e1 == component_end and len(component_reconnected) < len(sorted_connected_component) - 1:
                    continue
                index_component_e1 = indexes[component_e1][e[1]]
                index_component_e1_plus1 = index_component_e1 + 1
                if index_component_e1_plus1 >= len(paths_component[component_e1]):
                    index_component_e1_plus1 = 0
                next_node_component_e1 = paths_component[component_e1][index_component_e1_plus1]
                if (next_node_component_e1, next_node_1) in edge_in_of_interest:
                    cost = graph[e[0]][e[1]]['weight'] + graph[next_node_component_e1][next_node_1]['weight'] - graph[e[0]][next_node_1]['weight']
                    if cost < min_dist:
                        min_component = node_to_component[e[1]]
                        min_out_edge = e
                        min_in_edge = (next_node_component_e1, next_node_1)
                        min_index_in_path = index_in
                        min_dist = cost
                else:
                    cost = graph[e[0]][e[1]]['weight']
                    if cost < backup_min_dist:
                        backup_min_component = node_to_component[e[1]]
                        backup_min_out_edge = e
                        backup_min_in_edge = (next_node_component_e1, next_node_1)
                        backup_min_index_in_path = index_in
                        backup_min_dist = cost
            if min_out_edge is None:
                e = backup_min_in_edge
                graph.add_edge(e[0], e[1], weight=evaluate_function_indexes(e[0][0], e[1][0]))
                graph.add_edge(e[1], e[0], weight=evaluate_function_indexes(e[1][0], e[0][0]))
                min_out_edge = backup_min_out_edge
                min_in_edge = backup_min_in_edge
                min_index_in_path = backup_min_index_in_path
                min_component = backup_min_component
            len_this_component = len(paths_component[min_component])
            if verbose:
                pass
            index_of_in_component = indexes[min_component][min_out_edge[1]]
            new_component = [paths_component[min_component][(index_of_in_component + i) % len_this_component] for i in range(0, -len_this_component, -1)]
            if verbose:
                pass
            rebuilded_path = rebuilded_path[:min_index_in_path + 1] + new_component + rebuilded_path[min_index_in_path + 1:]
            for e1, e2 in zip(new_component[:-1], new_component[1:]):
                if (e1, e2) not in graph.edges():
                    graph.add_edge(e1, e2, weight=evaluate_function_indexes(e1, e2))
            path_set = set(rebuilded_path)
            total_length_path = len(rebuilded_path)
            component_reconnected.add(min_component)
    lengths, obj, capacities = compute_length(start_index=start_index[1], end_index=end_index[1], solution=[x[1] for x in rebuilded_path[1:-1]], list_customers=vrp_model.customers, method=vrp_model.evaluate_function_indexes)
    return (rebuilded_path, obj)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "retreve_solutions")
def _(model, x_var, vehicle_count, g):
    nSolutions = model.num_solutions
    solutions = []
    for s in range(nSolutions):
        g_empty = {v: nx.DiGraph() for v in range(vehicle_count)}
        g_merge = nx.DiGraph()
        x_solution = {v: set() for v in range(vehicle_count)}
        for e in x_var:
            value = x_var[e].xi(s)
            if value >= 0.5:
                vehicle = e[0][0]
                x_solution[vehicle].add(e)
                clients = (e[0], e[1])
                if clients[0] not in g_empty[vehicle]:
                    g_empty[vehicle].add_node(clients[0])
                if clients[1] not in g_empty[vehicle]:
                    g_empty[vehicle].add_node(clients[1])
                if clients[0][1] not in g_merge:
                    g_merge.add_node(clients[0][1])
                if clients[1][1] not in g_merge:
                    g_merge.add_node(clients[1][1])
                g_empty[vehicle].add_edge(clients[0], clients[1], weight=g[e[0]][e[1]]['weight'])
                g_merge.add_edge(clients[0][1], clients[1][1], weight=g[e[0]][e[1]]['weight'])
        solutions += [{'g_merge': g_merge.copy(), 'g_empty': g_empty, 'x_solution': x_solution.copy()}]
    return solutions


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "reevaluate_solutions")
def _(solutions, vehicle_count, g, vrp_problem):
    rebuilt_solution = []
    rebuilt_obj = []
    nb_components = []
    components = []
    components_global = []
    solutions_list = []
    for solution in solutions:
        g_empty = solution['g_empty']
        g_merge = solution['g_merge']
        x_solution = solution['x_solution']
        connected_components = {v: [(set(e), len(e)) for e in nx.weakly_connected_components(g_empty[v])] for v in g_empty}
        sorted_connected_component = {v: sorted(connected_components[v], key=lambda x: x[1], reverse=True) for v in connected_components}
        components += [sorted_connected_component]
        nb_components += [[len(sorted_connected_component[v]) for v in sorted_connected_component]]
        solutions_list += [x_solution.copy()]
        paths_component = {v: {} for v in range(vehicle_count)}
        indexes_component = {v: {} for v in range(vehicle_count)}
        node_to_component = {v: {} for v in range(vehicle_count)}
        nb_component = len(sorted_connected_component)
        rebuilt_dict = {}
        objective_dict = {}
        component_global = [(set(e), len(e)) for e in nx.weakly_connected_components(g_merge)]
        components_global += [component_global]
        nb_component_global = len(component_global)
        for v in range(vehicle_count):
            graph_of_interest = nx.subgraph(g, [e[0] for e in x_solution[v]] + [e[1] for e in x_solution[v]]).copy()
            nb = len(sorted_connected_component[v])
            for i in range(nb):
                s = sorted_connected_component[v][i]
                paths_component[v][i], indexes_component[v][i] = build_the_cycles(x_solution=x_solution[v], component=s[0], start_index=(v, vrp_problem.start_indexes[v]), end_index=(v, vrp_problem.end_indexes[v]))
                node_to_component[v].update({p: i for p in paths_component[v][i]})
            if True:
                rebuilt_dict[v], objective_dict[v] = rebuild_tsp_routine(sorted_connected_component=sorted_connected_component[v], paths_component=paths_component[v], node_to_component=node_to_component[v], start_index=(v, vrp_problem.start_indexes[v]), end_index=(v, vrp_problem.end_indexes[v]), indexes=indexes_component[v], graph=graph_of_interest, edges=set(graph_of_interest.edges()), evaluate_function_indexes=vrp_problem.evaluate_function_indexes, vrp_model=vrp_problem)
            else:
                rebuilt_dict[v], objective_dict[v] = (None, float('inf'))
        rebuilt_solution += [rebuilt_dict]
        rebuilt_obj += [sum(list(objective_dict.values()))]
    index_best = min(range(len(rebuilt_obj)), key=lambda x: rebuilt_obj[x])
    return (solutions_list[index_best], rebuilt_solution[index_best], rebuilt_obj[index_best], components[index_best], components_global[index_best], components, components_global)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "update_model")
def _(vrp_model, model, x_var, components_per_vehicle, edges_in_customers, edges_out_customers):
    for vehicle in components_per_vehicle:
        comps = components_per_vehicle[vehicle]
        if len(comps) > 1:
            for si in comps:
                s = (set([x[1] for x in si[0]]), si[1])
                edge_in_of_interest = [e for n in s[0] for e in edges_in_customers[n] if e[0][1] not in s[0]]
                edge_out_of_interest = [e for n in s[0] for e in edges_out_customers[n] if e[1][1] not in s[0]]
                model.add_constr(xsum([x_var[e] for e in edge_in_of_interest]) >= 1)
                model.add_constr(xsum([x_var[e] for e in edge_out_of_interest]) >= 1)
    model.update()


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "update_model_2")
def _(vrp_model, model, x_var, components_global, edges_in_customers, edges_out_customers):
    len_component_global = len(components_global)
    if len_component_global > 1:
        for s in components_global:
            if True:
                edge_in_of_interest = [e for n in s[0] for e in edges_in_customers[n] if e[0][1] not in s[0] and e[1][1] in s[0]]
                edge_out_of_interest = [e for n in s[0] for e in edges_out_customers[n] if e[1][1] not in s[0] and e[0][1] in s[0]]
                model.add_constr(xsum([x_var[e] for e in edge_in_of_interest]) >= 1)
                model.add_constr(xsum([x_var[e] for e in edge_out_of_interest]) >= 1)
    model.update()


@spec("builders/discrete_optimization/vrp/solver/vrp_cp.py", "cp_solving")
def _(vehicle_count, vehicle_capacity, customer_count, customers, fraction=0.1):
    model_vrp = Model('./vrp.mzn')
    solver = Solver.lookup('chuffed')
    instance = Instance(solver, model_vrp)
    instance['nb_customers_without_depot'] = customer_count - 1
    nb_customers_virtual = customer_count - 1 + vehicle_count + 1
    range_customer_virtual = range(1, nb_customers_virtual + 1)
    instance['nb_vehicle'] = vehicle_count
    closest, matrix = compute_length_matrix(customers)
    demands = [customers[i].demand for i in range(1, customer_count)] + [0] * (vehicle_count + 1)
    instance['demand'] = demands
    instance['capacity_vehicle'] = vehicle_capacity
    recomputed_dist = []
    for i in range(1, customer_count):
        recomputed_dist += [[int(matrix[i, j]) for j in range(1, customer_count)] + [int(matrix[i, 0])] * (vehicle_count + 1)]
    for v in range(vehicle_count + 1):
        recomputed_dist += [[int(matrix[0, j]) for j in range(1, customer_count)] + [0] * (vehicle_count + 1)]
    instance['distance'] = recomputed_dist
    result = instance.solve(timeout=timedelta(seconds=100))
    opt = result.status
    objective = result['objective']
    iteration = 0
    dict_result = {i + 1: result['circuit_vrp'][i] for i in range(nb_customers_virtual)}
    current_objective = objective
    while iteration < 1000:
        with instance.branch() as child:
            subpart_tsp = set(random.sample(range_customer_virtual, int(fraction * len(range_customer_virtual))))
            for i in range_customer_virtual:
                if i not in subpart_tsp:
                    child.add_string('constraint circuit_vrp[' + str(i) + '] == ' + str(dict_result[i]) + ';\n')
            child.add_string(f'solve minimize(objective);\n')
            res = child.solve(timeout=timedelta(seconds=50))
            if res.solution is not None and res['objective'] <= current_objective:
                iteration += 1
                incumbent = res.solution
                current_objective = res['objective']
                dict_result = {i + 1: res['circuit_vrp'][i] for i in range(nb_customers_virtual)}
            else:
                try:
                    pass
                except:
                    pass
                iteration += 1


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "build_graph_pruned")
def _(tsp_model):
    nodeCount = tsp_model.node_count
    points = tsp_model.list_points
    sd, d = build_matrice_distance_np(nodeCount, points)
    g = nx.DiGraph()
    g.add_nodes_from([i for i in range(nodeCount)])
    shape = sd.shape[0]
    edges_in = {i: set() for i in range(nodeCount)}
    edges_out = {i: set() for i in range(nodeCount)}

    def length_ij(i, j):
        return tsp_model.evaluate_function_indexes(i, j)
    for i in range(shape):
        nodes_to_add = sd[i, 1:50]
        for n in nodes_to_add:
            if n == i:
                continue
            g.add_edge(i, n, weight=length_ij(i, n))
            g.add_edge(n, i, weight=length_ij(n, i))
            edges_in[n].add((i, n))
            edges_out[i].add((i, n))
            edges_in[i].add((n, i))
            edges_out[n].add((n, i))
        nodes_to_add = range(i, min(i + 5, nodeCount))
        for n in nodes_to_add:
            if n == i:
                continue
            g.add_edge(i, n, weight=length_ij(i, n))
            g.add_edge(n, i, weight=length_ij(n, i))
            edges_in[n].add((i, n))
            edges_out[i].add((i, n))
            edges_in[i].add((n, i))
            edges_out[n].add((n, i))
        nodes_to_add = [tsp_model.end_index]
        for n in nodes_to_add:
            if n == i:
                continue
            g.add_edge(i, n, weight=length_ij(i, n))
            g.add_edge(n, i, weight=length_ij(n, i))
            edges_in[n].add((i, n))
            edges_out[i].add((i, n))
            edges_in[i].add((n, i))
            edges_out[n].add((n, i))
    g_empty = nx.DiGraph()
    g_empty.add_nodes_from([i for i in range(nodeCount)])
    return (g, g_empty, edges_in, edges_out)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "build_graph_complete")
def _(tsp_model):
    nodeCount = tsp_model.node_count
    points = tsp_model.list_points
    mat = build_matrice_distance(nodeCount, points, tsp_model.evaluate_function_indexes)
    sd = np.argsort(mat, axis=1)
    g = nx.DiGraph()
    g.add_nodes_from([i for i in range(nodeCount)])
    shape = sd.shape[0]
    edges_in = {i: set() for i in range(nodeCount)}
    edges_out = {i: set() for i in range(nodeCount)}

    def length_ij(i, j):
        return mat[i, j]
    for i in range(shape):
        nodes_to_add = sd[i, 1:]
        for n in nodes_to_add:
            if n == i:
                continue
            g.add_edge(i, n, weight=length_ij(i, n))
            g.add_edge(n, i, weight=length_ij(n, i))
            edges_in[n].add((i, n))
            edges_out[i].add((i, n))
            edges_in[i].add((n, i))
            edges_out[n].add((n, i))
        nodes_to_add = [tsp_model.end_index]
        for n in nodes_to_add:
            if n == i:
                continue
            g.add_edge(i, n, weight=length_ij(i, n))
            g.add_edge(n, i, weight=length_ij(n, i))
            edges_in[n].add((i, n))
            edges_out[i].add((i, n))
            edges_in[i].add((n, i))
            edges_out[n].add((n, i))
    g_empty = nx.DiGraph()
    g_empty.add_nodes_from([i for i in range(nodeCount)])
    return (g, g_empty, edges_in, edges_out)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.__init__")
def _(self, tsp_model, graph_builder=None, params_objective_function=None):
    self.tsp_model = tsp_model
    self.node_count = self.tsp_model.node_count
    self.list_points = self.tsp_model.list_points
    self.start_index = self.tsp_model.start_index
    self.end_index = self.tsp_model.end_index
    self.graph_builder = graph_builder
    self.g = None
    self.edges = None
    _, self.aggreg = build_evaluate_function_aggregated(tsp_model)
    self.aggreg_sol, self.aggreg, self.params_objective_function = build_aggreg_function_and_params_objective(problem=self.tsp_model, params_objective_function=params_objective_function)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.init_model")
def _(self, method):
    if method == MILPSolver.GUROBI:
        self.init_model_gurobi()
        self.method = method
    if method == MILPSolver.CBC:
        self.init_model_cbc()
        self.method = method


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.init_model_gurobi")
def _(self, **kwargs):
    g, g_empty, edges_in, edges_out = self.graph_builder(self.tsp_model)
    tsp_model = Model('TSP-master')
    edges = set(g.edges())
    self.edges = edges
    self.g = g
    x_var = {}
    dummy_sol = self.tsp_model.get_dummy_solution()
    path = [self.tsp_model.start_index] + dummy_sol.permutation + [self.tsp_model.end_index]
    edges_to_add = {(e0, e1) for e0, e1 in zip(path[:-1], path[1:])}
    flow_in = {}
    flow_out = {}
    for e in edges:
        x_var[e] = tsp_model.addVar(vtype=GRB.BINARY, obj=g[e[0]][e[1]]['weight'], name='x_' + str(e))
        if e[0] not in flow_out:
            flow_out[e[0]] = set()
        if e[1] not in flow_in:
            flow_in[e[1]] = set()
        flow_in[e[1]].add(e)
        flow_out[e[0]].add(e)
    if all((e in edges for e in edges_to_add)):
        for e in edges:
            if e in edges_to_add:
                x_var[e].start = 1
                x_var[e].varhintval = 1
            else:
                x_var[e].start = 0
                x_var[e].varhintval = 0
    constraint_tour_2length = {}
    cnt_tour = 0
    for edge in edges:
        if (edge[1], edge[0]) in edges:
            constraint_tour_2length[cnt_tour] = tsp_model.addConstr(x_var[edge] + x_var[edge[1], edge[0]] <= 1, name='Tour_' + str(cnt_tour))
            cnt_tour += 1
    tsp_model.update()
    constraint_flow = {}
    for n in flow_in:
        if n != self.tsp_model.start_index and n != self.tsp_model.end_index:
            constraint_flow[n] = tsp_model.addConstr(quicksum([x_var[i] for i in flow_in[n]] + [-x_var[i] for i in flow_out[n]]) == 0, name='flow_' + str(n))
        if n != self.tsp_model.start_index:
            constraint_flow[n, 'sub'] = tsp_model.addConstr(quicksum([x_var[i] for i in flow_in[n]]) == 1, name='flowin_' + str(n))
        if n == self.tsp_model.start_index:
            constraint_flow[n, 0] = tsp_model.addConstr(quicksum([x_var[i] for i in flow_out[n]]) == 1, name='flowoutsource_' + str(n))
            if n != self.tsp_model.end_index:
                constraint_flow[n, 1] = tsp_model.addConstr(quicksum([x_var[i] for i in flow_in[n]]) == 0, name='flowinsource_' + str(n))
        if n == self.tsp_model.end_index:
            constraint_flow[n, 0] = tsp_model.addConstr(quicksum([x_var[i] for i in flow_in[n]]) == 1, name='flowinsink_' + str(n))
            if n != self.tsp_model.start_index:
                constraint_flow[n, 1] = tsp_model.addConstr(quicksum([x_var[i] for i in flow_out[n]]) == 0, name='flowoutsink_' + str(n))
    tsp_model.setParam('TimeLimit', 1000)
    tsp_model.modelSense = GRB.MINIMIZE
    tsp_model.setParam(GRB.Param.Threads, 8)
    tsp_model.setParam(GRB.Param.PoolSolutions, 10000)
    tsp_model.setParam(GRB.Param.Method, -1)
    tsp_model.setParam('MIPGapAbs', 0.001)
    tsp_model.setParam('MIPGap', 0.001)
    tsp_model.setParam('Heuristics', 0.1)
    self.model = tsp_model
    self.variables = {'x': x_var}


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.init_model_cbc")
def _(self, **kwargs):
    g, g_empty, edges_in, edges_out = self.graph_builder(self.tsp_model)
    tsp_model = pywraplp.Solver('TSP-master', pywraplp.Solver.CBC_MIXED_INTEGER_PROGRAMMING)
    edges = set(g.edges())
    self.edges = edges
    self.g = g
    x_var = {}
    dummy_sol = self.tsp_model.get_dummy_solution()
    path = [self.tsp_model.start_index] + dummy_sol.permutation + [self.tsp_model.end_index]
    edges_to_add = {(e0, e1) for e0, e1 in zip(path[:-1], path[1:])}
    flow_in = {}
    flow_out = {}
    for e in edges:
        x_var[e] = tsp_model.BoolVar('x_' + str(e))
        if e[0] not in flow_out:
            flow_out[e[0]] = set()
        if e[1] not in flow_in:
            flow_in[e[1]] = set()
        flow_in[e[1]].add(e)
        flow_out[e[0]].add(e)
    if all((e in edges for e in edges_to_add)):
        for e in edges:
            if e in edges_to_add:
                tsp_model.SetHint([x_var[e]], [1])
            else:
                tsp_model.SetHint([x_var[e]], [0])
    constraint_tour_2length = {}
    cnt_tour = 0
    for edge in edges:
        if (edge[1], edge[0]) in edges:
            constraint_tour_2length[cnt_tour] = tsp_model.Add(x_var[edge] + x_var[edge[1], edge[0]] <= 1)
            cnt_tour += 1
    constraint_flow = {}
    for n in flow_in:
        if n != self.tsp_model.start_index and n != self.tsp_model.end_index:
            constraint_flow[n] = tsp_model.Add(tsp_model.Sum([x_var[i] for i in flow_in[n]] + [-x_var[i] for i in flow_out[n]]) == 0)
        if n != self.tsp_model.start_index:
            constraint_flow[n, 'sub'] = tsp_model.Add(tsp_model.Sum([x_var[i] for i in flow_in[n]]) == 1)
        if n == self.tsp_model.start_index:
            constraint_flow[n, 0] = tsp_model.Add(tsp_model.Sum([x_var[i] for i in flow_out[n]]) == 1)
            if n != self.tsp_model.end_index:
                constraint_flow[n, 1] = tsp_model.Add(tsp_model.Sum([x_var[i] for i in flow_in[n]]) == 0)
        if n == self.tsp_model.end_index:
            constraint_flow[n, 0] = tsp_model.Add(tsp_model.Sum([x_var[i] for i in flow_in[n]]) == 1)
            if n != self.tsp_model.start_index:
                constraint_flow[n, 1] = tsp_model.Add(tsp_model.Sum([x_var[i] for i in flow_out[n]]) == 0)
    value = tsp_model.Sum([x_var[i] * g[i[0]][i[1]]['weight'] for i in x_var])
    tsp_model.Minimize(value)
    self.model = tsp_model
    self.variables = {'x': x_var}
    self.model.SetTimeLimit(60000)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.retrieve_results_cbc")
def _(self):
    g_empty = nx.DiGraph()
    g_empty.add_nodes_from([i for i in range(self.node_count)])
    x_solution = set()
    x_var = self.variables['x']
    for e in x_var:
        value = x_var[e].solution_value()
        if value >= 0.5:
            x_solution.add(e)
            g_empty.add_edge(e[0], e[1], weight=1)
    return (g_empty, x_solution)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.retrieve_results_gurobi")
def _(self):
    g_empty = nx.DiGraph()
    g_empty.add_nodes_from([i for i in range(self.node_count)])
    x_solution = set()
    x_var = self.variables['x']
    for e in x_var:
        value = x_var[e].getAttr('X')
        if value >= 0.5:
            x_solution.add(e)
            g_empty.add_edge(e[0], e[1], weight=1)
    return (g_empty, x_solution)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "LP_TSP_Iterative.solve")
def _(self, **kwargs):
    nb_iteration_max = kwargs.get('nb_iteration_max', 20)
    plot = kwargs.get('plot', True)
    tsp_model = self.model
    if self.method == MILPSolver.GUROBI:
        tsp_model.optimize()
        nSolutions = tsp_model.SolCount
        nObjectives = tsp_model.NumObj
        objective = tsp_model.getObjective().getValue()
        status = tsp_model.getAttr('Status')
    if self.method == MILPSolver.CBC:
        self.model.Solve()
        res = self.model.Solve()
        resdict = {0: 'OPTIMAL', 1: 'FEASIBLE', 2: 'INFEASIBLE', 3: 'UNBOUNDED', 4: 'ABNORMAL', 5: 'MODEL_INVALID', 6: 'NOT_SOLVED'}
        objective = self.model.Objective().Value()
    finished = False
    solutions = []
    cost = []
    nb_components = []
    iteration = 0
    rebuilt_solution = []
    rebuilt_obj = []
    best_solution_rebuilt_index = 0
    best_solution_rebuilt = float('inf')
    while not finished:
        if self.method == MILPSolver.GUROBI:
            g_empty, x_solution = self.retrieve_results_gurobi()
        if self.method == MILPSolver.CBC:
            g_empty, x_solution = self.retrieve_results_cbc()
        connected_components = [(set(e), len(e)) for e in nx.weakly_connected_components(g_empty)]
        sorted_connected_component = sorted(connected_components, key=lambda x: x[1], reverse=True)
        nb_components += [len(sorted_connected_component)]
        cost += [objective]
        solutions += [x_solution.copy()]
        paths_component = {}
        indexes_component = {}
        node_to_component = {}
        nb_component = len(sorted_connected_component)
        x_var = self.variables['x']
        for i in range(nb_component):
            s = sorted_connected_component[i]
            paths_component[i], indexes_component[i] = build_the_cycles(x_solution, s[0], self.g, start_index=self.start_index, end_index=self.end_index)
            node_to_component.update({p: i for p in paths_component[i]})
            edge_in_of_interest = [e for e in self.edges if e[1] in s[0] and e[0] not in s[0]]
            edge_out_of_interest = [e for e in self.edges if e[0] in s[0] and e[1] not in s[0]]
            if self.method == MILPSolver.GUROBI:
                tsp_model.addConstr(quicksum([x_var[e] for e in edge_in_of_interest]) >= 1)
                tsp_model.addConstr(quicksum([x_var[e] for e in edge_out_of_interest]) >= 1)
            if self.method == MILPSolver.CBC:
                tsp_model.Add(tsp_model.Sum([x_var[e] for e in edge_in_of_interest]) >= 1)
                tsp_model.Add(tsp_model.Sum([x_var[e] for e in edge_out_of_interest]) >= 1)
        rebuilt, objective = rebuild_tsp_routine(sorted_connected_component, paths_component, node_to_component, indexes_component, self.g, self.edges, self.node_count, self.list_points, self.tsp_model.evaluate_function_indexes, self.tsp_model, self.start_index, self.end_index)
        objective = self.aggreg(objective)
        rebuilt_solution += [rebuilt]
        rebuilt_obj += [objective]
        if objective < best_solution_rebuilt:
            best_solution_rebuilt = objective
            best_solution_rebuilt_index = iteration
        if len(sorted_connected_component) > 1:
            edges_to_add = {(e0, e1) for e0, e1 in zip(rebuilt[:-1], rebuilt[1:])}
            if all((e in self.edges for e in edges_to_add)):
                for e in x_var:
                    if e in edges_to_add:
                        if self.method == MILPSolver.GUROBI:
                            x_var[e].start = 1
                            x_var[e].varhintval = 1
                        elif self.method == MILPSolver.CBC:
                            tsp_model.SetHint([x_var[e]], [1])
                    elif self.method == MILPSolver.GUROBI:
                        x_var[e].start = 0
                        x_var[e].varhintval = 0
                    elif self.method == MILPSolver.CBC:
                        tsp_model.SetHint([x_var[e]], [1])
            if self.method == MILPSolver.GUROBI:
                tsp_model.update()
                tsp_model.optimize()
            if self.method == MILPSolver.CBC:
                tsp_model.Solve()
            iteration += 1
        else:
            finished = True
        finished = finished or iteration >= nb_iteration_max
        if self.method == MILPSolver.GUROBI:
            objective = tsp_model.getObjective().getValue()
        elif self.method == MILPSolver.CBC:
            objective = self.model.Objective().Value()
    if plot:
        fig, ax = plt.subplots(1, 2, figsize=(10, 5))
        for i in range(len(solutions)):
            ll = []
            for e in solutions[i]:
                ll.append(ax[0].plot([self.list_points[e[0]].x, self.list_points[e[1]].x], [self.list_points[e[0]].y, self.list_points[e[1]].y], color='b'))
            ax[1].plot([self.list_points[n].x for n in rebuilt_solution[i]], [self.list_points[n].y for n in rebuilt_solution[i]], color='orange')
            ax[0].set_title('iter ' + str(i) + ' obj=' + str(int(cost[i])) + ' nbcomp=' + str(nb_components[i]))
            ax[1].set_title('iter ' + str(i) + ' obj=' + str(int(rebuilt_obj[i])))
            fig.savefig(os.path.join(folder_image, 'tsp_' + str(i) + '.png'))
            plt.draw()
            plt.pause(1)
            ax[0].lines = []
            ax[1].lines = []
        plt.show()
    path = rebuilt_solution[best_solution_rebuilt_index]
    var_tsp = SolutionTSP(problem=self.tsp_model, start_index=self.tsp_model.start_index, end_index=self.tsp_model.end_index, permutation=path[1:-1], lengths=None, length=None)
    fit = self.aggreg_sol(var_tsp)
    return ResultStorage(list_solution_fits=[(var_tsp, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "build_the_cycles")
def _(x_solution, component, graph, start_index, end_index):
    edge_of_interest = {e for e in x_solution if e[1] in component and e[0] in component}
    innn = {e[1]: e for e in edge_of_interest}
    outt = {e[0]: e for e in edge_of_interest}
    if start_index in outt:
        some_node = start_index
    else:
        some_node = next((e[0] for e in edge_of_interest))
    end_node = some_node if end_index not in innn else end_index
    path = [some_node]
    cur_edge = outt[some_node]
    indexes = {some_node: 0}
    cur_index = 1
    while cur_edge[1] != end_node:
        path += [cur_edge[1]]
        indexes[cur_edge[1]] = cur_index
        cur_index += 1
        cur_edge = outt[cur_edge[1]]
    if end_index in innn:
        path += [end_node]
        indexes[end_node] = cur_index
    return (path, indexes)


@spec("builders/discrete_optimization/tsp/solver/solver_lp_iterative.py", "rebuild_tsp_routine")
def _(sorted_connected_component, paths_component, node_to_component, indexes, graph, edges, nodeCount, list_points, evaluate_function_indexes, tsp_model, start_index=0, end_index=0, verbose=False):
    rebuilded_path = list(paths_component[node_to_component[start_index]])
    component_end = node_to_component[end_index]
    component_reconnected = {node_to_component[start_index]}
    current_component = sorted_connected_component[node_to_component[start_index]]
    path_set = set(rebuilded_path)
    total_length_path = len(rebuilded_path)
    while len(component_reconnected) < len(sorted_connected_component):
        if len(component_reconnected) == len(sorted_connected_component) - 1 and end_index != start_index and (node_to_component[end_index] != node_to_component[start_index]):
            rebuilded_path = rebuilded_path + paths_component[component_end]
            component_reconnected.add(component_end)
        else:
            index_path = {rebuilded_path[i]: i for i in range(len(rebuilded_path))}
            edge_out_of_interest = {e for e in edges if e[0] in path_set and e[1] not in path_set}
            edge_in_of_interest = {e for e in edges if e[0] not in path_set and e[1] in path_set}
            min_out_edge = None
            min_in_edge = None
            min_index_in_path = None
            min_component = None
            min_dist = float('inf')
            backup_min_out_edge = None
            backup_min_in_edge = None
            backup_min_index_in_path = None
            backup_min_component = None
            backup_min_dist = float('inf')
            for e in edge_out_of_interest:
                index_in = index_path[e[0]]
                if index_in == total_length_path - 1:
                    continue
                index_in_1 = index_path[e[0]] + 1
                next_node_1 = rebuilded_path[index_in_1]
                component_e1 = node_to_component[e[1]]
                if component_e1 == component_end and len(component_reconnected) < len(sorted_connected_component) - 1:
                    continue
                index_component_e1 = indexes[component_e1][e[1]]
                index_component_e1_plus1 = index_component_e1 + 1
                if index_component_e1_plus1 >= len(paths_component[component_e1]):
                    index_component_e1_plus1 = 0
                next_node_component_e1 = paths_component[component_e1][index_component_e1_plus1]
                if (next_node_component_e1, next_node_1) in edge_in_of_interest:
                    cost = graph[e[0]][e[1]]['weight'] + graph[next_node_component_e1][next_node_1]['weight'] - graph[e[0]][next_node_1]['weight']
                    if cost < min_dist:
                        min_component = node_to_component[e[1]]
                        min_out_edge = e
                        min_in_edge = (next_node_component_e1, next_node_1)
                        min_index_in_path = index_in
                        min_dist = cost
                else:
                    cost = graph[e[0]][e[1]]['weight']
                    if cost < backup_min_dist:
                        backup_min_component = node_to_component[e[1]]
                        backup_min_out_edge = e
                        backup_min_in_edge = (next_node_component_e1, next_node_1)
                        backup_min_index_in_path = index_in
                        backup_min_dist = cost
            if min_out_edge is None:
                e = backup_min_in_edge
                graph.add_edge(e[0], e[1], weight=evaluate_function_indexes(e[0], e[1]))
                graph.add_edge(e[1], e[0], weight=evaluate_function_indexes(e[1], e[0]))
                min_out_edge = backup_min_out_edge
                min_in_edge = backup_min_in_edge
                min_index_in_path = backup_min_index_in_path
                min_component = backup_min_component
                min_dist = backup_min_dist + graph[e[0]][e[1]]['weight'] - graph[min_in_edge[0]][e[1]]['weight']
            len_this_component = len(paths_component[min_component])
            if verbose:
                pass
            index_of_in_component = indexes[min_component][min_out_edge[1]]
            new_component = [paths_component[min_component][(index_of_in_component + i) % len_this_component] for i in range(0, -len_this_component, -1)]
            if verbose:
                pass
            rebuilded_path = rebuilded_path[:min_index_in_path + 1] + new_component + rebuilded_path[min_index_in_path + 1:]
            for e1, e2 in zip(new_component[:-1], new_component[1:]):
                if (e1, e2) not in graph.edges():
                    graph.add_edge(e1, e2, weight=evaluate_function_indexes(e1, e2))
            path_set = set(rebuilded_path)
            total_length_path = len(rebuilded_path)
            component_reconnected.add(min_component)
    var = SolutionTSP(problem=tsp_model, start_index=start_index, end_index=end_index, permutation=rebuilded_path[1:-1], lengths=None, length=None)
    fit = tsp_model.evaluate(var)
    return (rebuilded_path, fit)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "ccw")
def _(A, B, C):
    return (C[1] - A[1]) * (B[0] - A[0]) > (B[1] - A[1]) * (C[0] - A[0])


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "intersect")
def _(A, B, C, D):
    return ccw(A, C, D) != ccw(B, C, D) and ccw(A, B, C) != ccw(A, B, D)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "find_intersection")
def _(variable, model, test_all=False, nb_tests=10):
    perm = variable.tour
    intersects = []
    its = range(1, model.numberOfNodes) if test_all else random.sample(range(1, model.numberOfNodes), nb_tests)
    jts = range(1, model.numberOfNodes) if test_all else random.sample(range(1, model.numberOfNodes), nb_tests)
    for i in its:
        for j in jts:
            ii = i
            jj = j
            if jj <= ii + 1:
                continue
            A, B = (model.nodes_array[perm[ii], 1:], model.nodes_array[perm[ii + 1], 1:])
            C, D = (model.nodes_array[perm[jj], 1:], model.nodes_array[perm[jj + 1], 1:])
            if intersect(A, B, C, D):
                intersects += [(ii + 1, jj)]
                if len(intersects) > 5:
                    break
        if len(intersects) > 5:
            break
    return intersects


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsack.__init__")
def _(self, ttp_model):
    self.ttp_model = ttp_model
    self.items_per_city = {}
    self.item_to_city = {}
    items = self.ttp_model.items
    for i in range(len(items)):
        node = items[i]['node_index']
        if node not in self.items_per_city:
            self.items_per_city[node] = set()
        self.items_per_city[node].add(i)
        self.item_to_city[i] = node
    self.profit_per_capacity = self.ttp_model.profits / self.ttp_model.weights
    self.sum = np.sum(self.profit_per_capacity)
    self.profit_per_capacity /= self.sum
    self.sorted_by_utility = np.argsort(self.profit_per_capacity)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsack.switch_on")
def _(self, variable):
    not_used = [i for i in range(self.ttp_model.numberOfItems) if variable.packing[i] == -1 and variable.weight_used + self.ttp_model.weights[i] <= self.ttp_model.capacityOfKnapsack]
    if len(not_used) > 0:
        proba = np.array([self.profit_per_capacity[i] for i in not_used])
        proba = proba / np.sum(proba)
        index = np.random.choice(not_used, size=1, p=proba)[0]
        var = TTPSolution(variable.tour, np.copy(variable.packing))
        var.packing[index] = self.item_to_city[index]
        return var
    else:
        return self.switch_off(variable)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsack.switch_off")
def _(self, variable):
    used = [i for i in range(self.ttp_model.numberOfItems) if variable.packing[i] != -1]
    if len(used) > 0:
        proba = np.array([1 / self.profit_per_capacity[i] for i in used])
        proba = proba / np.sum(proba)
        index = np.random.choice(used, size=1, p=proba)[0]
        var = TTPSolution(variable.tour, np.copy(variable.packing))
        var.packing[index] = -1
        return var
    else:
        return self.switch_on(variable)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsack.mutate")
def _(self, variable):
    r = random.random()
    if r < 0.6:
        return self.switch_on(variable)
    else:
        return self.switch_off(variable)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsackBest.__init__")
def _(self, ttp_model):
    self.ttp_model = ttp_model
    self.items_per_city = {}
    self.item_to_city = {}
    items = self.ttp_model.items
    for i in range(len(items)):
        node = items[i]['node_index']
        if node not in self.items_per_city:
            self.items_per_city[node] = set()
        self.items_per_city[node].add(i)
        self.item_to_city[i] = node
    self.profit_per_capacity = self.ttp_model.profits / self.ttp_model.weights
    self.sum = np.sum(self.profit_per_capacity)
    self.profit_per_capacity /= self.sum
    self.sorted_by_utility = np.argsort(self.profit_per_capacity)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsackBest.switch_on")
def _(self, variable):
    not_used = [i for i in range(self.ttp_model.numberOfItems) if variable.packing[i] == -1 and variable.weight_used + self.ttp_model.weights[i] <= self.ttp_model.capacityOfKnapsack]
    if len(not_used) > 0:
        proba = np.array([self.profit_per_capacity[i] for i in not_used])
        proba = proba / np.sum(proba)
        cur_objective_value = variable.objective
        index = np.random.choice(not_used, size=50, p=proba)
        index_best = None
        best_value = cur_objective_value
        for i in index:
            var = TTPSolution(variable.tour, variable.packing)
            var.packing[i] = self.item_to_city[i]
            value = self.ttp_model.evaluate(var)
            if value >= best_value:
                index_best = i
                best_value = value
            var.packing[i] = -1
        if index_best is not None:
            var = TTPSolution(variable.tour, np.copy(variable.packing))
            var.packing[index_best] = self.item_to_city[index_best]
        else:
            var = variable
        return var
    else:
        return variable


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsackBest.switch_off")
def _(self, variable):
    used = [i for i in range(self.ttp_model.numberOfItems) if variable.packing[i] != -1]
    if len(used) > 0:
        proba = np.array([1 / self.profit_per_capacity[i] for i in used])
        proba = proba / np.sum(proba)
        index = np.random.choice(used, size=50, p=proba)
        index_best = None
        best_value = -float('inf')
        for i in index:
            var = TTPSolution(variable.tour, variable.packing)
            prev = var.packing[i]
            var.packing[i] = -1
            value = self.ttp_model.evaluate(var)
            if value >= best_value:
                index_best = i
                best_value = value
            var.packing[i] = prev
        if index_best is not None:
            var = TTPSolution(variable.tour, np.copy(variable.packing))
            var.packing[index_best] = -1
            self.ttp_model.evaluate(var)
            var = self.switch_on(var)
        else:
            var = variable
        return var
    else:
        return variable


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MutationTTPKnapsackBest.mutate")
def _(self, variable):
    r = random.random()
    if r < 0.6:
        return self.switch_on(variable)
    else:
        return self.switch_off(variable)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "Mutation2Opt.__init__")
def _(self, ttp_model, test_all=False, nb_test=1000, return_only_improvement=False):
    self.ttp_model = ttp_model
    self.items_per_city = {}
    self.item_to_city = {}
    items = self.ttp_model.items
    for i in range(len(items)):
        node = items[i]['node_index']
        if node not in self.items_per_city:
            self.items_per_city[node] = set()
        self.items_per_city[node].add(i)
        self.item_to_city[i] = node
    self.profit_per_capacity = self.ttp_model.profits / self.ttp_model.weights
    self.sum = np.sum(self.profit_per_capacity)
    self.profit_per_capacity /= self.sum
    self.sorted_by_utility = np.argsort(self.profit_per_capacity)
    self.nb_node = self.ttp_model.numberOfNodes
    self.test_all = test_all
    self.nb_test = nb_test
    self.return_only_improvement = return_only_improvement


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "Mutation2Opt.compute_i_j")
def _(self, variable):
    r = random.random()
    if r < 0.1:
        ints = find_intersection(variable, self.ttp_model, nb_tests=min(100, self.nb_node - 1))
    else:
        ints = []
        range_its = range(1, self.nb_node) if self.test_all else random.sample(range(1, self.nb_node), self.nb_test)
        for i in range_its:
            if i == self.nb_node - 1:
                range_jts = []
            else:
                range_jts = range(i + 1, self.nb_node - 1) if self.test_all else random.sample(range(i + 1, self.nb_node - 1), min(1, self.nb_test, self.nb_node - i - 2))
            for j in range_jts:
                ints += [(i, j)]
    return ints


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "Mutation2Opt.mutate_and_compute_obj")
def _(self, variable):
    min_change = -float('inf')
    current_objective = variable.objective
    cur_var = None
    range_its = range(1, self.nb_node) if self.test_all else random.sample(range(1, self.nb_node), self.nb_test)
    ints = self.compute_i_j(variable)
    for i, j in ints:
        permut = np.concatenate((variable.tour[:i], variable.tour[i:j + 1][::-1], variable.tour[j + 1:]))
        sol = TTPSolution(permut, variable.packing)
        value = self.ttp_model.evaluate(sol)
        change = value - current_objective
        if change > min_change:
            it = i
            jt = j
            min_change = change
            cur_var = sol
    if min_change > 0 or not self.return_only_improvement:
        if cur_var is not None:
            return (cur_var, cur_var.objective)
        else:
            return (variable, variable.objective)
    else:
        return (variable, variable.objective)


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "Mutation2Opt.mutate")
def _(self, variable):
    return self.mutate_and_compute_obj(variable)[0]


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MixingMutation.__init__")
def _(self, ttp_model, nb_knapsack_iter, nb_tsp_iter, test_all=False, nb_test=1000, return_only_improvement=False):
    self.mutation_knap = MutationTTPKnapsackBest(ttp_model)
    self.mutation_tsp = Mutation2Opt(ttp_model, test_all, nb_test, return_only_improvement)
    self.nb_knapsack_iter = nb_knapsack_iter
    self.nb_tsp_iter = nb_tsp_iter
    self.modes = ['tsp', 'knap']
    self.limit_count = {'tsp': nb_tsp_iter, 'knap': nb_knapsack_iter}
    self.current_mode = 'knap'
    self.current_iter = 0


@spec("builders/discrete_optimization/ttp/solver/mutation_ttp.py", "MixingMutation.mutate")
def _(self, variable):
    r = random.random()
    if r <= 0.9:
        if self.current_mode == 'tsp':
            var = self.mutation_tsp.mutate(variable)
            self.current_iter += 1
            if self.current_iter >= self.limit_count['tsp']:
                self.current_iter = 0
                self.current_mode = 'knap'
            return var
        if self.current_mode == 'knap':
            var = self.mutation_knap.mutate(variable)
            self.current_iter += 1
            if self.current_iter >= self.limit_count['knap']:
                self.current_iter = 0
                self.current_mode = 'tsp'
            return var
    else:
        method = random.choice([self.mutation_knap, self.mutation_tsp])
        return method.mutate(variable)
@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative.py", "VRPIterativeLP.solve")
def _(self, **kwargs):
    do_lns = kwargs.get('do_lns', False)
    fraction = kwargs.get('fraction_lns', 0.9)
    nb_iteration_max = kwargs.get('nb_iteration_max', 20)
    if self.model is None:
        self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 10)
    self.model.setParam('TimeLimit', limit_time_s)
    self.model.optimize()
    objective = self.model.getObjective().getValue()
    finished = False
    solutions = []
    cost = []
    nb_components = []
    iteration = 0
    rebuilt_solution = []
    rebuilt_obj = []
    best_solution_rebuilt_index = 0
    best_solution_objective_rebuilt = float('inf')
    vehicle_count = self.problem.vehicle_count
    customers = self.problem.customers
    customer_count = self.problem.customer_count
    edges_in_customers = self.graph_infos['edges_in_customers']
    edges_out_customers = self.graph_infos['edges_out_customers']
    edges_in_merged_graph = self.graph_infos['edges_in_merged_graph']
    edges_out_merged_graph = self.graph_infos['edges_out_merged_graph']
    edges = self.graph_infos['edges']
    edges_warm_set = self.graph_infos['edges_warm_set']
    g = self.graph
    while not finished:
        solutions_ll = retreve_solutions(self.model, self.x_var, vehicle_count, g)
        solutions += [solutions_ll[0]['x_solution']]
        cost += [objective]
        x_solution, rebuilt_dict, obj, components, components_global, component_all, component_global_all = reevaluate_solutions(solutions_ll, vehicle_count, g, vrp_problem=self.problem)
        for comp in component_global_all:
            update_model_2(self.problem, self.model, self.x_var, comp, edges_in_customers, edges_out_customers)
        nb_components += [len(components_global)]
        rebuilt_solution += [rebuilt_dict]
        rebuilt_obj += [obj]
        if obj < best_solution_objective_rebuilt:
            best_solution_objective_rebuilt = obj
            best_solution_rebuilt_index = iteration
        iteration += 1
        if len(component_global_all[0]) > 1 or True:
            edges_to_add = set()
            for v in rebuilt_dict:
                edges_to_add.update({(e0, e1) for e0, e1 in zip(rebuilt_dict[v][:-1], rebuilt_dict[v][1:])})
            edges_missing = {e for e in edges_to_add if e not in edges}
            if len(edges_missing) > 0:
                g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph = update_graph(g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph, edges_missing, customers)
                self.model.reset()
                self.model = None
                tsp_model, x_var, constraint_flow_in, constraint_flow_out, constraint_on_edge = init_model_lp(g=g, edges=edges, edges_in_customers=edges_in_customers, edges_out_customers=edges_out_customers, edges_in_merged_graph=edges_in_merged_graph, edges_out_merged_graph=edges_out_merged_graph, edges_warm_set=edges_warm_set, start_indexes=self.problem.start_indexes, end_indexes=self.problem.end_indexes, do_lns=do_lns, fraction=fraction, vehicle_count=self.problem.vehicle_count, vehicle_capacity=self.problem.vehicle_capacities)
                self.model = tsp_model
                self.model.setParam('TimeLimit', limit_time_s)
                self.x_var = x_var
                self.constraint_on_edge = constraint_on_edge
                self.graph = g
                self.graph_infos = {'edges': edges, 'edges_in_customers': edges_in_customers, 'edges_out_customers': edges_out_customers, 'edges_in_merged_graph': edges_in_merged_graph, 'edges_out_merged_graph': edges_out_merged_graph, 'edges_warm_set': edges_warm_set}
                edges_in_customers = self.graph_infos['edges_in_customers']
                edges_out_customers = self.graph_infos['edges_out_customers']
                edges_in_merged_graph = self.graph_infos['edges_in_merged_graph']
                edges_out_merged_graph = self.graph_infos['edges_out_merged_graph']
                edges = self.graph_infos['edges']
                edges_warm_set = self.graph_infos['edges_warm_set']
                for iedge in self.constraint_on_edge:
                    self.model.remove(self.constraint_on_edge[iedge])
                constraint_on_edge = {}
            edges_to_constraint = set(self.x_var.keys())
            if do_lns:
                edges_to_constraint = set(random.sample(list(self.x_var.keys()), int(fraction * len(self.x_var))))
                for iedge in self.constraint_on_edge:
                    self.model.remove(self.constraint_on_edge[iedge])
                self.model.update()
                self.constraint_on_edge = {}
                edges_to_constraint = set()
                vehicle = set(random.sample(range(vehicle_count), 3))
                edges_to_constraint.update(set([e for e in edges if e[0][0] not in vehicle]))
            iedge = 0
            x_var = self.x_var
            if all((e in edges for e in edges_to_add)):
                for e in x_var:
                    val = 0
                    if e in edges_to_add:
                        x_var[e].start = 1
                        x_var[e].varhintval = 1
                        val = 1
                    else:
                        x_var[e].start = 0
                        x_var[e].varhintval = 0
                    if e in edges_to_constraint:
                        if do_lns:
                            self.constraint_on_edge[iedge] = self.model.addConstr(x_var[e] == val, name=str((e, iedge)))
                            iedge += 1
            else:
                pass
            self.model.update()
            self.model.optimize()
            objective = self.model.getObjective().getValue()
        else:
            finished = True
        finished = finished or iteration >= nb_iteration_max
    plot = kwargs.get('plot', True)
    if plot:
        fig, ax = plt.subplots(2)
        for i in range(len(solutions)):
            ll = []
            for v in solutions[i]:
                for e in solutions[i][v]:
                    ll.append(ax[0].plot([customers[e[0][1]].x, customers[e[1][1]].x], [customers[e[0][1]].y, customers[e[1][1]].y], color='b'))
                ax[1].plot([customers[n[1]].x for n in rebuilt_solution[i][v]], [customers[n[1]].y for n in rebuilt_solution[i][v]], color='orange')
            ax[0].set_title('iter ' + str(i) + ' obj=' + str(int(cost[i])))
            ax[1].set_title('iter ' + str(i) + ' obj=' + str(int(rebuilt_obj[i])))
            plt.draw()
            plt.pause(0.01)
            ax[0].lines = []
            ax[1].lines = []
        plt.show()
    solution = VrpSolution(problem=self.problem, list_start_index=self.problem.start_indexes, list_end_index=self.problem.end_indexes, list_paths=[[x[1] for x in rebuilt_solution[best_solution_rebuilt_index][l][1:-1]] for l in sorted(rebuilt_solution[best_solution_rebuilt_index])], length=None, lengths=None, capacities=None)
    fit = self.problem.evaluate(solution)
    fit = self.aggreg_sol(solution)
    return ResultStorage(list_solution_fits=[(solution, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/vrp/solver/lp_vrp_iterative_pymip.py", "VRPIterativeLP.solve")
def _(self, **kwargs):
    solver_name = kwargs.get('solver_name', CBC)
    do_lns = kwargs.get('do_lns', False)
    fraction = kwargs.get('fraction_lns', 0.9)
    nb_iteration_max = kwargs.get('nb_iteration_max', 20)
    if self.model is None:
        kwargs['solver_name'] = solver_name
        kwargs['do_lns'] = do_lns
        kwargs['fraction_lns'] = fraction
        self.init_model(**kwargs)
    limit_time_s = kwargs.get('limit_time_s', 10)
    self.model.optimize(max_seconds=limit_time_s)
    objective = self.model.objective_value
    finished = False
    solutions = []
    cost = []
    nb_components = []
    iteration = 0
    rebuilt_solution = []
    rebuilt_obj = []
    best_solution_rebuilt_index = 0
    best_solution_objective_rebuilt = float('inf')
    vehicle_count = self.problem.vehicle_count
    customers = self.problem.customers
    customer_count = self.problem.customer_count
    edges_in_customers = self.graph_infos['edges_in_customers']
    edges_out_customers = self.graph_infos['edges_out_customers']
    edges_in_merged_graph = self.graph_infos['edges_in_merged_graph']
    edges_out_merged_graph = self.graph_infos['edges_out_merged_graph']
    edges = self.graph_infos['edges']
    edges_warm_set = self.graph_infos['edges_warm_set']
    g = self.graph
    while not finished:
        solutions_ll = retreve_solutions(self.model, self.x_var, vehicle_count, g)
        solutions += [solutions_ll[0]['x_solution']]
        cost += [objective]
        x_solution, rebuilt_dict, obj, components, components_global, component_all, component_global_all = reevaluate_solutions(solutions_ll, vehicle_count, g, vrp_problem=self.problem)
        for comp in component_global_all:
            update_model_2(self.problem, self.model, self.x_var, comp, edges_in_customers, edges_out_customers)
        nb_components += [len(components_global)]
        rebuilt_solution += [rebuilt_dict]
        rebuilt_obj += [obj]
        if obj < best_solution_objective_rebuilt:
            best_solution_objective_rebuilt = obj
            best_solution_rebuilt_index = iteration
        iteration += 1
        if len(component_global_all[0]) > 1 or True:
            edges_to_add = set()
            for v in rebuilt_dict:
                edges_to_add.update({(e0, e1) for e0, e1 in zip(rebuilt_dict[v][:-1], rebuilt_dict[v][1:])})
            edges_missing = {e for e in edges_to_add if e not in edges}
            if len(edges_missing) > 0:
                g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph = update_graph(g, edges, edges_in_customers, edges_out_customers, edges_in_merged_graph, edges_out_merged_graph, edges_missing, customers)
                self.model = None
                tsp_model, x_var, constraint_flow_in, constraint_flow_out, constraint_on_edge = init_model_lp(g=g, edges=edges, edges_in_customers=edges_in_customers, edges_out_customers=edges_out_customers, edges_in_merged_graph=edges_in_merged_graph, edges_out_merged_graph=edges_out_merged_graph, edges_warm_set=edges_warm_set, start_indexes=self.problem.start_indexes, end_indexes=self.problem.end_indexes, do_lns=do_lns, fraction=fraction, vehicle_count=self.problem.vehicle_count, vehicle_capacity=self.problem.vehicle_capacities, solver_name=solver_name)
                self.model = tsp_model
                self.x_var = x_var
                self.constraint_on_edge = constraint_on_edge
                self.graph = g
                self.graph_infos = {'edges': edges, 'edges_in_customers': edges_in_customers, 'edges_out_customers': edges_out_customers, 'edges_in_merged_graph': edges_in_merged_graph, 'edges_out_merged_graph': edges_out_merged_graph, 'edges_warm_set': edges_warm_set}
                edges_in_customers = self.graph_infos['edges_in_customers']
                edges_out_customers = self.graph_infos['edges_out_customers']
                edges_in_merged_graph = self.graph_infos['edges_in_merged_graph']
                edges_out_merged_graph = self.graph_infos['edges_out_merged_graph']
                edges = self.graph_infos['edges']
                edges_warm_set = self.graph_infos['edges_warm_set']
                for iedge in self.constraint_on_edge:
                    self.model.remove(self.constraint_on_edge[iedge])
                self.model.update()
                self.constraint_on_edge = {}
            edges_to_constraint = set(self.x_var.keys())
            if do_lns:
                edges_to_constraint = set(random.sample(list(self.x_var.keys()), int(fraction * len(self.x_var))))
                for iedge in self.constraint_on_edge:
                    self.model.remove(self.constraint_on_edge[iedge])
                self.model.update()
                self.constraint_on_edge = {}
                edges_to_constraint = set()
                vehicle = set(random.sample(range(vehicle_count), min(4, vehicle_count)))
                edges_to_constraint.update(set([e for e in edges if e[0][0] not in vehicle]))
            iedge = 0
            x_var = self.x_var
            start = []
            if all((e in edges for e in edges_to_add)):
                for e in x_var:
                    val = 0
                    if e in edges_to_add:
                        start += [(x_var[e], 1)]
                        val = 1
                    else:
                        start += [(x_var[e], 0)]
                    if e in edges_to_constraint:
                        if do_lns:
                            self.constraint_on_edge[iedge] = self.model.add_constr(x_var[e] == val, name=str((e, iedge)))
                            iedge += 1
                self.model.update()
            else:
                pass
            self.model.start = start
            self.model.optimize(max_seconds=limit_time_s)
            objective = self.model.objective_value
        else:
            finished = True
        finished = finished or iteration >= nb_iteration_max
    plot = kwargs.get('plot', True)
    if plot:
        fig, ax = plt.subplots(2)
        for i in range(len(solutions)):
            ll = []
            for v in solutions[i]:
                for e in solutions[i][v]:
                    ll.append(ax[0].plot([customers[e[0][1]].x, customers[e[1][1]].x], [customers[e[0][1]].y, customers[e[1][1]].y], color='b'))
                ax[1].plot([customers[n[1]].x for n in rebuilt_solution[i][v]], [customers[n[1]].y for n in rebuilt_solution[i][v]], color='orange')
            ax[0].set_title('iter ' + str(i) + ' obj=' + str(int(cost[i])))
            ax[1].set_title('iter ' + str(i) + ' obj=' + str(int(rebuilt_obj[i])))
            plt.draw()
            plt.pause(0.01)
            ax[0].lines = []
            ax[1].lines = []
        plt.show()
    solution = VrpSolution(problem=self.problem, list_start_index=self.problem.start_indexes, list_end_index=self.problem.end_indexes, list_paths=[[x[1] for x in rebuilt_solution[best_solution_rebuilt_index][l][1:-1]] for l in sorted(rebuilt_solution[best_solution_rebuilt_index])], length=None, lengths=None, capacities=None)
    fit = self.aggreg_sol(solution)
    return ResultStorage(list_solution_fits=[(solution, fit)], mode_optim=self.params_objective_function.sense_function)


@spec("builders/discrete_optimization/vrp/solver/solver_ortools.py", "create_data_model")
def _():
    data = {}
    data['distance_matrix'] = [[0, 548, 776, 696, 582, 274, 502, 194, 308, 194, 536, 502, 388, 354, 468, 776, 662], [548, 0, 684, 308, 194, 502, 730, 354, 696, 742, 1084, 594, 480, 674, 1016, 868, 1210], [776, 684, 0, 992, 878, 502, 274, 810, 468, 742, 400, 1278, 1164, 1130, 788, 1552, 754], [696, 308, 992, 0, 114, 650, 878, 502, 844, 890, 1232, 514, 628, 822, 1164, 560, 1358], [582, 194, 878, 114, 0, 536, 764, 388, 730, 776, 1118, 400, 514, 708, 1050, 674, 1244], [274, 502, 502, 650, 536, 0, 228, 308, 194, 240, 582, 776, 662, 628, 514, 1050, 708], [502, 730, 274, 878, 764, 228, 0, 536, 194, 468, 354, 1004, 890, 856, 514, 1278, 480], [194, 354, 810, 502, 388, 308, 536, 0, 342, 388, 730, 468, 354, 320, 662, 742, 856], [308, 696, 468, 844, 730, 194, 194, 342, 0, 274, 388, 810, 696, 662, 320, 1084, 514], [194, 742, 742, 890, 776, 240, 468, 388, 274, 0, 342, 536, 422, 388, 274, 810, 468], [536, 1084, 400, 1232, 1118, 582, 354, 730, 388, 342, 0, 878, 764, 730, 388, 1152, 354], [502, 594, 1278, 514, 400, 776, 1004, 468, 810, 536, 878, 0, 114, 308, 650, 274, 844], [388, 480, 1164, 628, 514, 662, 890, 354, 696, 422, 764, 114, 0, 194, 536, 388, 730], [354, 674, 1130, 822, 708, 628, 856, 320, 662, 388, 730, 308, 194, 0, 342, 422, 536], [468, 1016, 788, 1164, 1050, 514, 514, 662, 320, 274, 388, 650, 536, 342, 0, 764, 194], [776, 868, 1552, 560, 674, 1050, 1278, 742, 1084, 810, 1152, 274, 388, 422, 764, 0, 798], [662, 1210, 754, 1358, 1244, 708, 480, 856, 514, 468, 354, 844, 730, 536, 194, 798, 0]]
    data['demands'] = [0, 1, 1, 2, 4, 2, 4, 8, 8, 1, 2, 1, 2, 4, 4, 8, 8]
    data['vehicle_capacities'] = [15, 15, 15, 15]
    data['num_vehicles'] = 4
    data['depot'] = 0
    return data
