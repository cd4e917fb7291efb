# C23: scheduling building blocks


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.get_all_condition_items")
def _(self):
    return self._get_all_condition_items()


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.get_task_on_completion_added_conditions")
def _(self):
    return self._get_task_on_completion_added_conditions()


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks._sample_completion_conditions")
def _(self, task):
    conditions_to_add = []
    tests = self.get_task_on_completion_added_conditions()[task]
    for test in tests:
        conditions_to_add.append(test.sample())
    return conditions_to_add


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.sample_completion_conditions")
def _(self, task):
    return self._sample_completion_conditions(task=task)


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.get_task_existence_conditions")
def _(self):
    return self._get_task_existence_conditions()


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks._add_to_current_conditions")
def _(self, task, state):
    conditions_to_add = self.sample_completion_conditions(task)
    for x in conditions_to_add:
        state._current_conditions.add(x)


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.add_to_current_conditions")
def _(self, task, state):
    return self._add_to_current_conditions(task=task, state=state)


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks._get_available_tasks")
def _(self, state):
    all_ids = self.get_tasks_ids()
    available_ids = set()
    for id in all_ids:
        if id not in self.get_task_existence_conditions().keys():
            available_ids.add(id)
        else:
            test = True
            for cond in self.get_task_existence_conditions()[id]:
                if cond not in state._current_conditions:
                    test = False
            if test:
                available_ids.add(id)
    return available_ids


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.get_available_tasks")
def _(self, state):
    return self._get_available_tasks(state=state)


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks._get_all_unconditional_tasks")
def _(self):
    all_ids = self.get_tasks_ids()
    available_ids = set()
    for id in all_ids:
        if id not in self.get_task_existence_conditions().keys() or len(self.get_task_existence_conditions()[id]) == 0:
            available_ids.add(id)
    return available_ids


@spec("builders/scheduling/conditional_tasks.py", "WithConditionalTasks.get_all_unconditional_tasks")
def _(self):
    return self._get_all_unconditional_tasks()


@spec("builders/scheduling/conditional_tasks.py", "WithoutConditionalTasks._get_all_condition_items")
def _(self):
    return None


@spec("builders/scheduling/conditional_tasks.py", "WithoutConditionalTasks._get_task_on_completion_added_conditions")
def _(self):
    return {}


@spec("builders/scheduling/conditional_tasks.py", "WithoutConditionalTasks._get_task_existence_conditions")
def _(self):
    return {}


@spec("builders/scheduling/graph_toolbox.py", "Graph.__init__")
def _(self, nodes, edges, undirected=True):
    self.nodes = nodes
    self.edges = edges
    self.undirected = undirected
    self.neighbors_dict = {}
    self.predecessors_dict = {}
    self.edges_infos_dict = {}
    self.nodes_infos_dict = {}
    self.build_nodes_infos_dict()
    self.build_edges()
    self.nodes_name = sorted(self.nodes_infos_dict)
    self.graph_nx = self.to_networkx()


@spec("builders/scheduling/graph_toolbox.py", "Graph.get_edges")
def _(self):
    return self.edges_infos_dict.keys()


@spec("builders/scheduling/graph_toolbox.py", "Graph.get_nodes")
def _(self):
    return self.nodes_name


@spec("builders/scheduling/graph_toolbox.py", "Graph.build_nodes_infos_dict")
def _(self):
    for n, d in self.nodes:
        self.nodes_infos_dict[n] = d


@spec("builders/scheduling/graph_toolbox.py", "Graph.build_edges")
def _(self):
    for n1, n2, d in self.edges:
        self.edges_infos_dict[n1, n2] = d
        if n2 not in self.predecessors_dict:
            self.predecessors_dict[n2] = set()
        if n1 not in self.neighbors_dict:
            self.neighbors_dict[n1] = set()
        self.predecessors_dict[n2].add(n1)
        self.neighbors_dict[n1].add(n2)
        if self.undirected:
            if n1 not in self.predecessors_dict:
                self.predecessors_dict[n1] = set()
            if n2 not in self.neighbors_dict:
                self.neighbors_dict[n2] = set()
            self.predecessors_dict[n1].add(n2)
            self.neighbors_dict[n2].add(n1)
            self.edges_infos_dict[n2, n1] = d


@spec("builders/scheduling/graph_toolbox.py", "Graph.get_neighbors")
def _(self, node):
    return self.neighbors_dict.get(node, [])


@spec("builders/scheduling/graph_toolbox.py", "Graph.get_predecessors")
def _(self, node):
    return self.predecessors_dict.get(node, [])


@spec("builders/scheduling/graph_toolbox.py", "Graph.get_attr_node")
def _(self, node, attr):
    return self.nodes_infos_dict.get(node, {}).get(attr, None)


@spec("builders/scheduling/graph_toolbox.py", "Graph.get_attr_edge")
def _(self, node1, node2, attr):
    return self.edges_infos_dict.get((node1, node2), {}).get(attr, None)


@spec("builders/scheduling/graph_toolbox.py", "Graph.to_networkx")
def _(self):
    graph_nx = nx.DiGraph() if not self.undirected else nx.Graph()
    graph_nx.add_nodes_from(self.nodes)
    graph_nx.add_edges_from(self.edges)
    return graph_nx


@spec("builders/scheduling/graph_toolbox.py", "Graph.check_loop")
def _(self):
    try:
        cycles = nx.find_cycle(self.graph_nx, orientation='original')
    except:
        cycles = None
    return cycles


@spec("builders/scheduling/graph_toolbox.py", "Graph.precedessors_nodes")
def _(self, n):
    return nx.algorithms.ancestors(self.graph_nx, n)


@spec("builders/scheduling/graph_toolbox.py", "Graph.ancestors_map")
def _(self):
    return {n: nx.algorithms.ancestors(self.graph_nx, n) for n in self.graph_nx.nodes()}


@spec("builders/scheduling/graph_toolbox.py", "Graph.descendants_map")
def _(self):
    return {n: nx.algorithms.descendants(self.graph_nx, n) for n in self.graph_nx.nodes()}


@spec("builders/scheduling/graph_toolbox.py", "Graph.successors_map")
def _(self):
    return {n: list(nx.neighbors(self.graph_nx, n)) for n in self.graph_nx.nodes()}


@spec("builders/scheduling/graph_toolbox.py", "Graph.predecessors_map")
def _(self):
    return {n: list(self.graph_nx.predecessors(n)) for n in self.graph_nx.nodes()}


@spec("builders/scheduling/modes.py", "ModeConsumption.get_resource_need_at_time")
def _(self, resource_name, time):
    return self._get_resource_need_at_time(resource_name=resource_name, time=time)


@spec("builders/scheduling/modes.py", "ModeConsumption.get_non_zero_ressource_need_names")
def _(self, time):
    return self._get_non_zero_ressource_need_names(time=time)


@spec("builders/scheduling/modes.py", "ModeConsumption.get_ressource_names")
def _(self):
    return self._get_ressource_names()


@spec("builders/scheduling/modes.py", "VaryingModeConsumption.__init__")
def _(self, mode_dict):
    self.mode_details = mode_dict


@spec("builders/scheduling/modes.py", "VaryingModeConsumption._get_resource_need_at_time")
def _(self, resource_name, time):
    if resource_name in self.mode_details:
        return self.mode_details[resource_name][time]
    else:
        return 0


@spec("builders/scheduling/modes.py", "VaryingModeConsumption._get_non_zero_ressource_need_names")
def _(self, time=0):
    return [r for r in self.mode_details if self.get_resource_need_at_time(r, time) > 0]


@spec("builders/scheduling/modes.py", "VaryingModeConsumption._get_ressource_names")
def _(self):
    return self.mode_details.keys()


@spec("builders/scheduling/modes.py", "ConstantModeConsumption.__init__")
def _(self, mode_dict):
    self.mode_details = {}
    for key in mode_dict.keys():
        self.mode_details[key] = [mode_dict[key]]


@spec("builders/scheduling/modes.py", "ConstantModeConsumption.get_resource_need")
def _(self, resource_name):
    return self._get_resource_need(resource_name=resource_name)


@spec("builders/scheduling/modes.py", "ConstantModeConsumption._get_resource_need")
def _(self, resource_name):
    return self.mode_details.get(resource_name, [0])[0]


@spec("builders/scheduling/modes.py", "ConstantModeConsumption._get_resource_need_at_time")
def _(self, resource_name, time):
    return self._get_resource_need(resource_name=resource_name)


@spec("builders/scheduling/modes.py", "MultiMode.get_tasks_ids")
def _(self):
    return self._get_tasks_ids()


@spec("builders/scheduling/modes.py", "MultiMode.get_tasks_modes")
def _(self):
    return self._get_tasks_modes()


@spec("builders/scheduling/modes.py", "MultiMode._get_ressource_names_for_task_mode")
def _(self, task, mode):
    return self.get_tasks_modes()[task][mode].get_ressource_names()


@spec("builders/scheduling/modes.py", "MultiMode.get_ressource_names_for_task_mode")
def _(self, task, mode):
    return self._get_ressource_names_for_task_mode(task=task, mode=mode)


@spec("builders/scheduling/modes.py", "MultiMode._get_task_modes")
def _(self, task_id):
    return self.get_tasks_modes()[task_id]


@spec("builders/scheduling/modes.py", "MultiMode.get_task_modes")
def _(self, task_id):
    return self._get_task_modes(task_id=task_id)


@spec("builders/scheduling/modes.py", "MultiMode._get_task_consumption")
def _(self, task, mode, resource_name, time):
    return self.get_task_modes(task)[mode].get_resource_need_at_time(resource_name=resource_name, time=time)


@spec("builders/scheduling/modes.py", "MultiMode.get_task_consumption")
def _(self, task, mode, resource_name, time):
    return self._get_task_consumption(task=task, mode=mode, resource_name=resource_name, time=time)


@spec("builders/scheduling/modes.py", "SingleMode._get_tasks_modes")
def _(self):
    modes = {}
    tmp_dict = self.get_tasks_mode()
    for key in tmp_dict:
        modes[key] = {}
        modes[key][1] = tmp_dict[key]
    return modes


@spec("builders/scheduling/modes.py", "SingleMode.get_tasks_mode")
def _(self):
    return self._get_tasks_mode()


@spec("builders/scheduling/preallocations.py", "WithPreallocations.get_preallocations")
def _(self):
    return self._get_preallocations()


@spec("builders/scheduling/preallocations.py", "WithoutPreallocations._get_preallocations")
def _(self):
    return {}


@spec("builders/scheduling/precedence.py", "WithPrecedence.get_successors")
def _(self):
    return self._get_successors()


@spec("builders/scheduling/precedence.py", "WithPrecedence._get_successors_task")
def _(self, task_id):
    return self.get_successors()[task_id]


@spec("builders/scheduling/precedence.py", "WithPrecedence.get_successors_task")
def _(self, task_id):
    return self._get_successors_task(task_id=task_id)


@spec("builders/scheduling/precedence.py", "WithPrecedence._get_predecessors")
def _(self):
    return self.graph.predecessors_map()


@spec("builders/scheduling/precedence.py", "WithPrecedence.get_predecessors")
def _(self):
    return self._get_predecessors()


@spec("builders/scheduling/precedence.py", "WithPrecedence._get_predecessors_task")
def _(self, task_id):
    return self.get_predecessors()[task_id]


@spec("builders/scheduling/precedence.py", "WithPrecedence.get_predecessors_task")
def _(self, task_id):
    return self._get_predecessors_task(task_id=task_id)


@spec("builders/scheduling/precedence.py", "WithPrecedence.compute_graph")
def _(self):
    task_ids = self.get_tasks_ids()
    successors = self.get_successors()
    mode_details = self.get_tasks_modes()
    nodes = [(n, {mode: self.sample_task_duration(task=n, mode=mode) for mode in mode_details[n]}) for n in task_ids]
    edges = []
    for n in successors:
        for succ in successors[n]:
            edges += [(n, succ, {})]
    return Graph(nodes, edges, False)


@spec("builders/scheduling/precedence.py", "WithPrecedence._task_modes_possible_to_launch")
def _(self, state):
    return [(n, mode) for n in state.tasks_remaining for mode in self.get_task_modes(n).keys() if all((m in state.tasks_complete for m in self.ancestors[n]))]


@spec("builders/scheduling/precedence.py", "WithPrecedence.task_modes_possible_to_launch")
def _(self, state):
    return self._task_modes_possible_to_launch(state=state)


@spec("builders/scheduling/precedence.py", "WithPrecedence._task_possible_to_launch_precedence")
def _(self, state):
    return [n for n in state.tasks_remaining if all((m in state.tasks_complete for m in self.ancestors[n]))]


@spec("builders/scheduling/precedence.py", "WithPrecedence.task_possible_to_launch_precedence")
def _(self, state):
    return self._task_possible_to_launch_precedence(state=state)


@spec("builders/scheduling/precedence.py", "WithoutPrecedence._get_successors")
def _(self):
    ids = self.get_tasks_ids()
    succ = {}
    for id in ids:
        succ[id] = []
    return succ


@spec("builders/scheduling/precedence.py", "WithoutPrecedence._get_predecessors")
def _(self):
    ids = self.get_tasks_ids()
    prec = {}
    for id in ids:
        prec[id] = []
    return prec


@spec("builders/scheduling/preemptivity.py", "WithPreemptivity.get_task_preemptivity")
def _(self):
    return self._get_task_preemptivity()


@spec("builders/scheduling/preemptivity.py", "WithPreemptivity.get_task_resuming_type")
def _(self):
    return self._get_task_resuming_type()


@spec("builders/scheduling/preemptivity.py", "WithPreemptivity.get_task_paused_non_renewable_resource_returned")
def _(self):
    return self._get_task_paused_non_renewable_resource_returned()


@spec("builders/scheduling/preemptivity.py", "WithoutPreemptivity._get_task_preemptivity")
def _(self):
    preemptivity = {}
    ids = self.get_tasks_ids()
    for id in ids:
        preemptivity[id] = False
    return preemptivity


@spec("builders/scheduling/preemptivity.py", "WithoutPreemptivity._get_task_resuming_type")
def _(self):
    resume_types = {}
    ids = self.get_tasks_ids()
    for id in ids:
        resume_types[id] = ResumeType.NA
    return resume_types


@spec("builders/scheduling/preemptivity.py", "WithoutPreemptivity._get_task_paused_non_renewable_resource_returned")
def _(self):
    handling = {}
    ids = self.get_tasks_ids()
    for id in ids:
        handling[id] = True
    return handling


@spec("builders/scheduling/resource_availability.py", "UncertainResourceAvailabilityChanges.sample_quantity_resource")
def _(self, resource, time, **kwargs):
    return self._sample_quantity_resource(resource=resource, time=time, **kwargs)


@spec("builders/scheduling/resource_availability.py", "UncertainResourceAvailabilityChanges.check_unique_resource_names")
def _(self):
    list1 = self.get_resource_types_names() + self.get_resource_units_names()
    list2 = list(set(list1))
    check_1 = len(list1) == len(list2)
    check_2 = len(list2) > 0
    return check_1 and check_2


@spec("builders/scheduling/resource_availability.py", "DeterministicResourceAvailabilityChanges.get_quantity_resource")
def _(self, resource, time, **kwargs):
    return self._get_quantity_resource(resource=resource, time=time, **kwargs)


@spec("builders/scheduling/resource_availability.py", "DeterministicResourceAvailabilityChanges._sample_quantity_resource")
def _(self, resource, time, **kwargs):
    return self.get_quantity_resource(resource, time, **kwargs)


@spec("builders/scheduling/resource_availability.py", "WithoutResourceAvailabilityChange.get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self._get_original_quantity_resource(resource=resource, **kwargs)


@spec("builders/scheduling/resource_availability.py", "WithoutResourceAvailabilityChange._get_quantity_resource")
def _(self, resource, time, **kwargs):
    return self.get_original_quantity_resource(resource)


@spec("builders/scheduling/resource_availability.py", "WithoutResourceAvailabilityChange._sample_quantity_resource")
def _(self, resource, time, **kwargs):
    return self.get_original_quantity_resource(resource)


@spec("builders/scheduling/resource_consumption.py", "VariableResourceConsumption._get_variable_resource_consumption")
def _(self):
    return True


@spec("builders/scheduling/resource_consumption.py", "VariableResourceConsumption.get_variable_resource_consumption")
def _(self):
    return self._get_variable_resource_consumption()


@spec("builders/scheduling/resource_consumption.py", "ConstantResourceConsumption._get_variable_resource_consumption")
def _(self):
    return False


@spec("builders/scheduling/resource_costs.py", "WithModeCosts.get_mode_costs")
def _(self):
    return self._get_mode_costs()


@spec("builders/scheduling/resource_costs.py", "WithoutModeCosts._get_mode_costs")
def _(self):
    cost_dict = {}
    for task_id in self.get_tasks_modes().keys():
        cost_dict[task_id] = {}
        for mode_id in self.get_tasks_modes()[task_id].keys():
            cost_dict[task_id][mode_id] = 0.0
    return cost_dict


@spec("builders/scheduling/resource_costs.py", "WithResourceCosts.get_resource_cost_per_time_unit")
def _(self):
    return self._get_resource_cost_per_time_unit()


@spec("builders/scheduling/resource_costs.py", "WithoutResourceCosts._get_resource_cost_per_time_unit")
def _(self):
    cost_dict = {}
    for res in self.get_resource_types_names():
        cost_dict[res] = 0.0
    for res in self.get_resource_units_names():
        cost_dict[res] = 0.0
    return cost_dict


@spec("builders/scheduling/resource_renewability.py", "MixedRenewable.get_resource_renewability")
def _(self):
    return self._get_resource_renewability()


@spec("builders/scheduling/resource_renewability.py", "MixedRenewable.is_renewable")
def _(self, resource):
    return self.get_resource_renewability()[resource]


@spec("builders/scheduling/resource_renewability.py", "MixedRenewable.all_tasks_possible")
def _(self, state):
    for task_id in state.tasks_remaining:
        task_possible = True
        for mode in self.get_task_modes(task_id).keys():
            mode_possible = True
            for res in self.get_resource_types_names():
                if not self.get_resource_renewability()[res]:
                    need = self.get_task_modes(task_id)[mode].get_resource_need(res)
                    avail = state.resource_availability[res] - state.resource_used[res]
                    if avail - need < 0:
                        mode_possible = False
                        break
            if mode_possible is True:
                break
        if not mode_possible:
            return False
    return True


@spec("builders/scheduling/resource_renewability.py", "RenewableOnly._get_resource_renewability")
def _(self):
    names = self.get_resource_types_names() + self.get_resource_units_names()
    renewability = {}
    for name in names:
        renewability[name] = True
    return renewability


@spec("builders/scheduling/resource_renewability.py", "RenewableOnly.is_renewable")
def _(self, resource):
    return True


@spec("builders/scheduling/resource_type.py", "WithResourceTypes.get_resource_types_names")
def _(self):
    return self._get_resource_types_names()


@spec("builders/scheduling/resource_type.py", "WithoutResourceTypes._get_resource_types_names")
def _(self):
    return []


@spec("builders/scheduling/resource_type.py", "WithResourceUnits.get_resource_units_names")
def _(self):
    return self._get_resource_units_names()


@spec("builders/scheduling/resource_type.py", "WithResourceUnits.get_resource_type_for_unit")
def _(self):
    return self._get_resource_type_for_unit()


@spec("builders/scheduling/resource_type.py", "SingleResourceUnit._get_resource_units_names")
def _(self):
    return ['single_resource']


@spec("builders/scheduling/resource_type.py", "SingleResourceUnit._get_resource_type_for_unit")
def _(self):
    return {}


@spec("builders/scheduling/resource_type.py", "WithoutResourceUnit._get_resource_units_names")
def _(self):
    return []


@spec("builders/scheduling/resource_type.py", "WithoutResourceUnit._get_resource_type_for_unit")
def _(self):
    return {}


@spec("builders/scheduling/skills.py", "WithResourceSkills.get_skills_names")
def _(self):
    all_names = set()
    skill_dict = self.get_all_resources_skills()
    for key1 in skill_dict.keys():
        for key2 in skill_dict[key1].keys():
            all_names.add(key2)
    skill_dict = self.get_all_tasks_skills()
    for key1 in skill_dict.keys():
        for mode in skill_dict[key1].keys():
            for key2 in skill_dict[key1][mode].keys():
                all_names.add(key2)
    return all_names


@spec("builders/scheduling/skills.py", "WithResourceSkills.get_all_resources_skills")
def _(self):
    return self._get_all_resources_skills()


@spec("builders/scheduling/skills.py", "WithResourceSkills.get_skills_of_resource")
def _(self, resource):
    return self.get_all_resources_skills()[resource]


@spec("builders/scheduling/skills.py", "WithResourceSkills.get_all_tasks_skills")
def _(self):
    return self._get_all_tasks_skills()


@spec("builders/scheduling/skills.py", "WithResourceSkills.get_skills_of_task")
def _(self, task, mode):
    return {s: self.get_all_tasks_skills()[task][mode][s] for s in self.get_all_tasks_skills()[task][mode] if self.get_all_tasks_skills()[task][mode][s] > 0}


@spec("builders/scheduling/skills.py", "WithResourceSkills.find_one_ressource_to_do_one_task")
def _(self, task, mode):
    skill_of_task = self.get_skills_of_task(task, mode)
    resources = []
    if len(skill_of_task) == 0:
        return [None]
    for resource in self.get_all_resources_skills():
        if all((self.get_skills_of_resource(resource=resource).get(s, 0) >= skill_of_task[s] for s in skill_of_task)):
            resources += [resource]
    return resources


@spec("builders/scheduling/skills.py", "WithResourceSkills.check_if_skills_are_fulfilled")
def _(self, task, mode, resource_used):
    skill_of_task = self.get_skills_of_task(task, mode)
    if len(skill_of_task) == 0:
        return True
    skills = {s: 0 for s in skill_of_task}
    for r in resource_used:
        skill_of_ressource = self.get_skills_of_resource(resource=r)
        for s in skill_of_ressource:
            if s in skills:
                skills[s] += skill_of_ressource[s]
    return all((skills[s] >= skill_of_task[s] for s in skill_of_task))


@spec("builders/scheduling/skills.py", "WithoutResourceSkills._get_all_resources_skills")
def _(self):
    return {}


@spec("builders/scheduling/skills.py", "WithoutResourceSkills.get_skills_of_resource")
def _(self, resource):
    return {}


@spec("builders/scheduling/skills.py", "WithoutResourceSkills._get_all_tasks_skills")
def _(self):
    return {}


@spec("builders/scheduling/skills.py", "WithoutResourceSkills.get_skills_of_task")
def _(self, task, mode):
    return {}


@spec("builders/scheduling/skills.py", "WithoutResourceSkills.check_if_skills_are_fulfilled")
def _(self, task, mode, resource_used):
    return True


@spec("builders/scheduling/task_duration.py", "SimulatedTaskDuration.sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    if task not in self.sampled_durations:
        self.sampled_durations[task] = {}
    if mode not in self.sampled_durations[task]:
        self.sampled_durations[task][mode] = {}
    if progress_from not in self.sampled_durations[task][mode]:
        self.sampled_durations[task][mode][progress_from] = self._sample_task_duration(task, mode, progress_from)
    return self.sampled_durations[task][mode][progress_from]


@spec("builders/scheduling/task_duration.py", "SimulatedTaskDuration.get_latest_sampled_duration")
def _(self, task, mode=1, progress_from=0.0):
    if task in self.sampled_durations:
        if mode in self.sampled_durations[task]:
            if progress_from in self.sampled_durations[task][mode]:
                return self.sampled_durations[task][mode][progress_from]
    return self.sample_task_duration(task, mode, progress_from)


@spec("builders/scheduling/task_duration.py", "UncertainMultivariateTaskDuration.sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self._sample_task_duration(task=task, mode=mode, progress_from=progress_from)


@spec("builders/scheduling/task_duration.py", "UncertainMultivariateTaskDuration._sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration_distribution(task, mode, progress_from).sample()


@spec("builders/scheduling/task_duration.py", "UncertainMultivariateTaskDuration.get_task_duration_distribution")
def _(self, task, mode=1, progress_from=0.0, multivariate_settings=None):
    return self._get_task_duration_distribution(task, mode, progress_from, multivariate_settings)


@spec("builders/scheduling/task_duration.py", "UncertainUnivariateTaskDuration._sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration_distribution(task, mode, progress_from).sample()


@spec("builders/scheduling/task_duration.py", "UncertainBoundedTaskDuration._sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration_distribution(task, mode, progress_from).sample()


@spec("builders/scheduling/task_duration.py", "UncertainBoundedTaskDuration.get_task_duration_upper_bound")
def _(self, task, mode=1, progress_from=0.0):
    return self._get_task_duration_upper_bound(task, mode, progress_from)


@spec("builders/scheduling/task_duration.py", "UncertainBoundedTaskDuration.get_task_duration_lower_bound")
def _(self, task, mode=1, progress_from=0.0):
    return self._get_task_duration_lower_bound(task, mode, progress_from)


@spec("builders/scheduling/task_duration.py", "UniformBoundedTaskDuration._sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration_distribution(task, mode, progress_from).sample()


@spec("builders/scheduling/task_duration.py", "UniformBoundedTaskDuration._get_task_duration_distribution")
def _(self, task, mode=1, progress_from=0.0, multivariate_settings=None):
    lb = self.get_task_duration_lower_bound(task, mode, progress_from)
    ub = self.get_task_duration_upper_bound(task, mode, progress_from)
    n_vals = ub - lb + 1
    p = 1.0 / float(n_vals)
    values = [(x, p) for x in range(lb, ub + 1)]
    return DiscreteDistribution(values)


@spec("builders/scheduling/task_duration.py", "EnumerableTaskDuration._sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration_distribution(task, mode, progress_from).sample()


@spec("builders/scheduling/task_duration.py", "EnumerableTaskDuration._get_task_duration_upper_bound")
def _(self, task, mode=1, progress_from=0.0):
    duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
    return max(duration_vals)


@spec("builders/scheduling/task_duration.py", "EnumerableTaskDuration._get_task_duration_lower_bound")
def _(self, task, mode=1, progress_from=0.0):
    duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
    return min(duration_vals)


@spec("builders/scheduling/task_duration.py", "DeterministicTaskDuration._sample_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration(task, mode, progress_from)


@spec("builders/scheduling/task_duration.py", "DeterministicTaskDuration.get_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self._get_task_duration(task, mode, progress_from)


@spec("builders/scheduling/task_duration.py", "DeterministicTaskDuration._get_task_duration_distribution")
def _(self, task, mode=1, progress_from=0.0, multivariate_settings=None):
    return DiscreteDistribution([(self.get_task_duration(task, mode, progress_from), 1)])


@spec("builders/scheduling/task_duration.py", "DeterministicTaskDuration._get_task_duration_upper_bound")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration(task, mode, progress_from)


@spec("builders/scheduling/task_duration.py", "DeterministicTaskDuration._get_task_duration_lower_bound")
def _(self, task, mode=1, progress_from=0.0):
    return self.get_task_duration(task, mode, progress_from)


@spec("builders/scheduling/time_lag.py", "TimeLag.__init__")
def _(self, minimum_time_lag, maximum_time_lags):
    self.minimum_time_lag = minimum_time_lag
    self.maximum_time_lags = maximum_time_lags


@spec("builders/scheduling/time_lag.py", "MinimumOnlyTimeLag.__init__")
def _(self, minimum_time_lag):
    self.minimum_time_lag = minimum_time_lag
    self.maximum_time_lags = float('inf')


@spec("builders/scheduling/time_lag.py", "MaximumOnlyTimeLag.__init__")
def _(self, maximum_time_lags):
    self.minimum_time_lag = 0
    self.maximum_time_lags = maximum_time_lags


@spec("builders/scheduling/time_lag.py", "WithTimeLag.get_time_lags")
def _(self):
    return self._get_time_lags()


@spec("builders/scheduling/time_lag.py", "WithoutTimeLag._get_time_lags")
def _(self):
    return {}


@spec("builders/scheduling/time_windows.py", "TimeWindow.__init__")
def _(self, earliest_start, latest_start, earliest_end, latest_end, max_horizon):
    self.earliest_start = earliest_start
    self.latest_start = latest_start
    self.earliest_end = earliest_end
    self.latest_end = latest_end


@spec("builders/scheduling/time_windows.py", "ClassicTimeWindow.__init__")
def _(self, earliest_start, latest_end, max_horizon):
    self.earliest_start = earliest_start
    self.latest_start = max_horizon
    self.earliest_end = 0
    self.latest_end = latest_end


@spec("builders/scheduling/time_windows.py", "StartFromOnlyTimeWindow.__init__")
def _(self, earliest_start, max_horizon):
    self.earliest_start = earliest_start
    self.latest_start = max_horizon
    self.earliest_end = 0
    self.latest_end = max_horizon


@spec("builders/scheduling/time_windows.py", "StartBeforeOnlyTimeWindow.__init__")
def _(self, latest_start, max_horizon):
    self.earliest_start = 0
    self.latest_start = latest_start
    self.earliest_end = 0
    self.latest_end = max_horizon


@spec("builders/scheduling/time_windows.py", "EndFromOnlyTimeWindow.__init__")
def _(self, earliest_end, max_horizon):
    self.earliest_start = 0
    self.latest_start = max_horizon
    self.earliest_end = earliest_end
    self.latest_end = max_horizon


@spec("builders/scheduling/time_windows.py", "EndBeforeOnlyTimeWindow.__init__")
def _(self, latest_end, max_horizon):
    self.earliest_start = 0
    self.latest_start = max_horizon
    self.earliest_end = 0
    self.latest_end = latest_end


@spec("builders/scheduling/time_windows.py", "StartTimeWindow.__init__")
def _(self, earliest_start, latest_start, max_horizon):
    self.earliest_start = earliest_start
    self.latest_start = latest_start
    self.earliest_end = 0
    self.latest_end = max_horizon


@spec("builders/scheduling/time_windows.py", "EndTimeWindow.__init__")
def _(self, earliest_end, latest_end, max_horizon):
    self.earliest_start = 0
    self.latest_start = max_horizon
    self.earliest_end = earliest_end
    self.latest_end = latest_end


@spec("builders/scheduling/time_windows.py", "EmptyTimeWindow.__init__")
def _(self, max_horizon):
    self.earliest_start = 0
    self.latest_start = max_horizon
    self.earliest_end = 0
    self.latest_end = max_horizon


@spec("builders/scheduling/time_windows.py", "WithTimeWindow.get_time_window")
def _(self):
    return self._get_time_window()


@spec("builders/scheduling/time_windows.py", "WithoutTimeWindow._get_time_window")
def _(self):
    ids = self.get_tasks_ids()
    the_dict = {}
    for id in ids:
        the_dict[id] = EmptyTimeWindow(self.get_max_horizon())
    return the_dict
