# C16: graph exploration


@spec("hub/solver/graph_explorer/GraphDomain.py", "ActionSpace.sample")
def _(self):
    return random.choice(self.l)


@spec("hub/solver/graph_explorer/GraphDomain.py", "ActionSpace.contains")
def _(self, x):
    return x in self.l


@spec("hub/solver/graph_explorer/GraphDomain.py", "ActionSpace.__init__")
def _(self, l):
    self.l = l


@spec("hub/solver/graph_explorer/GraphDomain.py", "ActionSpace.get_elements")
def _(self):
    return self.l


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain.__init__")
def _(self, next_state_map, state_terminal, state_goal):
    self.next_state_map = next_state_map
    self.state_terminal = state_terminal
    self.state_goal = state_goal


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain.to_networkx")
def _(self):
    graph = nx.DiGraph()
    states_list = list(self.state_terminal.keys())
    id_to_state = {i: states_list[i] for i in range(len(states_list))}
    state_to_id = {states_list[i]: i for i in range(len(states_list))}
    for i in id_to_state:
        graph.add_node(i, state=id_to_state[i])
    for state in self.next_state_map:
        for action in self.next_state_map[state]:
            for next_state in self.next_state_map[state][action]:
                graph.add_edge(state_to_id[state], state_to_id[next_state], action=action, proba=self.next_state_map[state][action][next_state][0], cost=self.next_state_map[state][action][next_state][1])
    return graph


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._get_transition_value")
def _(self, memory, event, next_state=None):
    return TransitionValue(cost=self.next_state_map[memory][event][next_state][1])


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._is_terminal")
def _(self, state):
    return self.state_terminal[state] or len(self._get_applicable_actions_from(state).l) == 0


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._get_action_space_")
def _(self):
    return ImplicitSpace(lambda x: True)


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._get_applicable_actions_from")
def _(self, memory):
    return ActionSpace(list(self.next_state_map.get(memory, {}).keys()))


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._get_goals_")
def _(self):
    return ImplicitSpace(lambda x: self.state_goal[x])


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._is_goal")
def _(self, state):
    return self.state_goal[state]


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomainUncertain._get_next_state_distribution")
def _(self, memory, action):
    possible_states = [(s, self.next_state_map[memory][action][s][0]) for s in self.next_state_map[memory][action]]
    return DiscreteDistribution(possible_states)


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain.merge")
def _(self, graph_domain):
    next_state_map = self.next_state_map
    next_state_attributes = self.next_state_attributes
    for k in graph_domain.next_state_map:
        if k not in next_state_map:
            next_state_map[k] = graph_domain.next_state_map[k]
            next_state_attributes[k] = graph_domain.next_state_attributes[k]
        else:
            for action in graph_domain.next_state_map[k]:
                if action not in next_state_map[k]:
                    next_state_map[k][action] = graph_domain.next_state_map[k][action]
                    next_state_attributes[k][action] = graph_domain.next_state_attributes[k][action]
    return GraphDomain(next_state_map, next_state_attributes, self.targets, self.attribute_weight)


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain.__init__")
def _(self, next_state_map, next_state_attributes, targets=None, attribute_weight='weight'):
    self.next_state_map = next_state_map
    self.next_state_attributes = next_state_attributes
    if targets is None:
        self.targets = set()
    else:
        self.targets = set(targets)
    self.attribute_weight = attribute_weight


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain._get_next_state")
def _(self, memory, event):
    return self.next_state_map[memory][event]


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain._get_transition_value")
def _(self, memory, event, next_state=None):
    return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain._is_terminal")
def _(self, state):
    return state in self.targets


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain._get_action_space_")
def _(self):
    return ImplicitSpace(lambda x: True)


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain._get_applicable_actions_from")
def _(self, memory):
    return ActionSpace(list(self.next_state_map[memory].keys()))


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain._get_goals_")
def _(self):
    return ImplicitSpace(lambda x: x in self.targets)


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain.is_goal")
def _(self, state):
    return state in self.targets


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain.set_sources_targets")
def _(self, sources, targets):
    self.sources = sources
    self.targets = targets


@spec("hub/solver/graph_explorer/GraphDomain.py", "GraphDomain.set_nodes_target")
def _(self, targets):
    self.targets = targets


@spec("hub/solver/graph_explorer/DFSExploration.py", "DFSExploration.__init__")
def _(self, domain, max_edges=None, max_nodes=None, max_path=None):
    self.domain = domain
    self.max_edges = max_edges
    self.max_nodes = max_nodes
    self.max_path = max_path


@spec("hub/solver/graph_explorer/DFSExploration.py", "DFSExploration.build_graph_domain")
def _(self, init_state=None, transition_extractor=None, verbose=True):
    if transition_extractor is None:
        transition_extractor = lambda s, a, s_prime: {'cost': self.domain.get_transition_value(s, a, s_prime).cost}
    next_state_map = {}
    next_state_attributes = {}
    if init_state is None:
        init_state = self.domain.get_initial_state()
    stack = [(init_state, [init_state])]
    nb_nodes = 1
    nb_edges = 0
    nb_path = 0
    next_state_map[init_state] = {}
    next_state_attributes[init_state] = {}
    paths_dict = {}
    while stack:
        vertex, path = stack.pop()
        actions = self.domain.get_applicable_actions(vertex).get_elements()
        for action in actions:
            next = self.domain.get_next_state(vertex, action)
            if action not in next_state_map[vertex]:
                nb_edges += 1
            else:
                continue
            next_state_map[vertex][action] = next
            next_state_attributes[vertex][action] = transition_extractor(vertex, action, next)
            if self.domain.is_goal(next):
                nb_path += 1
                if verbose:
                    pass
            elif next not in next_state_map:
                stack.append((next, path + [next]))
                paths_dict[next] = set(tuple(path + [next]))
            if next not in next_state_map:
                next_state_map[next] = {}
                next_state_attributes[next] = {}
                nb_nodes += 1
        if self.max_path is not None and nb_path > self.max_path or (self.max_nodes is not None and nb_nodes > self.max_nodes and (nb_path >= 1)) or (self.max_edges is not None and nb_edges > self.max_edges and (nb_path >= 1)):
            break
    return GraphDomain(next_state_map, next_state_attributes, None, 'cost')


@spec("hub/solver/graph_explorer/DFS_Uncertain_Exploration.py", "DFSExploration.__init__")
def _(self, domain, score_function=None, max_edges=None, max_nodes=None, max_path=None):
    self.domain = domain
    self.score_function = score_function
    self.c = count()
    if score_function is None:
        self.score_function = lambda s: next(self.c)
    self.max_edges = max_edges
    self.max_nodes = max_nodes
    self.max_path = max_path


@spec("hub/solver/graph_explorer/DFS_Uncertain_Exploration.py", "DFSExploration.build_graph_domain")
def _(self, init_state=None):
    if init_state is None:
        initial_state = self.domain.get_initial_state()
    else:
        initial_state = init_state
    stack = [(self.score_function(initial_state), initial_state)]
    domain = self.domain
    goal_states = set()
    terminal_states = set()
    num_s = 0
    state_to_ind = {}
    nb_states = 1
    nb_edges = 0
    result = {initial_state}
    next_state_map = {}
    state_terminal = {}
    state_goal = {}
    state_terminal[initial_state] = self.domain.is_terminal(initial_state)
    state_goal[initial_state] = self.domain.is_goal(initial_state)
    while len(stack) > 0:
        if not len(result) % 100 and len(result) > nb_states:
            nb_states = len(result)
        tuple, s = heappop(stack)
        if s not in state_to_ind:
            state_to_ind[s] = num_s
            num_s += 1
        if domain.is_terminal(s):
            terminal_states.add(s)
        if domain.is_goal(s):
            goal_states.add(s)
        if domain.is_goal(s) or domain.is_terminal(s):
            continue
        actions = domain.get_applicable_actions(s).get_elements()
        for action in actions:
            successors = domain.get_next_state_distribution(s, action).get_values()
            for succ, prob in successors:
                if s not in next_state_map:
                    next_state_map[s] = {}
                if action not in next_state_map[s]:
                    next_state_map[s][action] = {}
                if prob == 0:
                    continue
                nb_edges += 1
                cost = domain.get_transition_value(s, action, succ)
                next_state_map[s][action][succ] = (prob, cost.cost)
                if succ not in result:
                    nb_states += 1
                    result.add(succ)
                    heappush(stack, (self.score_function(succ), succ))
                    state_goal[succ] = domain.is_goal(succ)
                    state_terminal[succ] = domain.is_terminal(succ)
        if self.max_nodes is not None and nb_states > self.max_nodes or (self.max_edges is not None and nb_edges > self.max_edges):
            break
    return GraphDomainUncertain(next_state_map=next_state_map, state_terminal=state_terminal, state_goal=state_goal)


@spec("hub/solver/graph_explorer/FullSpaceExploration.py", "FullSpaceExploration.__init__")
def _(self, domain, max_edges=None, max_nodes=None, max_path=None):
    self.domain = domain
    self.max_edges = max_edges
    self.max_nodes = max_nodes
    self.max_path = max_path


@spec("hub/solver/graph_explorer/FullSpaceExploration.py", "FullSpaceExploration.build_graph_domain")
def _(self, init_state=None):
    next_state_map = {}
    next_state_attributes = {}
    if init_state is None:
        init_state = self.domain.get_initial_state()
    stack = [(init_state, [init_state])]
    nb_nodes = 1
    nb_edges = 0
    nb_path = 0
    next_state_map[init_state] = {}
    next_state_attributes[init_state] = {}
    while stack:
        vertex, path = stack.pop()
        actions = self.domain.get_applicable_actions(vertex).get_elements()
        for action in actions:
            next = self.domain.get_next_state(vertex, action)
            new_state = next not in next_state_map
            if new_state:
                next_state_map[next] = {}
                next_state_attributes[next] = {}
                nb_nodes += 1
            if action not in next_state_map[vertex]:
                nb_edges += 1
            next_state_map[vertex][action] = next
            transition_value = self.domain.get_transition_value(vertex, action, next)
            next_state_attributes[vertex][action] = {'cost': transition_value.cost, 'reward': transition_value.reward}
            if self.domain.is_goal(next):
                nb_path += 1
            elif new_state:
                stack.append((next, path + [next]))
        if self.max_path is not None and nb_path > self.max_path or (self.max_nodes is not None and nb_nodes > self.max_nodes and (nb_path >= 1)) or (self.max_edges is not None and nb_edges > self.max_edges and (nb_path >= 1)):
            break
    return GraphDomain(next_state_map, next_state_attributes, None, 'cost')


@spec("hub/solver/graph_explorer/FullSpaceExploration.py", "reachable_states")
def _(self, s0):
    result = {s0}
    stack = [s0]
    domain = self._domain
    while len(stack) > 0:
        if not len(result) % 100:
            pass
        s = stack.pop()
        if domain.is_terminal(s):
            continue
        actions = domain.get_applicable_actions(s).get_elements()
        for action in actions:
            successors = domain.get_next_state_distribution(s, action).get_values()
            for succ, prob in successors:
                if prob != 0 and succ not in result:
                    result.add(succ)
                    stack.append(succ)
    return result
