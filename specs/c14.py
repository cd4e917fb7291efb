# C14: best-first search steps


@spec("hub/solver/lazy_astar/lazy_astar.py", "LazyAstar.__init__")
def _(self, from_state=None, heuristic=None, weight=1.0, verbose=False, render=False):
    self._from_state = from_state
    self._heuristic = (lambda _, __: 0.0) if heuristic is None else heuristic
    self._weight = weight
    self._verbose = verbose
    self._render = render
    self._values = {}
    self._plan = []


@spec("hub/solver/lazy_astar/lazy_astar.py", "LazyAstar._solve_domain")
def _(self, domain_factory):
    self._domain = domain_factory()
    self._values = {}
    self._plan = []

    def extender(node, label, explored):
        neigh = [(self._domain.get_next_state(node, a), a) for a in self._domain.get_applicable_actions(node).get_elements()]
        neigh_not_explored = [(n, a) for n, a in neigh if n not in explored]
        cost_labels = [(n, self._domain.get_transition_value(node, a, n).cost, {'action': a}) for n, a in neigh_not_explored]
        return cost_labels
    push = heappush
    pop = heappop
    if self._from_state is None:
        sources = [self._domain.get_initial_state()]
    else:
        sources = [self._from_state]
    c = count()
    initial_label = {source: None for source in sources}
    enqueued = {source: (0, self._weight * self._heuristic(self._domain, source)) for source in sources}
    queue = [(enqueued[source][1], next(c), source, 0, None, initial_label[source]) for source in sources]
    explored = {}
    path = []
    estim_total = 0.0
    while queue:
        estim_total, __, curnode, dist, parent, label = pop(queue)
        if self._render:
            self._domain.render(curnode)
        if self._verbose:
            pass
        if self._domain.is_goal(curnode):
            path = [(curnode, None)]
            if parent is not None:
                path.insert(0, (parent, label))
            node = parent
            while node is not None:
                parent, label = explored[node]
                if parent is not None:
                    path.insert(0, (parent, label))
                node = parent
            break
        if curnode in explored:
            continue
        explored[curnode] = (parent, label)
        for neighbor, cost, lbl in extender(curnode, label, explored):
            if neighbor in explored:
                continue
            ncost = dist + cost
            if neighbor in enqueued:
                qcost, h = enqueued[neighbor]
                if qcost <= ncost:
                    continue
            else:
                h = self._heuristic(self._domain, neighbor)
            enqueued[neighbor] = (ncost, h)
            push(queue, (ncost + self._weight * h, next(c), neighbor, ncost, curnode, lbl))
    self._policy = {}
    for node, label in path:
        self._policy[node] = label['action'] if label is not None else None
        self._values[node] = estim_total - enqueued[node][0]
        if self._policy[node] is not None:
            self._plan.append(self._policy[node])


@spec("hub/solver/lazy_astar/lazy_astar.py", "LazyAstar._get_next_action")
def _(self, observation):
    return self._policy[observation]


@spec("hub/solver/lazy_astar/lazy_astar.py", "LazyAstar._is_policy_defined_for")
def _(self, observation):
    return observation in self._policy


@spec("hub/solver/lazy_astar/lazy_astar.py", "LazyAstar._get_utility")
def _(self, observation):
    if observation not in self._values:
        return self._heuristic(self._domain, observation)
    return self._values[observation]
