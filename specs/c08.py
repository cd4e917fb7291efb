# C08: membership


@spec("core.py", "Space.__contains__")
def _(self, item):
    return self.contains(item)


@spec("core.py", "ImplicitSpace.__init__")
def _(self, contains_function):
    self.contains_function = contains_function


@spec("core.py", "ImplicitSpace.contains")
def _(self, x):
    return self.contains_function(x)


@spec("core.py", "EnumerableSpace.contains")
def _(self, x):
    return x in self.get_elements()


@spec("core.py", "EmptySpace.contains")
def _(self, x):
    return False


@spec("core.py", "EmptySpace.get_elements")
def _(self):
    return ()


@spec("builders/domain/events.py", "Events._is_enabled_event_from")
def _(self, event, memory):
    return self._get_enabled_events_from(memory).contains(event)


@spec("builders/domain/events.py", "Events._is_action")
def _(self, event):
    return self._get_action_space().contains(event)


@spec("builders/domain/events.py", "Events._is_applicable_action_from")
def _(self, action, memory):
    applicable_actions = self._get_applicable_actions_from(memory)
    if self.T_agent == Union:
        return applicable_actions.contains(action)
    else:
        return all((applicable_actions[k].contains(v) for k, v in action.items()))


@spec("builders/domain/events.py", "Actions._get_enabled_events_from")
def _(self, memory):
    return EmptySpace()


@spec("builders/domain/events.py", "UnrestrictedActions._get_applicable_actions_from")
def _(self, memory):
    return self._get_action_space()


@spec("builders/domain/goals.py", "Goals._is_goal")
def _(self, observation):
    goals = self._get_goals()
    if self.T_agent == Union:
        return goals.contains(observation)
    else:
        return all((goals[k].contains(v) for k, v in observation.items()))


@spec("builders/domain/observability.py", "PartiallyObservable._is_observation")
def _(self, observation):
    observation_space = self._get_observation_space()
    if self.T_agent == Union:
        return observation_space.contains(observation)
    else:
        return all((observation_space[k].contains(v) for k, v in observation.items()))


@spec("builders/domain/value.py", "Rewards._check_value")
def _(self, value):
    return True


@spec("builders/domain/value.py", "PositiveCosts._check_value")
def _(self, value):
    return self._is_positive(value.cost)


@spec("builders/domain/value.py", "PositiveCosts._is_positive")
def _(self, cost):
    return cost >= 0
