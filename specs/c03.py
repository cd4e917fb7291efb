# C03: sampling agrees with the exposed distributions


@spec("builders/domain/dynamics.py", "UncertainTransitions._state_sample")
def _(self, memory, action):
    next_state = self._get_next_state_distribution(memory, action).sample()
    value = self._get_transition_value(memory, action, next_state)
    termination = self._is_terminal(next_state)
    return TransitionOutcome(next_state, value, termination, None)


@spec("builders/domain/dynamics.py", "DeterministicTransitions._get_next_state_distribution")
def _(self, memory, action):
    return SingleValueDistribution(self._get_next_state(memory, action))


@spec("builders/domain/initialization.py", "UncertainInitialized._state_reset")
def _(self):
    initial_state = self._get_initial_state_distribution().sample()
    return initial_state


@spec("builders/domain/initialization.py", "DeterministicInitialized._get_initial_state_distribution_")
def _(self):
    return SingleValueDistribution(self._get_initial_state())


@spec("builders/domain/observability.py", "TransformedObservable._get_observation_distribution")
def _(self, state, action=None):
    return SingleValueDistribution(self._get_observation(state, action))


@spec("builders/domain/observability.py", "FullyObservable._get_observation")
def _(self, state, action=None):
    return state


@spec("builders/solver/policy.py", "UncertainPolicies._sample_action")
def _(self, observation):
    return self._get_next_action_distribution(observation).sample()


@spec("builders/solver/policy.py", "DeterministicPolicies._get_next_action_distribution")
def _(self, observation):
    return SingleValueDistribution(self._get_next_action(observation))


@spec("core.py", "ImplicitDistribution.__init__")
def _(self, sample_function):
    self._sample_function = sample_function


@spec("core.py", "ImplicitDistribution.sample")
def _(self):
    return self._sample_function()


@spec("core.py", "ImplicitDistribution._cast")
def _(self, src_sub, dst_sub):

    def cast_sample_function():
        result = self._sample_function()
        return cast(result, src_sub[0], dst_sub[0])
    return ImplicitDistribution(cast_sample_function)


@spec("core.py", "DiscreteDistribution.__init__")
def _(self, values):
    self._values = values
    unzip_values = list(zip(*values))
    self._population = unzip_values[0]
    self._weights = unzip_values[1]


@spec("core.py", "DiscreteDistribution.sample")
def _(self):
    return random.choices(self._population, self._weights)[0]


@spec("core.py", "DiscreteDistribution.get_values")
def _(self):
    return self._values


@spec("core.py", "DiscreteDistribution._cast")
def _(self, src_sub, dst_sub):
    return DiscreteDistribution([(cast(e, src_sub[0], dst_sub[0]), p) for e, p in self._values])


@spec("core.py", "SingleValueDistribution.__init__")
def _(self, value):
    self._value = value


@spec("core.py", "SingleValueDistribution.sample")
def _(self):
    return self._value


@spec("core.py", "SingleValueDistribution.get_values")
def _(self):
    return [(self._value, 1.0)]


@spec("core.py", "SingleValueDistribution.get_value")
def _(self):
    return self._value


@spec("core.py", "SingleValueDistribution._cast")
def _(self, src_sub, dst_sub):
    return SingleValueDistribution(cast(self._value, src_sub[0], dst_sub[0]))
