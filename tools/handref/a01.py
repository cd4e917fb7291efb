DY = "builders/domain/dynamics.py"
fn("C01 C05 C03", DY, '''
def _step(self, action):
    outcome = self._state_step(action)
    obs = self._get_observation_distribution(outcome.state, action).sample()
    self._remember(outcome.state)
    return EnvironmentOutcome(
        observation=obs,
        value=outcome.value,
        termination=outcome.termination,
        info=outcome.info,
    )

def _remember(self, state):
    limit = self._get_memory_maxlen()
    if limit == 0:
        return
    if limit == 1:
        self._memory = state
        return
    self._memory.append(state)
''', "Environment")
fn("C01 C05 C03", DY, '''
def _sample(self, memory, action):
    outcome = self._state_sample(memory, action)
    return self._to_environment_outcome(outcome, action)

def _to_environment_outcome(self, outcome, action):
    distribution = self._get_observation_distribution(outcome.state, action)
    return EnvironmentOutcome(distribution.sample(), outcome.value, outcome.termination, outcome.info)
''', "Simulation")
fn("C01 C05 C03", DY, '''
def _state_sample(self, memory, action):
    distribution = self._get_next_state_distribution(memory, action)
    sampled = distribution.sample()
    return TransitionOutcome(
        state=sampled,
        value=self._get_transition_value(memory, action, sampled),
        termination=self._is_terminal(sampled),
    )
''', "UncertainTransitions")
