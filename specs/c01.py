# C01: memory discipline of environments and simulations
from skdecide.core import Memory, EnvironmentOutcome


@spec("builders/domain/dynamics.py", "Environment.step")
def _(self, action):
    return self._step(action)


@spec("builders/domain/dynamics.py", "Environment._step")
def _(self, action):
    outcome = self._state_step(action)
    obs = self._get_observation_distribution(outcome.state, action).sample()
    n = self._get_memory_maxlen()
    if n == 1:
        self._memory = outcome.state
    elif n is None or n > 1:
        self._memory.append(outcome.state)
    return EnvironmentOutcome(obs, outcome.value, outcome.termination, outcome.info)


@spec("builders/domain/dynamics.py", "Environment._step")
def _(self, action):
    outcome = self._state_step(action)
    obs = self._get_observation_distribution(outcome.state, action).sample()
    n = self._get_memory_maxlen()
    if n == 1:
        self._memory = outcome.state
    elif n != 0:  # lengths are natural numbers or None
        self._memory.append(outcome.state)
    return EnvironmentOutcome(obs, outcome.value, outcome.termination, outcome.info)


@spec("builders/domain/dynamics.py", "Simulation._state_step")
def _(self, action):
    return self._state_sample(self._memory, action)


@spec("builders/domain/dynamics.py", "Simulation.set_memory")
def _(self, memory):
    return self._set_memory(memory)


@spec("builders/domain/dynamics.py", "Simulation._set_memory")
def _(self, memory):
    self._memory = memory


@spec("builders/domain/dynamics.py", "Simulation.sample")
def _(self, memory, action):
    return self._sample(memory, action)


@spec("builders/domain/dynamics.py", "Simulation._sample")
def _(self, memory, action):
    outcome = self._state_sample(memory, action)
    obs = self._get_observation_distribution(outcome.state, action).sample()
    return EnvironmentOutcome(obs, outcome.value, outcome.termination, outcome.info)


@spec("builders/domain/initialization.py", "Initializable.reset")
def _(self):
    return self._reset()


@spec("builders/domain/initialization.py", "Initializable._reset")
def _(self):
    s = self._state_reset()
    self._memory = self._init_memory(s)
    return self._get_observation_distribution(s).sample()


@spec("builders/domain/memory.py", "History._init_memory")
def _(self, state=None):
    return Memory([] if state is None else [state], maxlen=self._get_memory_maxlen())


@spec("builders/domain/memory.py", "FiniteHistory._init_memory")
def _(self, state=None):
    return Memory([] if state is None else [state], maxlen=self._get_memory_maxlen())


@spec("builders/domain/memory.py", "History._get_memory_maxlen")
def _(self):
    return None


@spec("builders/domain/memory.py", ["FiniteHistory._get_memory_maxlen", "Markovian._get_memory_maxlen", "Memoryless._get_memory_maxlen"])
def _(self):
    return self._get_memory_maxlen_()


@spec("builders/domain/memory.py", "Markovian._init_memory")
def _(self, state=None):
    return state


@spec("builders/domain/memory.py", "Markovian._get_memory_maxlen_")
def _(self):
    return 1


@spec("builders/domain/memory.py", "Memoryless._init_memory")
def _(self, state=None):
    return None


@spec("builders/domain/memory.py", "Memoryless._get_memory_maxlen_")
def _(self):
    return 0
