From f50e7c49f614ac63e275b810934f970cb468b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 001/155] fix: let environments with an unbounded history take
 steps

---
 skdecide/builders/domain/dynamics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/domain/dynamics.py b/skdecide/builders/domain/dynamics.py
index f85a2d2..61947cb 100644
--- a/skdecide/builders/domain/dynamics.py
+++ b/skdecide/builders/domain/dynamics.py
@@ -75,9 +75,10 @@ class Environment:
         transition_outcome = self._state_step(action)
         next_state = transition_outcome.state
         observation = self._get_observation_distribution(next_state, action).sample()
-        if self._get_memory_maxlen() == 1:
+        maxlen = self._get_memory_maxlen()
+        if maxlen == 1:
             self._memory = next_state
-        elif self._get_memory_maxlen() > 1:
+        elif maxlen is None or maxlen > 1:
             self._memory.append(next_state)
         return EnvironmentOutcome(observation, transition_outcome.value, transition_outcome.termination,
                                   transition_outcome.info)
-- 
2.43.0


From c8bb7ea845dd36e1f7e11fa1c8a763d40914dcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 002/155] fix: make the empty space answer membership queries

---
 skdecide/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index 6ed60c0..d705e37 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -103,7 +103,10 @@ class EnumerableSpace(Space[T]):
 
 
 class EmptySpace(Space[T]):
-    """A space which elements can be enumerated."""
+    """An empty space."""
+
+    def contains(self, x: T) -> bool:
+        return False
 
     def get_elements(self) -> Iterable[T]:
         return ()
-- 
2.43.0


From 68592d71f15a95e8198cace81913f4a46036f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 003/155] fix: create the solver's domain on first use in
 get_domain

---
 skdecide/builders/solver/parallelability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/solver/parallelability.py b/skdecide/builders/solver/parallelability.py
index 4e3134c..2a530ce 100644
--- a/skdecide/builders/solver/parallelability.py
+++ b/skdecide/builders/solver/parallelability.py
@@ -66,7 +66,7 @@ class ParallelSolver:
         Returns the domain, optionnally creating a parallel domain if not already created.
         """
         if self._domain is None:
-            self._create_domain()
+            self._initialize()
         return self._domain
     
     def call_domain_method(self, name, *args):
-- 
2.43.0


From 2457d89eff7185b7f196c2bcc5ca841559c1325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 004/155] fix: step shared-memory result registers by their
 size

---
 skdecide/domains.py | 1692 +++++++++++++++++++++----------------------
 1 file changed, 846 insertions(+), 846 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 80314b4..1de9511 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -1,846 +1,846 @@
-# Copyright (c) AIRBUS and its affiliates.
-# This source code is licensed under the MIT license found in the
-# LICENSE file in the root directory of this source tree.
-
-"""This module contains base classes for quickly building domains."""
-from __future__ import annotations
-
-import os
-import logging
-from typing import NewType, Optional, Callable
-
-from pathos.helpers import mp
-import tempfile
-from pynng import Push0
-
-# Following import is required to make Enum objects serializable
-# (useful when multiprocessing and pickling domains that use Enum classes)
-import dill
-dill.settings['byref'] = True
-
-from skdecide.core import autocast_all
-from skdecide.builders.domain.agent import MultiAgent, SingleAgent
-from skdecide.builders.domain.concurrency import Parallel, Sequential
-from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
-from skdecide.builders.domain.events import Events, Actions
-from skdecide.builders.domain.goals import Goals
-from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
-from skdecide.builders.domain.memory import History, Markovian
-from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
-from skdecide.builders.domain.value import Rewards, PositiveCosts
-if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
-    from skdecide.solvers import Solver
-
-__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
-           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
-
-logger = logging.getLogger('skdecide.domains')
-
-logger.setLevel(logging.INFO)
-
-if not len(logger.handlers):
-    ch = logging.StreamHandler()
-    # create formatter and add it to the handlers
-    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
-    ch.setFormatter(formatter)
-    # add the handlers to the logger
-    logger.addHandler(ch)
-    logger.propagate = False
-
-
-# MAIN BASE CLASS
-
-class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
-    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
-
-    This helper class can be used as the main base class for domains.
-
-    Typical use:
-    ```python
-    class D(Domain, ...)
-    ```
-
-    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
-    parentheses are optional):
-
-    - **agent**: MultiAgent -> SingleAgent
-    - **concurrency**: Parallel -> Sequential
-    - **(constraints)**: Constrained
-    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
-      -> DeterministicTransitions
-    - **events**: Events -> Actions -> UnrestrictedActions
-    - **(goals)**: Goals
-    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
-    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
-    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
-    - **(renderability)**: Renderable
-    - **value**: Rewards -> PositiveCosts
-    """
-    T_state = NewType('T_state', object)
-    T_observation = NewType('T_observation', object)
-    T_event = NewType('T_event', object)
-    T_value = NewType('T_value', object)
-    T_info = NewType('T_info', object)
-
-    @classmethod
-    def solve_with(cls, solver: Solver,
-                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
-        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
-
-        By default, #Solver.check_domain() provides some boilerplate code and internally
-        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
-        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
-        domain requirements are met.
-
-        # Parameters
-        solver: The solver.
-        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
-        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
-
-        # Returns
-        The new solver (auto-cast to the level of the domain).
-        """
-        if domain_factory is None:
-            domain_factory = cls
-        if load_path is not None:
-
-            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
-            def cast_domain_factory():
-                domain = domain_factory()
-                autocast_all(domain, domain, solver.T_domain)
-                return domain
-
-            solver.load(load_path, cast_domain_factory)
-        else:
-            solver.solve(domain_factory)
-        autocast_all(solver, solver.T_domain, cls)
-        return solver
-
-
-# ALTERNATE BASE CLASSES (for typical combinations)
-
-class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
-               Rewards):
-    """This is a typical Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
-                         TransformedObservable, Rewards):
-    """This is a typical multi-agent Reinforcement Learning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - MultiAgent
-    - Sequential
-    - Environment
-    - Actions
-    - Initializable
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(RLDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
-                               Rewards):
-    """This is a typical stateless simulator domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - Simulation
-    - Actions
-    - Markovian
-    - TransformedObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(StatelessSimulatorDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
-                FullyObservable, Rewards):
-    """This is a typical Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(MDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
-                  PartiallyObservable, Rewards):
-    """This is a typical Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - Rewards
-
-    Typical use:
-    ```python
-    class D(POMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
-                    Markovian, FullyObservable, PositiveCosts):
-    """This is a typical Goal Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
-                      Markovian, PartiallyObservable, PositiveCosts):
-    """This is a typical Goal Partially Observable Markov Decision Process domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - EnumerableTransitions
-    - Actions
-    - Goals
-    - UncertainInitialized
-    - Markovian
-    - PartiallyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(GoalPOMDPDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
-                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
-    """This is a typical deterministic planning domain class.
-
-    This helper class can be used as an alternate base class for domains, inheriting the following:
-
-    - Domain
-    - SingleAgent
-    - Sequential
-    - DeterministicTransitions
-    - Actions
-    - Goals
-    - DeterministicInitialized
-    - Markovian
-    - FullyObservable
-    - PositiveCosts
-
-    Typical use:
-    ```python
-    class D(DeterministicPlanningDomain)
-    ```
-
-    !!! tip
-        It is also possible to refine any alternate base class, like for instance:
-        ```python
-        class D(RLDomain, FullyObservable)
-        ```
-    """
-    pass
-
-
-class ParallelDomain:
-    """Base class for creating and launching n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        self._domain_factory = domain_factory
-        self._lambdas = lambdas
-        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
-        self._temp_connections = [None] * nb_domains
-        self._ipc_connections = [None] * nb_domains
-        self._processes = [None] * nb_domains
-        self._ipc_notify = ipc_notify
-    
-    def open_ipc_connection(self, i):
-        self._temp_connections[i] = tempfile.NamedTemporaryFile()
-        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
-    
-    def close_ipc_connection(self, i):
-        self._temp_connections[i].close()
-        self._ipc_connections[i] = None
-    
-    def _launch_processes(self):
-        raise NotImplementedError
-    
-    def close(self):
-        raise NotImplementedError
-
-    def __enter__(self):
-        self._launch_processes()
-        return self
-        
-    def __exit__ (self, type, value, tb):
-        self.close()
-
-    def launch(self, i, name, *args):
-        raise NotImplementedError
-
-    def get_proc_connections(self):  # process connections for use in python
-        raise NotImplementedError
-    
-    def get_ipc_connections(self):  # inter-process connections for use with C++
-        return self._ipc_connections
-    
-    def get_parallel_capacity(self):
-        return self.nb_domains()
-    
-    def nb_domains(self):
-        return len(self._processes)
-    
-    def wake_up_domain(self, i=None):
-        if i is None:
-            while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
-        else:
-            self._active_domains[i] = True
-            return i
-    
-    def reset(self, i=None):
-        return self.launch(i, 'reset')
-    
-    def get_initial_state_distribution(self, i=None):
-        return self.launch(i, 'get_initial_state_distribution')
-    
-    def get_initial_state(self, i=None):
-        return self.launch(i, 'get_initial_state')
-    
-    def get_observation_space(self, i=None):
-        return self.launch(i, 'get_observation_space')
-    
-    def is_observation(self, observation, i=None):
-        return self.launch(i, 'is_observation', observation)
-    
-    def get_observation_distribution(self, state, action, i=None):
-        return self.launch(i, 'get_observation_distribution', state, action)
-    
-    def get_observation(self, state, action, i=None):
-        return self.launch(i, 'get_observation', state, action)
-    
-    def get_enabled_events(self, memory, i=None):
-        return self.launch(i, 'get_enabled_events', memory)
-    
-    def is_enabled_event(self, event, memory, i=None):
-        return self.launch(i, 'is_enabled_event', event, memory)
-    
-    def get_action_space(self, i=None):
-        return self.launch(i, 'get_action_space')
-
-    def is_action(self, event, i=None):
-        return self.launch(i, 'is_action', event)
-    
-    def get_applicable_actions(self, memory, i=None):
-        return self.launch(i, 'get_applicable_actions', memory)
-    
-    def is_applicable_action(self, action, memory, i=None):
-        return self.launch(i, 'is_applicable_action', action, memory)
-    
-    def step(self, action, i=None):
-        return self.launch(i, 'step', action)
-    
-    def sample(self, memory, action, i=None):
-        return self.launch(i, 'sample', memory, action)
-    
-    def get_next_state_distribution(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state_distribution', memory, action)
-    
-    def get_next_state(self, memory, action, i=None):
-        return self.launch(i, 'get_next_state', memory, action)
-    
-    def get_transition_value(self, memory, action, next_state, i=None):
-        return self.launch(i, 'get_transition_value', memory, action, next_state)
-    
-    def is_transition_value_dependent_on_next_state(self, i=None):
-        return self.launch(i, 'is_transition_value_dependent_on_next_state')
-    
-    def get_goals(self, i=None):
-        return self.launch(i, 'get_goals')
-    
-    def is_goal(self, observation, i=None):
-        return self.launch(i, 'is_goal', observation)
-    
-    def is_terminal(self, state, i=None):
-        return self.launch(i, 'is_terminal', state)
-    
-    def check_value(self, value, i=None):
-        return self.launch(i, 'check_value', value)
-    
-    def render(self, memory, i=None):
-        return self.launch(i, 'render', memory)
-
-    # Call a lambda function (usually involves the original domain)
-    def call(self, i, lambda_id, *args):
-        return self.launch(i, lambda_id, *args)
-    
-    # The original sequential domain may have methods we don't know
-    def __getattr__(self, name):
-        def method(*args, i=None):
-            return self.launch(i, name, *args)
-        return method
-    
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __getstate__(self):
-        d = self.__dict__.copy()
-        del d['_temp_connections']  # we cannot serialize a file
-        return d
-
-    # Bypass __getattr_.method() when serializing the class.
-    # Required on Windows when spawning the main process.
-    def __setstate__(self, state):
-        self.__dict__ = state
-        # TODO: reopen the temp connection from _ipc_connections
-
-def _launch_domain_server_(domain_factory, lambdas, i,
-                           job_results, conn, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    while True:
-        job = conn.recv()
-        job_results[i] = None
-        if job is None:
-            if ipc_conn is not None:
-                pusher.close()
-            conn.close()
-            break
-        else:
-            try:
-                if isinstance(job[0], str):  # job[0] is a domain class' method
-                    r = getattr(domain, job[0])(*job[1])
-                else:  # job[0] is a lambda function
-                    r = lambdas[job[0]](domain, *job[1])
-                job_results[i] = r
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-                conn.send('0')  # send success
-            except Exception as e:
-                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
-
-class PipeParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain i is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._manager = mp.Manager()
-        self._waiting_jobs = [None] * nb_domains
-        self._job_results = self._manager.list([None for i in range(nb_domains)])
-        logger.info(rf'Using {nb_domains} parallel piped domains')
-    
-    def get_proc_connections(self):
-        return self._waiting_jobs
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            self._waiting_jobs[mi].send((function, args))
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        self._waiting_jobs[i].recv()
-        r = self._job_results[i]
-        self._job_results[i] = None
-        self._active_domains[i] = False
-        return r
-    
-    def _launch_processes(self):
-        for i in range(len(self._job_results)):
-            self.open_ipc_connection(i)
-            pparent, pchild = mp.Pipe()
-            self._waiting_jobs[i] = pparent
-            self._processes[i] = mp.Process(target=_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._job_results, pchild,
-                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._job_results)):
-            self._waiting_jobs[i].send(None)
-            self._processes[i].join()
-            self._processes[i].close()
-            self._waiting_jobs[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
-
-
-def _shm_launch_domain_server_(domain_factory, lambdas, i,
-                               shm_proxy, shm_registers, shm_types, shm_sizes,
-                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
-                               activation, done, cond, ipc_conn, logger):
-    domain = domain_factory()
-    if ipc_conn is not None:
-        pusher = Push0()
-        pusher.dial(ipc_conn)
-    
-    def get_string(s):
-        for i, c in enumerate(s):
-            if c == b'\x00':
-                return s[:i].decode()
-        return s.decode()
-
-    while True:
-        with cond:
-            cond.wait_for(lambda: bool(activation.value) == True)
-            activation.value = False
-        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
-            if ipc_conn is not None:
-                pusher.close()
-            break
-        else:
-            try:
-                job_args = []
-                for p in shm_params[i]:
-                    if p >= 0:
-                        sz = shm_sizes[shm_types[p].__name__]
-                        if sz > 1:
-                            si = (i * rsize) + p
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
-                        else:
-                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
-                    else:
-                        break  # no more args
-                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
-                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
-                else:  # we are working with a lambda function
-                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
-                shm_params[i][:] = [-1] * len(shm_params[i])
-                if type(result) is not tuple:
-                    result = (result,)
-                if result[0] is not None:
-                    type_counters = {}
-                    for j, r in enumerate(result):
-                        res_name = type(r).__name__
-                        (start, end) = shm_registers[res_name]
-                        if res_name in type_counters:
-                            type_counters[res_name] += 1
-                            k = type_counters[res_name]
-                            if (k >= end):
-                                raise IndexError('''No more available register for type {}. 
-                                                    Please increase the number of registers 
-                                                    for that type.'''.format(res_name))
-                        else:
-                            type_counters[res_name] = start
-                            k = start
-                        shm_params[i][j] = k
-                        sz = shm_sizes[res_name]
-                        if sz > 1:
-                            si = (i * rsize) + k
-                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
-                        else:
-                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
-                if ipc_conn is not None:
-                    pusher.send(b'0')  # send success
-            except Exception as e:
-                if int(shm_lambdas[i].value) == -1:
-                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
-                else:
-                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
-                if ipc_conn is not None:
-                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-            with cond:
-                done.value = True
-                cond.notify_all()  # send finished status (no success nor failure information)
-                
-
-class ShmParallelDomain(ParallelDomain):
-    """This class can be used to create and launch n domains in separate processes
-    with shared memory between the Python processes.
-    Each domain listens for incoming domain requests.
-    Each request can indicate which domain should serve it, otherwise the first available
-    domain is chosen and its id is returned to the incoming request.
-    """
-    def __init__(self,
-                 domain_factory,
-                 shm_proxy,
-                 lambdas=None,
-                 nb_domains=os.cpu_count(),
-                 ipc_notify=False):
-        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
-        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
-        self._conditions = [mp.Condition() for i in range(nb_domains)]
-        self._shm_proxy = shm_proxy
-        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
-        self._shm_types = {}  # Maps from register index to type
-        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
-        self._shm_arrays = []  # Methods' vectorized parameters
-        self._rsize = 0  # Total size of the register (updated below)
-        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
-        self._shm_names = [None] * nb_domains  # Vectorized methods' names
-        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
-        for i in range(nb_domains):
-            j = 0
-            for r in shm_proxy.register():
-                for k in range(r[1]):
-                    m = shm_proxy.initialize(r[0])
-                    if type(m) == list or type(m) == tuple:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = len(m)
-                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
-                            self._rsize += (r[1] * len(m))
-                        self._shm_arrays.extend(m)
-                        j += len(m)
-                    else:
-                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
-                            self._shm_sizes[r[0].__name__] = 1
-                            self._shm_registers[r[0].__name__] = (j, j + r[1])
-                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
-                            self._rsize += r[1]
-                        self._shm_arrays.append(m)
-                        j += 1
-            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
-            self._shm_names[i] = mp.Array('c', bytearray(100))
-            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
-        logger.info(rf'Using {nb_domains} parallel shared memory domains')
-    
-    def get_proc_connections(self):
-        return (self._activations, self._conditions)
-    
-    def launch(self, i, function, *args):
-        if not any(self._processes):
-            self._launch_processes()
-        try:
-            mi = self.wake_up_domain(i)
-            if isinstance(function, str):  # function is a domain class' method
-                self._shm_lambdas[mi].value = -1
-                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
-                                         bytearray(len(self._shm_names[mi]) - len(function))
-            else:  # function is a lambda id
-                self._shm_lambdas[mi].value = int(function)
-                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
-            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
-            type_counters = {}
-            for j, a in enumerate(args):
-                arg_name = type(a).__name__
-                (start, end) = self._shm_registers[arg_name]
-                if arg_name in type_counters:
-                    type_counters[arg_name] += self._shm_sizes[arg_name]
-                    k = type_counters[arg_name]
-                    if (k >= end):
-                        raise IndexError('''No more available register for type {}. 
-                                            Please increase the number of registers 
-                                            for that type.'''.format(arg_name))
-                else:
-                    type_counters[arg_name] = start
-                    k = start
-                self._shm_params[mi][j] = k
-                sz = self._shm_sizes[arg_name]
-                if sz > 1:
-                    si = (mi * self._rsize) + k
-                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
-                else:
-                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
-            with self._conditions[mi]:
-                self._activations[mi].value = True
-                self._conditions[mi].notify_all()
-            return mi
-        except Exception as e:
-            if isinstance(function, str):
-                logger.error(rf'/!\ Unable to launch job {function}: {e}')
-            else:
-                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
-    
-    def get_result(self, i):
-        with self._conditions[i]:
-            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
-            self._dones[i].value = False
-        results = []
-        for r in self._shm_params[i]:
-            if r >= 0:
-                sz = self._shm_sizes[self._shm_types[r].__name__]
-                if sz > 1:
-                    si = (i * self._rsize) + r
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
-                else:
-                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
-            else:
-                break  # no more params
-        self._active_domains[i] = False
-        return results if len(results) > 1 else results[0] if len(results) > 0 else None
-    
-    def _launch_processes(self):
-        for i in range(len(self._processes)):
-            self.open_ipc_connection(i)
-            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
-                                            args=[self._domain_factory, self._lambdas, i,
-                                                    self._shm_proxy.copy(),
-                                                    dict(self._shm_registers),
-                                                    dict(self._shm_types),
-                                                    dict(self._shm_sizes),
-                                                    self._rsize, list(self._shm_arrays),
-                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
-                                                    self._activations[i], self._dones[i], self._conditions[i],
-                                                    self._ipc_connections[i] if self._ipc_notify else None,
-                                                    logger])
-            self._processes[i].start()
-        # Waits for all jobs to be launched and waiting each for requests
-        while True in set(self._active_domains):
-            continue
-    
-    def close(self):
-        for i in range(len(self._processes)):
-            self._shm_lambdas[i].value = -1
-            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
-            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
-            with self._conditions[i]:
-                self._activations[i].value = True
-                self._conditions[i].notify_all()
-            self._processes[i].join()
-            self._processes[i].close()
-            self._processes[i] = None
-            self.close_ipc_connection(i)
+# Copyright (c) AIRBUS and its affiliates.
+# This source code is licensed under the MIT license found in the
+# LICENSE file in the root directory of this source tree.
+
+"""This module contains base classes for quickly building domains."""
+from __future__ import annotations
+
+import os
+import logging
+from typing import NewType, Optional, Callable
+
+from pathos.helpers import mp
+import tempfile
+from pynng import Push0
+
+# Following import is required to make Enum objects serializable
+# (useful when multiprocessing and pickling domains that use Enum classes)
+import dill
+dill.settings['byref'] = True
+
+from skdecide.core import autocast_all
+from skdecide.builders.domain.agent import MultiAgent, SingleAgent
+from skdecide.builders.domain.concurrency import Parallel, Sequential
+from skdecide.builders.domain.dynamics import Environment, Simulation, EnumerableTransitions, DeterministicTransitions
+from skdecide.builders.domain.events import Events, Actions
+from skdecide.builders.domain.goals import Goals
+from skdecide.builders.domain.initialization import Initializable, UncertainInitialized, DeterministicInitialized
+from skdecide.builders.domain.memory import History, Markovian
+from skdecide.builders.domain.observability import PartiallyObservable, TransformedObservable, FullyObservable
+from skdecide.builders.domain.value import Rewards, PositiveCosts
+if False:  # trick to avoid circular import & IDE error ("Unresolved reference 'Solver'")
+    from skdecide.solvers import Solver
+
+__all__ = ['Domain', 'RLDomain', 'MultiAgentRLDomain', 'StatelessSimulatorDomain', 'MDPDomain', 'POMDPDomain',
+           'GoalMDPDomain', 'GoalPOMDPDomain', 'DeterministicPlanningDomain']
+
+logger = logging.getLogger('skdecide.domains')
+
+logger.setLevel(logging.INFO)
+
+if not len(logger.handlers):
+    ch = logging.StreamHandler()
+    # create formatter and add it to the handlers
+    formatter = logging.Formatter('%(asctime)s | %(name)s | %(levelname)s | %(message)s')
+    ch.setFormatter(formatter)
+    # add the handlers to the logger
+    logger.addHandler(ch)
+    logger.propagate = False
+
+
+# MAIN BASE CLASS
+
+class Domain(MultiAgent, Parallel, Environment, Events, History, PartiallyObservable, Rewards):
+    """This is the highest level domain class (inheriting top-level class for each mandatory domain characteristic).
+
+    This helper class can be used as the main base class for domains.
+
+    Typical use:
+    ```python
+    class D(Domain, ...)
+    ```
+
+    with "..." replaced when needed by a number of classes from following domain characteristics (the ones in
+    parentheses are optional):
+
+    - **agent**: MultiAgent -> SingleAgent
+    - **concurrency**: Parallel -> Sequential
+    - **(constraints)**: Constrained
+    - **dynamics**: Environment -> Simulation -> UncertainTransitions -> EnumerableTransitions
+      -> DeterministicTransitions
+    - **events**: Events -> Actions -> UnrestrictedActions
+    - **(goals)**: Goals
+    - **(initialization)**: Initializable -> UncertainInitialized -> DeterministicInitialized
+    - **memory**: History -> FiniteHistory -> Markovian -> Memoryless
+    - **observability**: PartiallyObservable -> TransformedObservable -> FullyObservable
+    - **(renderability)**: Renderable
+    - **value**: Rewards -> PositiveCosts
+    """
+    T_state = NewType('T_state', object)
+    T_observation = NewType('T_observation', object)
+    T_event = NewType('T_event', object)
+    T_value = NewType('T_value', object)
+    T_info = NewType('T_info', object)
+
+    @classmethod
+    def solve_with(cls, solver: Solver,
+                   domain_factory: Optional[Callable[[], Domain]] = None, load_path: Optional[str] = None) -> Solver:
+        """Solve the domain with a new or loaded solver and return it auto-cast to the level of the domain.
+
+        By default, #Solver.check_domain() provides some boilerplate code and internally
+        calls #Solver._check_domain_additional() (which returns True by default but can be overridden  to define
+        specific checks in addition to the "domain requirements"). The boilerplate code automatically checks whether all
+        domain requirements are met.
+
+        # Parameters
+        solver: The solver.
+        domain_factory: A callable with no argument returning the domain to solve (factory is the domain class if None).
+        load_path: The path to restore the solver state from (if None, the solving process will be launched instead).
+
+        # Returns
+        The new solver (auto-cast to the level of the domain).
+        """
+        if domain_factory is None:
+            domain_factory = cls
+        if load_path is not None:
+
+            # TODO: avoid repeating this code somehow (identical in solver.solve(...))? Is factory necessary (vs cls)?
+            def cast_domain_factory():
+                domain = domain_factory()
+                autocast_all(domain, domain, solver.T_domain)
+                return domain
+
+            solver.load(load_path, cast_domain_factory)
+        else:
+            solver.solve(domain_factory)
+        autocast_all(solver, solver.T_domain, cls)
+        return solver
+
+
+# ALTERNATE BASE CLASSES (for typical combinations)
+
+class RLDomain(Domain, SingleAgent, Sequential, Environment, Actions, Initializable, Markovian, TransformedObservable,
+               Rewards):
+    """This is a typical Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MultiAgentRLDomain(Domain, MultiAgent, Sequential, Environment, Actions, Initializable, Markovian,
+                         TransformedObservable, Rewards):
+    """This is a typical multi-agent Reinforcement Learning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - MultiAgent
+    - Sequential
+    - Environment
+    - Actions
+    - Initializable
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(RLDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class StatelessSimulatorDomain(Domain, SingleAgent, Sequential, Simulation, Actions, Markovian, TransformedObservable,
+                               Rewards):
+    """This is a typical stateless simulator domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - Simulation
+    - Actions
+    - Markovian
+    - TransformedObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(StatelessSimulatorDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class MDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, DeterministicInitialized, Markovian,
+                FullyObservable, Rewards):
+    """This is a typical Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(MDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class POMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, UncertainInitialized, Markovian,
+                  PartiallyObservable, Rewards):
+    """This is a typical Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - Rewards
+
+    Typical use:
+    ```python
+    class D(POMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, DeterministicInitialized,
+                    Markovian, FullyObservable, PositiveCosts):
+    """This is a typical Goal Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class GoalPOMDPDomain(Domain, SingleAgent, Sequential, EnumerableTransitions, Actions, Goals, UncertainInitialized,
+                      Markovian, PartiallyObservable, PositiveCosts):
+    """This is a typical Goal Partially Observable Markov Decision Process domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - EnumerableTransitions
+    - Actions
+    - Goals
+    - UncertainInitialized
+    - Markovian
+    - PartiallyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(GoalPOMDPDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class DeterministicPlanningDomain(Domain, SingleAgent, Sequential, DeterministicTransitions, Actions, Goals,
+                                  DeterministicInitialized, Markovian, FullyObservable, PositiveCosts):
+    """This is a typical deterministic planning domain class.
+
+    This helper class can be used as an alternate base class for domains, inheriting the following:
+
+    - Domain
+    - SingleAgent
+    - Sequential
+    - DeterministicTransitions
+    - Actions
+    - Goals
+    - DeterministicInitialized
+    - Markovian
+    - FullyObservable
+    - PositiveCosts
+
+    Typical use:
+    ```python
+    class D(DeterministicPlanningDomain)
+    ```
+
+    !!! tip
+        It is also possible to refine any alternate base class, like for instance:
+        ```python
+        class D(RLDomain, FullyObservable)
+        ```
+    """
+    pass
+
+
+class ParallelDomain:
+    """Base class for creating and launching n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        self._domain_factory = domain_factory
+        self._lambdas = lambdas
+        self._active_domains = mp.Array('b', [False for i in range(nb_domains)], lock=True)
+        self._temp_connections = [None] * nb_domains
+        self._ipc_connections = [None] * nb_domains
+        self._processes = [None] * nb_domains
+        self._ipc_notify = ipc_notify
+    
+    def open_ipc_connection(self, i):
+        self._temp_connections[i] = tempfile.NamedTemporaryFile()
+        self._ipc_connections[i] = 'ipc://' + self._temp_connections[i].name + '.ipc'
+    
+    def close_ipc_connection(self, i):
+        self._temp_connections[i].close()
+        self._ipc_connections[i] = None
+    
+    def _launch_processes(self):
+        raise NotImplementedError
+    
+    def close(self):
+        raise NotImplementedError
+
+    def __enter__(self):
+        self._launch_processes()
+        return self
+        
+    def __exit__ (self, type, value, tb):
+        self.close()
+
+    def launch(self, i, name, *args):
+        raise NotImplementedError
+
+    def get_proc_connections(self):  # process connections for use in python
+        raise NotImplementedError
+    
+    def get_ipc_connections(self):  # inter-process connections for use with C++
+        return self._ipc_connections
+    
+    def get_parallel_capacity(self):
+        return self.nb_domains()
+    
+    def nb_domains(self):
+        return len(self._processes)
+    
+    def wake_up_domain(self, i=None):
+        if i is None:
+            while True:
+                for j, v in enumerate(self._active_domains):
+                    if not v:
+                        self._active_domains[j] = True
+                        return j
+        else:
+            self._active_domains[i] = True
+            return i
+    
+    def reset(self, i=None):
+        return self.launch(i, 'reset')
+    
+    def get_initial_state_distribution(self, i=None):
+        return self.launch(i, 'get_initial_state_distribution')
+    
+    def get_initial_state(self, i=None):
+        return self.launch(i, 'get_initial_state')
+    
+    def get_observation_space(self, i=None):
+        return self.launch(i, 'get_observation_space')
+    
+    def is_observation(self, observation, i=None):
+        return self.launch(i, 'is_observation', observation)
+    
+    def get_observation_distribution(self, state, action, i=None):
+        return self.launch(i, 'get_observation_distribution', state, action)
+    
+    def get_observation(self, state, action, i=None):
+        return self.launch(i, 'get_observation', state, action)
+    
+    def get_enabled_events(self, memory, i=None):
+        return self.launch(i, 'get_enabled_events', memory)
+    
+    def is_enabled_event(self, event, memory, i=None):
+        return self.launch(i, 'is_enabled_event', event, memory)
+    
+    def get_action_space(self, i=None):
+        return self.launch(i, 'get_action_space')
+
+    def is_action(self, event, i=None):
+        return self.launch(i, 'is_action', event)
+    
+    def get_applicable_actions(self, memory, i=None):
+        return self.launch(i, 'get_applicable_actions', memory)
+    
+    def is_applicable_action(self, action, memory, i=None):
+        return self.launch(i, 'is_applicable_action', action, memory)
+    
+    def step(self, action, i=None):
+        return self.launch(i, 'step', action)
+    
+    def sample(self, memory, action, i=None):
+        return self.launch(i, 'sample', memory, action)
+    
+    def get_next_state_distribution(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state_distribution', memory, action)
+    
+    def get_next_state(self, memory, action, i=None):
+        return self.launch(i, 'get_next_state', memory, action)
+    
+    def get_transition_value(self, memory, action, next_state, i=None):
+        return self.launch(i, 'get_transition_value', memory, action, next_state)
+    
+    def is_transition_value_dependent_on_next_state(self, i=None):
+        return self.launch(i, 'is_transition_value_dependent_on_next_state')
+    
+    def get_goals(self, i=None):
+        return self.launch(i, 'get_goals')
+    
+    def is_goal(self, observation, i=None):
+        return self.launch(i, 'is_goal', observation)
+    
+    def is_terminal(self, state, i=None):
+        return self.launch(i, 'is_terminal', state)
+    
+    def check_value(self, value, i=None):
+        return self.launch(i, 'check_value', value)
+    
+    def render(self, memory, i=None):
+        return self.launch(i, 'render', memory)
+
+    # Call a lambda function (usually involves the original domain)
+    def call(self, i, lambda_id, *args):
+        return self.launch(i, lambda_id, *args)
+    
+    # The original sequential domain may have methods we don't know
+    def __getattr__(self, name):
+        def method(*args, i=None):
+            return self.launch(i, name, *args)
+        return method
+    
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __getstate__(self):
+        d = self.__dict__.copy()
+        del d['_temp_connections']  # we cannot serialize a file
+        return d
+
+    # Bypass __getattr_.method() when serializing the class.
+    # Required on Windows when spawning the main process.
+    def __setstate__(self, state):
+        self.__dict__ = state
+        # TODO: reopen the temp connection from _ipc_connections
+
+def _launch_domain_server_(domain_factory, lambdas, i,
+                           job_results, conn, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    while True:
+        job = conn.recv()
+        job_results[i] = None
+        if job is None:
+            if ipc_conn is not None:
+                pusher.close()
+            conn.close()
+            break
+        else:
+            try:
+                if isinstance(job[0], str):  # job[0] is a domain class' method
+                    r = getattr(domain, job[0])(*job[1])
+                else:  # job[0] is a lambda function
+                    r = lambdas[job[0]](domain, *job[1])
+                job_results[i] = r
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+                conn.send('0')  # send success
+            except Exception as e:
+                logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+                else:
+                    conn.send(str(e))  # send failure (!= 0)
+
+class PipeParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain i is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._manager = mp.Manager()
+        self._waiting_jobs = [None] * nb_domains
+        self._job_results = self._manager.list([None for i in range(nb_domains)])
+        logger.info(rf'Using {nb_domains} parallel piped domains')
+    
+    def get_proc_connections(self):
+        return self._waiting_jobs
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            self._waiting_jobs[mi].send((function, args))
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        self._waiting_jobs[i].recv()
+        r = self._job_results[i]
+        self._job_results[i] = None
+        self._active_domains[i] = False
+        return r
+    
+    def _launch_processes(self):
+        for i in range(len(self._job_results)):
+            self.open_ipc_connection(i)
+            pparent, pchild = mp.Pipe()
+            self._waiting_jobs[i] = pparent
+            self._processes[i] = mp.Process(target=_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._job_results, pchild,
+                                                    self._ipc_connections[i] if self._ipc_notify else None, logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._job_results)):
+            self._waiting_jobs[i].send(None)
+            self._processes[i].join()
+            self._processes[i].close()
+            self._waiting_jobs[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
+
+
+def _shm_launch_domain_server_(domain_factory, lambdas, i,
+                               shm_proxy, shm_registers, shm_types, shm_sizes,
+                               rsize, shm_arrays, shm_lambdas, shm_names, shm_params,
+                               activation, done, cond, ipc_conn, logger):
+    domain = domain_factory()
+    if ipc_conn is not None:
+        pusher = Push0()
+        pusher.dial(ipc_conn)
+    
+    def get_string(s):
+        for i, c in enumerate(s):
+            if c == b'\x00':
+                return s[:i].decode()
+        return s.decode()
+
+    while True:
+        with cond:
+            cond.wait_for(lambda: bool(activation.value) == True)
+            activation.value = False
+        if int(shm_lambdas[i].value) == -1 and shm_names[i][0] == b'\x00':
+            if ipc_conn is not None:
+                pusher.close()
+            break
+        else:
+            try:
+                job_args = []
+                for p in shm_params[i]:
+                    if p >= 0:
+                        sz = shm_sizes[shm_types[p].__name__]
+                        if sz > 1:
+                            si = (i * rsize) + p
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[si:(si + sz)]))
+                        else:
+                            job_args.append(shm_proxy.decode(shm_types[p], shm_arrays[(i * rsize) + p]))
+                    else:
+                        break  # no more args
+                if int(shm_lambdas[i].value) == -1:  # we are working with a domain class' method
+                    result = getattr(domain, get_string(shm_names[i]))(*job_args)
+                else:  # we are working with a lambda function
+                    result = lambdas[int(shm_lambdas[i].value)](domain, *job_args)
+                shm_params[i][:] = [-1] * len(shm_params[i])
+                if type(result) is not tuple:
+                    result = (result,)
+                if result[0] is not None:
+                    type_counters = {}
+                    for j, r in enumerate(result):
+                        res_name = type(r).__name__
+                        (start, end) = shm_registers[res_name]
+                        if res_name in type_counters:
+                            type_counters[res_name] += shm_sizes[res_name]
+                            k = type_counters[res_name]
+                            if (k >= end):
+                                raise IndexError('''No more available register for type {}. 
+                                                    Please increase the number of registers 
+                                                    for that type.'''.format(res_name))
+                        else:
+                            type_counters[res_name] = start
+                            k = start
+                        shm_params[i][j] = k
+                        sz = shm_sizes[res_name]
+                        if sz > 1:
+                            si = (i * rsize) + k
+                            shm_proxy.encode(r, shm_arrays[si:(si + sz)])
+                        else:
+                            shm_proxy.encode(r, shm_arrays[(i * rsize) + k])
+                if ipc_conn is not None:
+                    pusher.send(b'0')  # send success
+            except Exception as e:
+                if int(shm_lambdas[i].value) == -1:
+                    logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
+                else:
+                    logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                if ipc_conn is not None:
+                    pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
+            with cond:
+                done.value = True
+                cond.notify_all()  # send finished status (no success nor failure information)
+                
+
+class ShmParallelDomain(ParallelDomain):
+    """This class can be used to create and launch n domains in separate processes
+    with shared memory between the Python processes.
+    Each domain listens for incoming domain requests.
+    Each request can indicate which domain should serve it, otherwise the first available
+    domain is chosen and its id is returned to the incoming request.
+    """
+    def __init__(self,
+                 domain_factory,
+                 shm_proxy,
+                 lambdas=None,
+                 nb_domains=os.cpu_count(),
+                 ipc_notify=False):
+        super().__init__(domain_factory, lambdas, nb_domains, ipc_notify)
+        self._activations = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._dones = [mp.Value('b', False, lock=True) for i in range(nb_domains)]
+        self._conditions = [mp.Condition() for i in range(nb_domains)]
+        self._shm_proxy = shm_proxy
+        self._shm_registers = {}  # Maps from registered method parameter types to vectorized array ranges
+        self._shm_types = {}  # Maps from register index to type
+        self._shm_sizes = {}  # Maps from register method parameter types to number of arrays encoding each type
+        self._shm_arrays = []  # Methods' vectorized parameters
+        self._rsize = 0  # Total size of the register (updated below)
+        self._shm_lambdas = [None] * nb_domains  # Vectorized lambdas' ids
+        self._shm_names = [None] * nb_domains  # Vectorized methods' names
+        self._shm_params = [None] * nb_domains  # Indices of methods' vectorized parameters
+        for i in range(nb_domains):
+            j = 0
+            for r in shm_proxy.register():
+                for k in range(r[1]):
+                    m = shm_proxy.initialize(r[0])
+                    if type(m) == list or type(m) == tuple:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = len(m)
+                            self._shm_registers[r[0].__name__] = (j, j + (r[1] * len(m)))
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + (r[1] * len(m)), len(m))})
+                            self._rsize += (r[1] * len(m))
+                        self._shm_arrays.extend(m)
+                        j += len(m)
+                    else:
+                        if i == 0 and k == 0:  # do it once for all the domains and redundant initializers
+                            self._shm_sizes[r[0].__name__] = 1
+                            self._shm_registers[r[0].__name__] = (j, j + r[1])
+                            self._shm_types.update({kk: r[0] for kk in range(j, j + r[1])})
+                            self._rsize += r[1]
+                        self._shm_arrays.append(m)
+                        j += 1
+            self._shm_lambdas[i] = mp.Value('i', -1, lock=True)
+            self._shm_names[i] = mp.Array('c', bytearray(100))
+            self._shm_params[i] = mp.Array('i', [-1] * sum(r[1] for r in shm_proxy.register()))
+        logger.info(rf'Using {nb_domains} parallel shared memory domains')
+    
+    def get_proc_connections(self):
+        return (self._activations, self._conditions)
+    
+    def launch(self, i, function, *args):
+        if not any(self._processes):
+            self._launch_processes()
+        try:
+            mi = self.wake_up_domain(i)
+            if isinstance(function, str):  # function is a domain class' method
+                self._shm_lambdas[mi].value = -1
+                self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
+                                         bytearray(len(self._shm_names[mi]) - len(function))
+            else:  # function is a lambda id
+                self._shm_lambdas[mi].value = int(function)
+                self._shm_names[mi][:] = bytearray(len(self._shm_names[mi]))  # reset with null bytes
+            self._shm_params[mi][:] = [-1] * len(self._shm_params[mi])
+            type_counters = {}
+            for j, a in enumerate(args):
+                arg_name = type(a).__name__
+                (start, end) = self._shm_registers[arg_name]
+                if arg_name in type_counters:
+                    type_counters[arg_name] += self._shm_sizes[arg_name]
+                    k = type_counters[arg_name]
+                    if (k >= end):
+                        raise IndexError('''No more available register for type {}. 
+                                            Please increase the number of registers 
+                                            for that type.'''.format(arg_name))
+                else:
+                    type_counters[arg_name] = start
+                    k = start
+                self._shm_params[mi][j] = k
+                sz = self._shm_sizes[arg_name]
+                if sz > 1:
+                    si = (mi * self._rsize) + k
+                    self._shm_proxy.encode(a, self._shm_arrays[si:(si + sz)])
+                else:
+                    self._shm_proxy.encode(a, self._shm_arrays[(mi * self._rsize) + k])
+            with self._conditions[mi]:
+                self._activations[mi].value = True
+                self._conditions[mi].notify_all()
+            return mi
+        except Exception as e:
+            if isinstance(function, str):
+                logger.error(rf'/!\ Unable to launch job {function}: {e}')
+            else:
+                logger.error(rf'/!\ Unable to launch job lambdas[{function}]: {e}')
+    
+    def get_result(self, i):
+        with self._conditions[i]:
+            self._conditions[i].wait_for(lambda: bool(self._dones[i].value) == True)
+            self._dones[i].value = False
+        results = []
+        for r in self._shm_params[i]:
+            if r >= 0:
+                sz = self._shm_sizes[self._shm_types[r].__name__]
+                if sz > 1:
+                    si = (i * self._rsize) + r
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[si:(si + sz)]))
+                else:
+                    results.append(self._shm_proxy.decode(self._shm_types[r], self._shm_arrays[(i * self._rsize) + r]))
+            else:
+                break  # no more params
+        self._active_domains[i] = False
+        return results if len(results) > 1 else results[0] if len(results) > 0 else None
+    
+    def _launch_processes(self):
+        for i in range(len(self._processes)):
+            self.open_ipc_connection(i)
+            self._processes[i] = mp.Process(target=_shm_launch_domain_server_,
+                                            args=[self._domain_factory, self._lambdas, i,
+                                                    self._shm_proxy.copy(),
+                                                    dict(self._shm_registers),
+                                                    dict(self._shm_types),
+                                                    dict(self._shm_sizes),
+                                                    self._rsize, list(self._shm_arrays),
+                                                    list(self._shm_lambdas), list(self._shm_names), list(self._shm_params),
+                                                    self._activations[i], self._dones[i], self._conditions[i],
+                                                    self._ipc_connections[i] if self._ipc_notify else None,
+                                                    logger])
+            self._processes[i].start()
+        # Waits for all jobs to be launched and waiting each for requests
+        while True in set(self._active_domains):
+            continue
+    
+    def close(self):
+        for i in range(len(self._processes)):
+            self._shm_lambdas[i].value = -1
+            self._shm_names[i][:] = bytearray(len(self._shm_names[i]))  # reset with null bytes
+            self._shm_params[i][:] = [-1] * len(self._shm_params[i])
+            with self._conditions[i]:
+                self._activations[i].value = True
+                self._conditions[i].notify_all()
+            self._processes[i].join()
+            self._processes[i].close()
+            self._processes[i] = None
+            self.close_ipc_connection(i)
-- 
2.43.0


From 50361475e57f9c2036c4b94a973e3fbb585a8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 005/155] fix: do not return the arguments of a failed
 shared-memory job as its result

---
 skdecide/domains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 1de9511..acfd1dd 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -689,6 +689,7 @@ def _shm_launch_domain_server_(domain_factory, lambdas, i,
                     logger.error(rf'/!\ Unable to perform job {get_string(shm_names[i])}: {e}')
                 else:
                     logger.error(rf'/!\ Unable to perform job {int(shm_lambdas[i].value)}: {e}')
+                shm_params[i][:] = [-1] * len(shm_params[i])
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
             with cond:
-- 
2.43.0


From d1153994ae6b328b89513bd1c54b451c0d851cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 006/155] fix: wake up the caller of a failed piped job when
 ipc notification is on

---
 skdecide/domains.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index acfd1dd..66143dd 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -550,8 +550,7 @@ def _launch_domain_server_(domain_factory, lambdas, i,
                 logger.error(rf'/!\ Unable to perform job {job[0]}: {e}')
                 if ipc_conn is not None:
                     pusher.send(str(e).encode(encoding='UTF-8'))  # send error message
-                else:
-                    conn.send(str(e))  # send failure (!= 0)
+                conn.send(str(e))  # send failure (!= 0)
 
 class PipeParallelDomain(ParallelDomain):
     """This class can be used to create and launch n domains in separate processes.
-- 
2.43.0


From aa352b81b75f9a5fb14e1ce45d054a3f81cf4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 007/155] fix: release the claimed parallel domain when a job
 cannot be launched

---
 skdecide/domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 66143dd..09996ab 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -575,11 +575,12 @@ class PipeParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = self.wake_up_domain(i)
         try:
-            mi = self.wake_up_domain(i)
             self._waiting_jobs[mi].send((function, args))
             return mi
         except Exception as e:
+            self._active_domains[mi] = False
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
@@ -754,8 +755,8 @@ class ShmParallelDomain(ParallelDomain):
     def launch(self, i, function, *args):
         if not any(self._processes):
             self._launch_processes()
+        mi = self.wake_up_domain(i)
         try:
-            mi = self.wake_up_domain(i)
             if isinstance(function, str):  # function is a domain class' method
                 self._shm_lambdas[mi].value = -1
                 self._shm_names[mi][:] = bytearray(function, encoding='utf-8') + \
@@ -790,6 +791,7 @@ class ShmParallelDomain(ParallelDomain):
                 self._conditions[mi].notify_all()
             return mi
         except Exception as e:
+            self._active_domains[mi] = False
             if isinstance(function, str):
                 logger.error(rf'/!\ Unable to launch job {function}: {e}')
             else:
-- 
2.43.0


From f079d14db8e8b4831710a445df42a13c2e00b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 008/155] fix: start episodes from a reset when no memory is
 given to rollout_episode

---
 skdecide/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index f5f3e74..c828307 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -306,8 +306,7 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Initialize episode
         solver.reset()
         if from_memory is None:
-            #observation = domain.reset()
-            pass
+            observation = domain.reset()
         else:
             domain.set_memory(from_memory)
             last_state = from_memory[-1] if has_memory else from_memory
-- 
2.43.0


From d899fa2e96aef2abe6556e71b655b7bb7c8e9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 009/155] fix: run all the requested episodes when results are
 saved

---
 skdecide/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index c828307..4f8ab8e 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -215,7 +215,7 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
                 raise FileExistsError
 
             now = datetime.datetime.now()
-            str_timestamp = now.strftime("%Y%m%dT%H%M%S")
+            str_timestamp = now.strftime("%Y%m%dT%H%M%S%f")
             directory = os.path.join(save_result_directory, str_timestamp)
             os.mkdir(directory)
             try:
@@ -234,7 +234,8 @@ def rollout(domain: Domain, solver: Optional[Solver] = None, from_memory: Option
             except TypeError:
                 logger.error("Observation is not serializable")
 
-            return directory
+    if save_result_directory is not None:
+        return directory
 
 
 def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] = None,
-- 
2.43.0


From 94db6545afcc181631be02b2f3b54099d646103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 010/155] fix: LRTA* policy is defined for the states it covers

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 21d909f..c080d9a 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -26,7 +26,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
         return self._policy.get(observation, None)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        return observation is self._policy
+        return observation in self._policy
 
     def _get_utility(self, observation: D.T_agent[D.T_observation]) -> D.T_value:
         if observation not in self.values:
-- 
2.43.0


From 828cec6d132cdad9ee13447df795236e6e7446bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 011/155] fix: LRTA* trial starting in a goal state

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index c080d9a..47b608d 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -127,5 +127,5 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
             current_roll.append(current_state)
         current_roll_and_action.append((current_state,
                                         {"action": None}))
-        cumulated_reward += self.values[current_state]
+        cumulated_reward += self._get_utility(current_state)
         return dead_end, cumulated_reward, current_roll_and_action, list_action
-- 
2.43.0


From 0d31f54083b24e6ac389a0cc1cdc134731053dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 012/155] fix: forget the policy of a former LRTA* resolution

---
 skdecide/hub/solver/lrtastar/lrtastar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/hub/solver/lrtastar/lrtastar.py b/skdecide/hub/solver/lrtastar/lrtastar.py
index 47b608d..dccdcd8 100644
--- a/skdecide/hub/solver/lrtastar/lrtastar.py
+++ b/skdecide/hub/solver/lrtastar/lrtastar.py
@@ -56,6 +56,7 @@ class LRTAstar(Solver, DeterministicPolicies, Utilities):
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
         self.values = {}
+        self._policy = {}
         iteration = 0
         best_cost = float('inf')
         if self._from_state is None:
-- 
2.43.0


From aabd304ee4d349a27ba9f39f468d9658a191a304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 013/155] fix: greedy choice when transition values do not
 depend on the next state

---
 skdecide/hub/solver/simple_greedy/simple_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/simple_greedy/simple_greedy.py b/skdecide/hub/solver/simple_greedy/simple_greedy.py
index e92e5dd..5085dcb 100644
--- a/skdecide/hub/solver/simple_greedy/simple_greedy.py
+++ b/skdecide/hub/solver/simple_greedy/simple_greedy.py
@@ -36,7 +36,7 @@ class SimpleGreedy(DeterministicPolicySolver):
                 expected_value = sum(p * domain.get_transition_value(memory, [a], s).reward for s, p in next_state_prob)
                 values.append(expected_value)
         else:
-            values = [domain.get_transition_value(memory, a).reward for a in applicable_actions]
+            values = [domain.get_transition_value(memory, [a]).reward for a in applicable_actions.get_elements()]
         argmax = max(range(len(values)), key=lambda i: values[i])
         return [applicable_actions.get_elements()[argmax]]  # list of action here because we handle Parallel domains
 
-- 
2.43.0


From d52d850c399df64509ccda8bced75f2bc6ef8e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 014/155] fix: forget the plan and values of a former A*
 resolution

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index f090105..c2f7391 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -37,6 +37,8 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
 
     def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
         self._domain = domain_factory()
+        self._values = {}
+        self._plan = []
 
         def extender(node, label, explored):
             neigh = [(self._domain.get_next_state(node, a), a)
-- 
2.43.0


From 95fa26551e1ee44f2bea872a242080a70248f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 015/155] fix: A* from a source that is already a goal

---
 skdecide/hub/solver/lazy_astar/lazy_astar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/lazy_astar/lazy_astar.py b/skdecide/hub/solver/lazy_astar/lazy_astar.py
index c2f7391..991f8f2 100644
--- a/skdecide/hub/solver/lazy_astar/lazy_astar.py
+++ b/skdecide/hub/solver/lazy_astar/lazy_astar.py
@@ -87,8 +87,9 @@ class LazyAstar(Solver, DeterministicPolicies, Utilities):
             if self._verbose:
                 print(curnode, f'- cumulated cost: {dist} - estimated total cost: {estim_total}')
             if self._domain.is_goal(curnode):
-                path = [(parent, label),
-                        (curnode, None)]
+                path = [(curnode, None)]
+                if parent is not None:
+                    path.insert(0, (parent, label))
                 node = parent
                 while node is not None:
                     (parent, label) = explored[node]
-- 
2.43.0


From 88dbc6f841bfc120cb34fd3ce663d337e109922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 016/155] fix: graph domain action space answers membership
 queries

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c8e2be1..c7295ab 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -14,7 +14,7 @@ class ActionSpace(EnumerableSpace, SamplableSpace):
         return random.choice(self.l)
 
     def contains(self, x: T) -> bool:
-        pass
+        return x in self.l
 
     def __init__(self, l: List[object]):
         self.l = l
-- 
2.43.0


From 0b18f5b1e24af979ea0cad5534c059bbbf1fe07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 017/155] fix: graph domain memory is the current state

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index c7295ab..120b759 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -133,13 +133,13 @@ class GraphDomain(Domain,
         self.attribute_weight = attribute_weight
 
     def _get_next_state(self, memory: D.T_memory[D.T_state], event: D.T_event) -> D.T_state:
-        return self.next_state_map[memory[-1]][event]
+        return self.next_state_map[memory][event]
 
     def _get_transition_value(self, memory: D.T_memory[D.T_state],
                               event: D.T_event,
                               next_state: Optional[D.T_state] = None) \
             -> TransitionValue[D.T_value]:
-        return TransitionValue(cost=self.next_state_attributes[memory[-1]][event][self.attribute_weight])
+        return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
     def is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
@@ -148,7 +148,7 @@ class GraphDomain(Domain,
         return ImplicitSpace(lambda x: True)
 
     def _get_applicable_actions_from(self, memory: D.T_memory[D.T_state])-> Space[D.T_event]:
-        return ActionSpace(list(self.next_state_map[memory[-1]].keys()))
+        return ActionSpace(list(self.next_state_map[memory].keys()))
 
     def _get_goals_(self) -> Space[D.T_observation]:
         return ImplicitSpace(lambda x: (x in self.targets))
-- 
2.43.0


From a82da1d600897a924dd2ae91ec26f09c5107ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 018/155] fix: let graph domains take steps by implementing the
 terminal state test

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 120b759..9b8942d 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -141,7 +141,7 @@ class GraphDomain(Domain,
             -> TransitionValue[D.T_value]:
         return TransitionValue(cost=self.next_state_attributes[memory][event][self.attribute_weight])
 
-    def is_terminal(self, state: D.T_state) -> bool:
+    def _is_terminal(self, state: D.T_state) -> bool:
         return state in self.targets
 
     def _get_action_space_(self) -> Space[D.T_event]:
-- 
2.43.0


From 803d1be7b50f6f1a59b9cf042b23a16bc283a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 019/155] fix: expand the discovered states in full space
 exploration

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 467fe70..2759d4b 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -33,7 +33,8 @@ class FullSpaceExploration(GraphExploration):
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
                 next = self.domain.get_next_state(vertex, action)
-                if next not in next_state_map:
+                new_state = next not in next_state_map
+                if new_state:
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
@@ -49,7 +50,7 @@ class FullSpaceExploration(GraphExploration):
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-                    if next not in next_state_map:
+                    if new_state:
                         stack.append((next, path+[next]))
             if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
                 or (nb_edges > self.max_edges and nb_path >= 1):
-- 
2.43.0


From 5d4669c0bbfabc55ca583d635c9b5a2b911f707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 020/155] fix: full space exploration without limits

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 2759d4b..92169fd 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -52,8 +52,9 @@ class FullSpaceExploration(GraphExploration):
                 else:
                     if new_state:
                         stack.append((next, path+[next]))
-            if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
-                or (nb_edges > self.max_edges and nb_path >= 1):
+            if (self.max_path is not None and nb_path > self.max_path) \
+                or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \
+                or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-- 
2.43.0


From da0f2b6beda985c81d51518447e73990233cc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 021/155] fix: depth first exploration without limits

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index cb7077b..d4ffb37 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -63,8 +63,9 @@ class DFSExploration(GraphExploration):
                     next_state_map[next] = {}
                     next_state_attributes[next] = {}
                     nb_nodes += 1
-            if nb_path > self.max_path or (nb_nodes > self.max_nodes and nb_path >= 1) \
-               or (nb_edges > self.max_edges and nb_path >= 1):
+            if (self.max_path is not None and nb_path > self.max_path) \
+                or (self.max_nodes is not None and nb_nodes > self.max_nodes and nb_path >= 1) \
+                or (self.max_edges is not None and nb_edges > self.max_edges and nb_path >= 1):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-- 
2.43.0


From 4fa0a5ea2c7d5bd9f069732fc2e2c96b91e822a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 022/155] fix: ask the successors of the explored state itself

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index d4ffb37..2fc59dd 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -38,7 +38,7 @@ class DFSExploration(GraphExploration):
             (vertex, path) = stack.pop()
             actions = self.domain.get_applicable_actions(vertex).get_elements()
             for action in actions:
-                next = self.domain.get_next_state(Memory([vertex]), action)
+                next = self.domain.get_next_state(vertex, action)
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 else:
-- 
2.43.0


From f4ea9c6c928ae616c420a98cbe2d9bfb3f5baead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 023/155] fix: ask the transition values of the explored state
 itself

---
 .../hub/solver/graph_explorer/FullSpaceExploration.py    | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index 92169fd..badb2b0 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -41,12 +41,9 @@ class FullSpaceExploration(GraphExploration):
                 if action not in next_state_map[vertex]:
                     nb_edges += 1
                 next_state_map[vertex][action] = next
-                next_state_attributes[vertex][action] = {"cost": self.domain.get_transition_value(Memory([vertex]),
-                                                                                                  action,
-                                                                                                  next).cost,
-                                                         "reward": self.domain.get_transition_value(Memory([vertex]),
-                                                                                                    action,
-                                                                                                    next).reward}
+                transition_value = self.domain.get_transition_value(vertex, action, next)
+                next_state_attributes[vertex][action] = {"cost": transition_value.cost,
+                                                         "reward": transition_value.reward}
                 if self.domain.is_goal(next):
                     nb_path += 1
                 else:
-- 
2.43.0


From e071d311dbd91ec0bc86eedc588eeafca9f8fb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 024/155] fix: name the cost attribute of the explored graph

---
 skdecide/hub/solver/graph_explorer/FullSpaceExploration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
index badb2b0..c2a94ef 100644
--- a/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
+++ b/skdecide/hub/solver/graph_explorer/FullSpaceExploration.py
@@ -55,7 +55,7 @@ class FullSpaceExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           None, "cost")
 
 
 def reachable_states(self, s0: Any):
-- 
2.43.0


From 6f153a54b439bcd552e0047f4a2f4f8a69b5ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 025/155] fix: name the cost attribute of the explored graph

---
 skdecide/hub/solver/graph_explorer/DFSExploration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFSExploration.py b/skdecide/hub/solver/graph_explorer/DFSExploration.py
index 2fc59dd..3c3aec2 100644
--- a/skdecide/hub/solver/graph_explorer/DFSExploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFSExploration.py
@@ -69,6 +69,6 @@ class DFSExploration(GraphExploration):
                 break
         return GraphDomain(next_state_map,
                            next_state_attributes,
-                           None, None)
+                           None, "cost")
 
 
-- 
2.43.0


From 98ea96004de771021eefd992e8230ba35ba146f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 026/155] fix: keep the transitions to already discovered
 states

---
 .../solver/graph_explorer/DFS_Uncertain_Exploration.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index 8269fed..ebb3ade 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -65,14 +65,16 @@ class DFSExploration(GraphExploration):
                         next_state_map[s] = {}
                     if action not in next_state_map[s]:
                         next_state_map[s][action] = {}
-                    if prob != 0 and succ not in result:
+                    if prob == 0:
+                        continue
+                    nb_edges += 1
+                    cost = domain.get_transition_value(s, action, succ)
+                    next_state_map[s][action][succ] = (prob, cost.cost)
+                    if succ not in result:
                         nb_states += 1
-                        nb_edges += 1
                         result.add(succ)
                         heappush(stack, (self.score_function(succ),
                                          succ))
-                        cost = domain.get_transition_value(s, action, succ)
-                        next_state_map[s][action][succ] = (prob, cost.cost)
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
             if (nb_states > self.max_nodes) \
-- 
2.43.0


From 101891b60eb0a2776f14f84561f23ba95b95f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 027/155] fix: uncertain exploration without limits

---
 .../hub/solver/graph_explorer/DFS_Uncertain_Exploration.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
index ebb3ade..b891f7d 100644
--- a/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
+++ b/skdecide/hub/solver/graph_explorer/DFS_Uncertain_Exploration.py
@@ -77,8 +77,8 @@ class DFSExploration(GraphExploration):
                                          succ))
                         state_goal[succ] = domain.is_goal(succ)
                         state_terminal[succ] = domain.is_terminal(succ)
-            if (nb_states > self.max_nodes) \
-                or (nb_edges > self.max_edges):
+            if (self.max_nodes is not None and nb_states > self.max_nodes) \
+                or (self.max_edges is not None and nb_edges > self.max_edges):
                 break
         return GraphDomainUncertain(next_state_map=next_state_map,
                                     state_terminal=state_terminal,
-- 
2.43.0


From dd49f1a3892a359ddb617da1ff7067ae2eaa6a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 028/155] fix: uncertain graph domain exposes its successor
 distribution

---
 skdecide/hub/solver/graph_explorer/GraphDomain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/graph_explorer/GraphDomain.py b/skdecide/hub/solver/graph_explorer/GraphDomain.py
index 9b8942d..fe9b927 100644
--- a/skdecide/hub/solver/graph_explorer/GraphDomain.py
+++ b/skdecide/hub/solver/graph_explorer/GraphDomain.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 import matplotlib.pyplot as plt
 from collections import defaultdict
 from typing import Any, Dict, List, Iterable, Optional, Union, Tuple
-from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution
+from skdecide import Memory, Space, TransitionValue, EnumerableSpace, SamplableSpace, T, ImplicitSpace, Distribution, DiscreteDistribution
 import random
 from skdecide.builders.domain import DeterministicTransitions, Actions, Goals, Markovian, \
     FullyObservable, PositiveCosts, UncertainTransitions
@@ -93,7 +93,7 @@ class GraphDomainUncertain(Domain,
                                      action: D.T_agent[D.T_concurrency[D.T_event]]) -> Distribution[D.T_state]:
         possible_states = [(s, self.next_state_map[memory][action][s][0])
                            for s in self.next_state_map[memory][action]]
-        return random.choices(possible_states, weights=[p[1] for p in possible_states], k=1)[0]
+        return DiscreteDistribution(possible_states)
 
 
 
-- 
2.43.0


From ed812e5cf5a218b6527448361dd9bb9dce9987d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 029/155] fix: fill every dimension of the discretized box
 actions

---
 skdecide/hub/domain/gym/gym.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7ba20a0..6257636 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -658,16 +658,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                 clist.append(a)
                 self._generate_box_action_combinations(actions, shape, dtype, index+1, clist, rlist)
         else:
-            ar = np.ndarray(shape=shape, dtype=dtype)
-            if len(shape) == 1:
-                ar[0] = alist[0]
-            else:
-                k = 0
-                for i, in np.nditer(ar, op_flags=['readwrite']):
-                    print(str(i))
-                    i = alist[k]
-                    k += 1
-            rlist += [ar]
+            rlist += [np.array(alist, dtype=dtype).reshape(shape)]
 
 
 class D(Domain, SingleAgent, Sequential, DeterministicTransitions, UnrestrictedActions, DeterministicInitialized,
-- 
2.43.0


From 638dc39f75c49a3493ede9af2a976586acf89efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 030/155] fix: discretize multi-binary action spaces

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 6257636..3eb65e3 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -635,7 +635,7 @@ class GymDiscreteActionDomain(UnrestrictedActions):
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.multi_binary.MultiBinary):
             generate = lambda d: ([[e] + g for e in [True, False] for g in generate(d+1)]
-                                  if d < len(action_space.n)-1 else
+                                  if d < action_space.n-1 else
                                   [[e] for e in [True, False]])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.tuple.Tuple):
-- 
2.43.0


From 8d4b9bd3479a63fe06020afe94481173e18370b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 031/155] fix: discretize dict action spaces

---
 skdecide/hub/domain/gym/gym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 3eb65e3..700dd84 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -644,10 +644,11 @@ class GymDiscreteActionDomain(UnrestrictedActions):
                                   [[e] for e in self._discretize_action_space(action_space.spaces[d]).get_elements()])
             return ListSpace(generate(0))
         elif isinstance(action_space, gym.spaces.dict.Dict):
-            dkeys = action_space.spaces.keys()
+            dkeys = list(action_space.spaces.keys())
             generate = lambda d: ([[e] + g for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements() for g in generate(d+1)]
                                   if d < len(dkeys)-1 else
                                   [[e] for e in self._discretize_action_space(action_space.spaces[dkeys[d]]).get_elements()])
+            return ListSpace([dict(zip(dkeys, e)) for e in generate(0)])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(action_space)))
     
-- 
2.43.0


From ddeeb6292c5254540e3357b9519bd40494b9d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 032/155] fix: iterate over the items of dict observation
 spaces

---
 skdecide/hub/domain/gym/gym.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 700dd84..fd54fbc 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -279,7 +279,7 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee1_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee1_features(s, state[k])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
@@ -391,7 +391,7 @@ class GymWidthDomain:
             for s in range(len(space.spaces)):
                 self._init_bee2_features(space.spaces[s], state[s])
         elif isinstance(space, gym.spaces.dict.Dict):
-            for k, s in space.spaces:
+            for k, s in space.spaces.items():
                 self._init_bee2_features(s, state[k])
         else:
             raise RuntimeError('Unknown Gym space element of type ' + str(type(space)))
@@ -509,7 +509,7 @@ class GymWidthDomain:
             return features
         elif isinstance(space, gym.spaces.dict.Dict):
             features = []
-            for k, v in space.spaces:
+            for k, v in space.spaces.items():
                 l = self._binary_features(v, element[k])
                 features += l
             return features
-- 
2.43.0


From e1f99fa220ef6512d497c4089d962b4049aef400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 033/155] fix: variables of dict observation spaces

---
 skdecide/hub/domain/gym/gym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index fd54fbc..7203d8c 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -580,7 +580,7 @@ class GymWidthDomain:
         elif isinstance(space, gym.spaces.dict.Dict):
             var = []
             for k in space.spaces.keys():
-                index, l = self._get_variables(space.spaces[k], element[k])
+                l = self._get_variables(space.spaces[k], element[k])
                 var += l
             return var
         else:
-- 
2.43.0


From d50b5ca847040da89fd3f4a68ba311f3dd75e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 034/155] fix: count the binary features of the observation
 space

---
 skdecide/hub/domain/gym/gym.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index 7203d8c..df12d90 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -439,10 +439,8 @@ class GymWidthDomain:
     def nb_of_binary_features(self) -> int:
         """Return the size of the bit vector encoding an observation
         """
-        return self._binary_features(self._gym_env.observation_space,
-                                                self._gym_env.observation_space.sample(),
-                                                0,
-                                                lambda i: None)
+        return len(self._binary_features(self._gym_env.observation_space,
+                                         self._gym_env.observation_space.sample()))
 
     def binary_features(self, memory: D.T_memory[D.T_state]):
         """Transform state in a bit vector and call f on each true value of this vector
-- 
2.43.0


From 18b01f5910e9c9e59618a7e91818f54c0b8c7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 035/155] fix: return unwrapped observations when resetting a
 domain used as a Gym environment

---
 skdecide/hub/domain/gym/gym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/gym/gym.py b/skdecide/hub/domain/gym/gym.py
index df12d90..5610316 100644
--- a/skdecide/hub/domain/gym/gym.py
+++ b/skdecide/hub/domain/gym/gym.py
@@ -922,7 +922,8 @@ class AsGymEnv(gym.Env):
         # Returns
         observation (object): The initial observation of the space.
         """
-        return self._domain.reset()
+        observation = self._domain.reset()
+        return next(iter(self._domain.get_observation_space().to_unwrapped([observation])))
 
     def render(self, mode='human'):
         """Render the environment.
-- 
2.43.0


From eb6c9142d512dbd6dee53aa01d35f2bd3a570783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 036/155] fix: let the observation space of Mastermind contain
 the goal score

---
 skdecide/hub/domain/mastermind/mastermind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/domain/mastermind/mastermind.py b/skdecide/hub/domain/mastermind/mastermind.py
index 6f36ade..89573e6 100644
--- a/skdecide/hub/domain/mastermind/mastermind.py
+++ b/skdecide/hub/domain/mastermind/mastermind.py
@@ -81,7 +81,7 @@ class MasterMind(D):
         return self._calc_score(state, action)
 
     def _get_observation_space_(self) -> D.T_agent[Space[D.T_observation]]:
-        return MultiDiscreteSpace([self._n_positions, self._n_positions])
+        return MultiDiscreteSpace([self._n_positions + 1, self._n_positions + 1])
 
     def _list_hidden_solutions(self):
         """Return a list of all possible hidden solutions (n_colours ** n_positions)."""
-- 
2.43.0


From fbc3d2299bb6c486f1c9b0c6b2da1e8081a132e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 037/155] fix: check every element of the spaces in CGP
 compatibility test

---
 skdecide/hub/solver/cgp/cgp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index ed5a984..ae76a84 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -204,11 +204,11 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
 
         valide_action_space = True
         for x in flat_action_space:
-            valide_action_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            valide_action_space = valide_action_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         validate_observation_space = True
         for x in flat_observation_space:
-            validate_observation_space = isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
+            validate_observation_space = validate_observation_space and isinstance(x,(gym.spaces.Tuple, gym.spaces.Discrete, gym.spaces.Box))
         
         return valide_action_space and validate_observation_space
         
-- 
2.43.0


From 7f464d153a83f5a3a14c8339a39c4ac0ace4ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 038/155] fix: read the reward of the outcome in the CGP
 evaluator

---
 skdecide/hub/solver/cgp/cgp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index ae76a84..2d4cfc2 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -314,8 +314,9 @@ class SkDecideEvaluator(Evaluator):
             while not end and step < self.it_max:
                 actions = denorm(cgp.run(norm_and_flatten(states, self.domain.get_observation_space().unwrapped())),
                                  self.domain.get_action_space().unwrapped())
-                states, transition_value, end, _ = self.domain.step(actions).astuple()
-                reward = transition_value[0]  # TODO: correct Gym wrapper
+                outcome = self.domain.step(actions)
+                states, end = outcome.observation, outcome.termination
+                reward = outcome.value.reward
 
                 if verbose:
                     print(states, '=>', actions)
-- 
2.43.0


From 5bee96740cca291fbe3a97b820ad696f2ea9d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 039/155] fix: CGP load signature

---
 skdecide/hub/solver/cgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/cgp.py b/skdecide/hub/solver/cgp/cgp.py
index 2d4cfc2..e4e9543 100755
--- a/skdecide/hub/solver/cgp/cgp.py
+++ b/skdecide/hub/solver/cgp/cgp.py
@@ -255,7 +255,7 @@ class CGPWrapper(Solver, DeterministicPolicies, Restorable):
     def _save(self, path: str) -> None:
         pass  # TODO
 
-    def _load(self, path: str) -> None:
+    def _load(self, path: str, domain_factory: Callable[[], D]) -> None:
         pass  # TODO
 
     def _get_default_function_lib(self):
-- 
2.43.0


From 4fc928afe1502d53688a66fd30f7b87eb7dd0775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 040/155] fix: integer genes with current NumPy

---
 skdecide/hub/solver/cgp/pycgp/cgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/cgp/pycgp/cgp.py b/skdecide/hub/solver/cgp/pycgp/cgp.py
index 9ba477c..5b83c89 100644
--- a/skdecide/hub/solver/cgp/pycgp/cgp.py
+++ b/skdecide/hub/solver/cgp/pycgp/cgp.py
@@ -37,7 +37,7 @@ class CGP:
 		self.to_evaluate = np.zeros(self.max_graph_length, dtype=bool)
 		self.node_output = np.zeros(self.max_graph_length + self.num_inputs, dtype=np.float64)
 		self.nodes_used = []
-		self.output_genes = np.zeros(self.num_outputs, dtype=np.int)
+		self.output_genes = np.zeros(self.num_outputs, dtype=int)
 		self.nodes = np.empty(0, dtype=self.CGPNode)
 		for i in range(0, self.num_outputs):
 			self.output_genes[i] = self.genome[len(self.genome)-self.num_outputs+i]
-- 
2.43.0


From 8df7bdaef7c35aa66a25530bc07dd1f707f3d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 041/155] fix: claim a free parallel domain atomically

---
 skdecide/domains.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skdecide/domains.py b/skdecide/domains.py
index 09996ab..9be7356 100644
--- a/skdecide/domains.py
+++ b/skdecide/domains.py
@@ -419,10 +419,11 @@ class ParallelDomain:
     def wake_up_domain(self, i=None):
         if i is None:
             while True:
-                for j, v in enumerate(self._active_domains):
-                    if not v:
-                        self._active_domains[j] = True
-                        return j
+                with self._active_domains.get_lock():
+                    for j, v in enumerate(self._active_domains):
+                        if not v:
+                            self._active_domains[j] = True
+                            return j
         else:
             self._active_domains[i] = True
             return i
-- 
2.43.0


From 27e22177392075dd18fca1e0a34350061cc0ba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 042/155] fix: the current state of a history is its latest one

---
 skdecide/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/core.py b/skdecide/core.py
index d705e37..f2e31f1 100644
--- a/skdecide/core.py
+++ b/skdecide/core.py
@@ -561,7 +561,7 @@ class BoundConstraint(Constraint[D.T_memory, D.T_event, D.T_state]):
 
 # (auto)cast-related objects/functions
 cast_dict = {
-    (Memory, Union): lambda obj, src, dst: cast(obj[0], src[0], dst[0]),
+    (Memory, Union): lambda obj, src, dst: cast(obj[-1], src[0], dst[0]),
     (Union, Memory): lambda obj, src, dst: Memory([cast(obj, src[0], dst[0])]),
     (Memory, Memory): lambda obj, src, dst: Memory([cast(x, src[0], dst[0]) for x in obj]),
     (StrDict, Union): lambda obj, src, dst: cast(next(iter(obj.values())), src[0], dst[0]),
-- 
2.43.0


From 43653d39aac0a463e4d29a54403b740143849f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 043/155] fix: keep the probability of each state when
 completing tasks

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2557166..f1078a7 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -360,7 +360,7 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
 
         states_and_proba = []
-        for next_state, _ in next_states.get_values():
+        for next_state, state_proba in next_states.get_values():
             completed_tmp = []
             for task_id in next_state.tasks_ongoing:
                 if next_state.tasks_progress[task_id] >= 0.9999:
@@ -400,7 +400,7 @@ class SchedulingDomain(WithPrecedence,
             for comb in combinations:
                 do_copy = len(comb) > 0
                 next_state_2 = next_state.copy() if do_copy else next_state
-                proba = 1.
+                proba = state_proba
                 for i in comb:
                     next_state_2._current_conditions.add(all_values[i]['cond'])
                     proba *= all_values[i]['prob']
-- 
2.43.0


From 9a7b55e72ab0d4c21f2463cbe3f57474bddbdcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 044/155] fix: draw one condition from each completion
 distribution of a task

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index f1078a7..de924cf 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -379,15 +379,15 @@ class SchedulingDomain(WithPrecedence,
                 next_state.resource_used_for_task.pop(completed_task)
                 next_state.tasks_details[completed_task].end = next_state.t+1  # WARNING : considering how it's coded, we should put +1 here.
                 if completed_task in self.get_task_on_completion_added_conditions():
-                    all_models[completed_task] = []
                     for i in range(len(self.get_task_on_completion_added_conditions()[completed_task])):
+                        all_models[(completed_task, i)] = []
                         for j in range(len(self.get_task_on_completion_added_conditions()[completed_task][i].get_values())):
                             all_values.append({'task': completed_task,
                                                'cond': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][0],
                                                'prob': self.get_task_on_completion_added_conditions()[completed_task][i]
                                               .get_values()[j][1]})
-                            all_models[completed_task].append(len(all_values)-1)
+                            all_models[(completed_task, i)].append(len(all_values)-1)
 
             combinations = list(product(*all_models.values()))
             # for comb in combinations:
-- 
2.43.0


From f9145d7a74a7b9cd3978caf484b7470c58e6d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 045/155] fix: release the renewable resources of tasks
 completed immediately

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index de924cf..afaf333 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -425,6 +425,9 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_progress[task] = 1
                 next_state.tasks_ongoing.remove(task)
                 next_state.tasks_details[task].end = next_state.t
+                for res, res_consumption in next_state.resource_used_for_task[task].items():
+                    if self.is_renewable(res):
+                        next_state.resource_used[res] -= res_consumption
                 next_state.resource_used_for_task.pop(task)
         return next_state
 
@@ -440,6 +443,9 @@ class SchedulingDomain(WithPrecedence,
                     next_state.tasks_progress[task] = 1
                     next_state.tasks_ongoing.remove(task)
                     next_state.tasks_details[task].end = next_state.t
+                    for res, res_consumption in next_state.resource_used_for_task[task].items():
+                        if self.is_renewable(res):
+                            next_state.resource_used[res] -= res_consumption
                     next_state.resource_used_for_task.pop(task)
         return next_states
 
-- 
2.43.0


From 105667b6aa52d65243c3fd132255792ecfb6b3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 046/155] fix: active time of a paused task

---
 skdecide/builders/scheduling/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/task.py b/skdecide/builders/scheduling/task.py
index c86d367..0e0f6ec 100644
--- a/skdecide/builders/scheduling/task.py
+++ b/skdecide/builders/scheduling/task.py
@@ -41,7 +41,7 @@ class Task:
         time_since_start = tt - self.start
         time_paused = 0
         for i in range(len(self.paused)):
-            time_paused += self.resumed[i] - self.paused[i]
+            time_paused += (self.resumed[i] if i < len(self.resumed) else tt) - self.paused[i]
         total_active_time = time_since_start - time_paused
         return total_active_time
 
-- 
2.43.0


From 3c253330c027a51f727f8880b00eb904ff81c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:15 +0000
Subject: [PATCH 047/155] fix: leave a task paused when it cannot be resumed

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index afaf333..0619097 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -494,13 +494,13 @@ class SchedulingDomain(WithPrecedence,
             mode = action.mode  # use mode specified in action if any
             if mode is None:
                 mode = state.tasks_mode[resumed_task]  # or use previous mode
-            next_state.tasks_ongoing.add(resumed_task)
-            next_state.tasks_paused.remove(resumed_task)
-            next_state.tasks_details[resumed_task].resumed.append(next_state.t) # Need to call this before get_task_active_time()
             time_since_start = next_state.tasks_details[resumed_task].get_task_active_time(next_state.t)
             b, resource_to_use = self.check_if_action_can_be_started(next_state, action=action)
             if not b:
                 return next_state
+            next_state.tasks_ongoing.add(resumed_task)
+            next_state.tasks_paused.remove(resumed_task)
+            next_state.tasks_details[resumed_task].resumed.append(next_state.t)
             for res in resource_to_use:
                 next_state.resource_used[res] += resource_to_use[res]
             next_state.resource_used_for_task[resumed_task] = resource_to_use
-- 
2.43.0


From af8a4d2a0f858434edc487090851580a4436325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 048/155] fix: cost of non-renewable resources of a scheduling
 transition

---
 skdecide/builders/scheduling/scheduling_domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 0619097..c60f1fe 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -790,14 +790,14 @@ class SchedulingDomain(WithPrecedence,
                 if self.is_renewable(res):
                     renewable_type_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_type_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             renewable_unit_cost_val = 0.
             nonrenewable_unit_cost_val = 0.
             for res in self.get_resource_units_names():
                 if self.is_renewable(res):
                     renewable_unit_cost_val += self.get_resource_cost_per_time_unit()[res] * next_state.resource_used[res]
                 else:
-                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory[-1].resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
+                    nonrenewable_unit_cost_val += (next_state.resource_used[res] - memory.resource_used[res])  # res used not decreased for NR resources so need to compute difference from previous state
             transition_cost = mode_cost_val + renewable_type_cost_val + nonrenewable_type_cost_val + renewable_unit_cost_val + nonrenewable_unit_cost_val
 
         # TODO: Handle more than 1 objective in the transition value (need weights ?)
-- 
2.43.0


From 9ac667963760b30e3407952d6928da4ec17226ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 049/155] fix: look up by task whether pausing returns
 non-renewable resources

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index c60f1fe..7576f2c 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -466,7 +466,7 @@ class SchedulingDomain(WithPrecedence,
             for res in next_state.resource_used_for_task[paused_task]:
                 res_consumption = next_state.resource_used_for_task[paused_task][res]
                 if self.is_renewable(res) or (not self.is_renewable(res)
-                                              and self.get_task_paused_non_renewable_resource_returned()[res]):
+                                              and self.get_task_paused_non_renewable_resource_returned()[paused_task]):
                     next_state.resource_used[res] -= res_consumption
             next_state.resource_used_for_task.pop(paused_task)
             next_state.tasks_details[paused_task].paused.append(next_state.t)
-- 
2.43.0


From a130305094e110771bba795027887f77076f5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 050/155] fix: do not share the resources of a started task
 between outcomes

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 7576f2c..cbc744b 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -590,7 +590,7 @@ class SchedulingDomain(WithPrecedence,
             next_state.tasks_ongoing.add(started_task)
             next_state.tasks_remaining.remove(started_task)
             next_state.tasks_details[started_task].start = next_state.t
-            next_state.tasks_details[started_task].resources = resource_to_use
+            next_state.tasks_details[started_task].resources = dict(resource_to_use)
             next_state.tasks_details[started_task].sampled_duration = \
                 self.get_latest_sampled_duration(task=started_task, mode=mode, progress_from=0.)  # TODO: what to do with this, so far the sample is stored and then used by get_task_progress()
             for res in resource_to_use:
@@ -622,10 +622,11 @@ class SchedulingDomain(WithPrecedence,
                 next_state.tasks_ongoing.add(started_task)
                 next_state.tasks_remaining.remove(started_task)
                 next_state.tasks_details[started_task].start = next_state.t
+                next_state.tasks_details[started_task].resources = dict(resource_to_use)
                 next_state.tasks_details[started_task].sampled_duration = value_duration[0]
                 for res in resource_to_use:
                     next_state.resource_used[res] += resource_to_use[res]
-                next_state.resource_used_for_task[started_task] = resource_to_use
+                next_state.resource_used_for_task[started_task] = dict(resource_to_use)
                 next_state.tasks_progress[started_task] = 0.
 
                 states_and_proba += [(next_state, value_duration[1])]
-- 
2.43.0


From 152eb07774fa097d652d80f4f05603a8aff5ddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 051/155] fix: offer every possible mode of a task

---
 skdecide/builders/scheduling/scheduling_domains.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index cbc744b..a81f249 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -679,8 +679,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def get_possible_resume_tasks(self, state: State):
         possible_task_precedence = [(n, mode)
@@ -698,8 +700,10 @@ class SchedulingDomain(WithPrecedence,
                                                                           time=state.t) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
-        return {n: {mode: self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)}
-                for n, mode in possible_task_with_ressource}
+        possible_tasks = {}
+        for n, mode in possible_task_with_ressource:
+            possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
+        return possible_tasks
 
     def state_is_overconsuming(self, state: State):
         return any(state.resource_used[k] > state.resource_availability[k] for k in state.resource_used)
-- 
2.43.0


From d6d3d38cdfee16033f3906586e9f53dc2e7a9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 052/155] fix: resource need of a task at its own elapsed time

---
 skdecide/builders/scheduling/scheduling_domains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index a81f249..5df6fea 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -676,7 +676,7 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=0) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_tasks = {}
@@ -697,7 +697,8 @@ class SchedulingDomain(WithPrecedence,
                                                state.resource_used[key] -
                                                self.get_task_modes(n)[mode]
                                                .get_resource_need_at_time(resource_name=key,
-                                                                          time=state.t) >= 0
+                                                                          time=state.tasks_details[n]
+                                                                          .get_task_active_time(state.t)) >= 0
                                                for key in self.get_resource_types_names())]
         # print("Possible task with ressource : ", possible_task_with_ressource)
         possible_tasks = {}
-- 
2.43.0


From fffa19c9084e5eff2520140b6cdeb75cf9d4e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 053/155] fix: resume a task in its previous mode when none is
 given

---
 skdecide/builders/scheduling/scheduling_domains.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 5df6fea..402d3d7 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -548,8 +548,11 @@ class SchedulingDomain(WithPrecedence,
         if not action.action == SchedulingActionEnum.START and not action.action == SchedulingActionEnum.RESUME:
             return True, {}
         started_task = action.task
+        mode = action.mode
+        if mode is None:
+            mode = state.tasks_mode[started_task]  # resume in the previous mode
         resource_to_use = self.get_resource_used(task=started_task,
-                                                 mode=action.mode,
+                                                 mode=mode,
                                                  resource_unit_names=action.resource_unit_names,
                                                  time_since_start=
                                                  state.tasks_details[started_task].get_task_active_time(state.t))
@@ -558,7 +561,7 @@ class SchedulingDomain(WithPrecedence,
                for r in resource_to_use):
             return False, resource_to_use
         b = self.check_if_skills_are_fulfilled(task=started_task,
-                                               mode=action.mode,
+                                               mode=mode,
                                                resource_used=resource_to_use)
         return b, resource_to_use
 
-- 
2.43.0


From bbae297ea59c85b0c348d2f5fbeda6c5e37b9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 054/155] fix: offer resuming of paused tasks with resource
 units as such

---
 skdecide/builders/scheduling/scheduling_domains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 402d3d7..7e4f0cf 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -1004,7 +1004,7 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                                                              self.state.tasks_mode[possible_to_resume])
 
                     list_action += [SchedulingAction(task=possible_to_resume,
-                                                     action=SchedulingActionEnum.START,
+                                                     action=SchedulingActionEnum.RESUME,
                                                      mode=self.state.tasks_mode[possible_to_resume],
                                                      time_progress=False,
                                                      resource_unit_names={r} if r is not None else None)
-- 
2.43.0


From e0273cf6b83834feb0e870e499ab84ed1e7aac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 055/155] fix: build minimum only time lags

---
 skdecide/builders/scheduling/time_lag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/scheduling/time_lag.py b/skdecide/builders/scheduling/time_lag.py
index 83e71d8..c40f1d3 100644
--- a/skdecide/builders/scheduling/time_lag.py
+++ b/skdecide/builders/scheduling/time_lag.py
@@ -17,7 +17,7 @@ class MinimumOnlyTimeLag(TimeLag):
 
     def __init__(self, minimum_time_lag):
         self.minimum_time_lag = minimum_time_lag
-        self.maximum_time_lags = self.get_max_horizon()
+        self.maximum_time_lags = float("inf")
 
 
 class MaximumOnlyTimeLag(TimeLag):
-- 
2.43.0


From 45593e7056ba659faa59ebf8609ae7759486a075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 056/155] fix: tasks consume no resource beyond their
 completion

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 7e4f0cf..2a62177 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -234,8 +234,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress(next_state)
-            next_state = self.update_res_consumption(next_state)
             next_state = self.update_complete_tasks(next_state)
+            next_state = self.update_res_consumption(next_state)
             next_state.t = state.t+1
         return next_state
 
@@ -244,8 +244,8 @@ class SchedulingDomain(WithPrecedence,
         next_states = DiscreteDistribution([(state, prob) for (state, prob) in states.get_values()])
         if action.time_progress:
             next_states = self.update_progress_uncertain(next_states)
-            next_states = self.update_res_consumption_uncertain(next_states)
             next_states = self.update_complete_tasks_uncertain(next_states)
+            next_states = self.update_res_consumption_uncertain(next_states)
             for next_state, _ in next_states.get_values():
                 next_state.t = next_state.t+1
         return next_states
@@ -256,8 +256,8 @@ class SchedulingDomain(WithPrecedence,
         next_state = state #.copy()
         if action.time_progress:
             next_state = self.update_progress_simulation(next_state)
-            next_state = self.update_res_consumption_simulation(next_state)
             next_state = self.update_complete_tasks_simulation(next_state)
+            next_state = self.update_res_consumption_simulation(next_state)
             next_state.t = state.t+1
         return next_state
 
-- 
2.43.0


From bf5ca14cd15bf5fa60eb1a50a7d5f49f8b4061ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 057/155] fix: offer to resume exactly the tasks that can be

---
 skdecide/builders/scheduling/scheduling_domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index 2a62177..ac70563 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -692,7 +692,7 @@ class SchedulingDomain(WithPrecedence,
                                     for n in state.tasks_paused
                                     for mode in self.get_task_modes(n).keys()
                                     if all(m in state.tasks_complete
-                                           for m in self.ancestors[n])]
+                                           for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state)))]
         # print("Possible task precedence : ", possible_task_precedence)
         possible_task_with_ressource = [(n, mode)
                                         for n, mode in possible_task_precedence
@@ -934,7 +934,9 @@ class SchedulingActionSpace(EnumerableSpace[SchedulingAction], SamplableSpace[Sc
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                modes_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
+                task_possible_to_resume = [t for t in self.state.tasks_paused
+                                           if self.state.tasks_mode[t] in modes_possible_to_resume.get(t, {})]
                 list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME,
                                                  mode=self.state.tasks_mode[t],
                                                  time_progress=False)
-- 
2.43.0


From dad6104e13f59631ceb72b6ed314f372cd32c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 058/155] fix: task durations from the given progress

---
 skdecide/builders/scheduling/task_duration.py | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/scheduling/task_duration.py b/skdecide/builders/scheduling/task_duration.py
index b42e9d2..531eb1b 100644
--- a/skdecide/builders/scheduling/task_duration.py
+++ b/skdecide/builders/scheduling/task_duration.py
@@ -44,7 +44,7 @@ class UncertainMultivariateTaskDuration(SimulatedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying multiivariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                        multivariate_settings: Optional[Dict[str, int]] = None) -> Distribution:
@@ -65,7 +65,7 @@ class UncertainUnivariateTaskDuration(UncertainMultivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1,
                                         progress_from: Optional[float]=0.,
@@ -81,7 +81,7 @@ class UncertainBoundedTaskDuration(UncertainUnivariateTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -113,14 +113,14 @@ class UniformBoundedTaskDuration(UncertainBoundedTaskDuration):
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode,
         sampled from the underlying univariate uniform bounded distribution."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
         """Return the Distribution of the duration of the given task in the given mode.
         The distribution is uniform between the defined lower and upper bounds."""
-        lb = self.get_task_duration_lower_bound(task, mode)
-        ub = self.get_task_duration_upper_bound(task, mode)
+        lb = self.get_task_duration_lower_bound(task, mode, progress_from)
+        ub = self.get_task_duration_upper_bound(task, mode, progress_from)
         n_vals = ub - lb + 1
         p = 1.0 / float(n_vals)
         values = [(x, p) for x in range(lb, ub+1)]
@@ -140,7 +140,7 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _sample_task_duration(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return a task duration for the given task in the given mode."""
-        return self.get_task_duration_distribution(task, mode).sample()
+        return self.get_task_duration_distribution(task, mode, progress_from).sample()
 
     def _get_task_duration_distribution(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.,
                                         multivariate_settings: Optional[Dict[str, int]] = None) -> DiscreteDistribution:
@@ -150,12 +150,12 @@ class EnumerableTaskDuration(UncertainBoundedTaskDuration):
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return max(duration_vals)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode).get_values()]
+        duration_vals = [x[0] for x in self.get_task_duration_distribution(task, mode, progress_from).get_values()]
         return min(duration_vals)
 
 
@@ -178,12 +178,12 @@ class DeterministicTaskDuration(EnumerableTaskDuration):
                                         multivariate_settings: Optional[Dict[str, int]] = None):
         """Return the Distribution of the duration of the given task in the given mode.
         Because the duration is deterministic, the distribution always returns the same duration."""
-        return DiscreteDistribution([(self.get_task_duration(task, mode), 1)])
+        return DiscreteDistribution([(self.get_task_duration(task, mode, progress_from), 1)])
 
     def _get_task_duration_upper_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the upper bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
 
     def _get_task_duration_lower_bound(self, task: int, mode: Optional[int] = 1, progress_from: Optional[float]=0.) -> int:
         """Return the lower bound for the task duration of the given task in the given mode."""
-        return self.get_task_duration(task, mode)
+        return self.get_task_duration(task, mode, progress_from)
-- 
2.43.0


From 3e649eb3a3b31aaaff1bbf0e26e11d0760285307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 059/155] fix: the learned policy is queried with unwrapped
 observations, as in training

---
 skdecide/hub/solver/stable_baselines/stable_baselines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/stable_baselines/stable_baselines.py b/skdecide/hub/solver/stable_baselines/stable_baselines.py
index dc2914b..18eb3e6 100644
--- a/skdecide/hub/solver/stable_baselines/stable_baselines.py
+++ b/skdecide/hub/solver/stable_baselines/stable_baselines.py
@@ -55,7 +55,7 @@ class StableBaseline(Solver, Policies, Restorable):
         self._algo.learn(**self._learn_config)
 
     def _sample_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
-        action, _ = self._algo.predict(observation)
+        action, _ = self._algo.predict(self._unwrap_obs(observation))
         return self._wrap_action(action)
 
     def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
@@ -70,3 +70,4 @@ class StableBaseline(Solver, Policies, Restorable):
 
     def _init_algo(self, domain: D):
         self._wrap_action = lambda a: next(iter(domain.get_action_space().from_unwrapped([a])))
+        self._unwrap_obs = lambda o: next(iter(domain.get_observation_space().to_unwrapped([o])))
-- 
2.43.0


From 0649b5ee03fb2fa333d767d7beecca52d4a7c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 060/155] fix: the hill climber's results are ranked in the
 sense it optimised

---
 .../discrete_optimization/generic_tools/ls/hill_climber.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index 0944e6f..dbfe941 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -39,12 +39,14 @@ class HillClimber:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         cur_best_variable = initial_variable.copy()
@@ -125,6 +127,7 @@ class HillClimberPareto(HillClimber):
         pareto_front = ParetoFront(list_solution_fits=
                                    [(initial_variable, objective)],
                                    best_solution=initial_variable.copy(),
+                                   mode_optim=self.mode_optim,
                                    limit_store=True,
                                    nb_best_store=1000)
         cur_variable = initial_variable.copy()
-- 
2.43.0


From a1514873d8df53eef8739cbd2e8102ab4cb8c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 061/155] fix: simulated annealing's results are ranked in the
 sense it optimised

---
 .../generic_tools/ls/simulated_annealing.py                     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index fed5413..c07e46a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -55,12 +55,14 @@ class SimulatedAnnealing:
         if self.store_solution:
             store = ResultStorage(list_solution_fits=[(initial_variable, objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1000)
         else:
             store = ResultStorage(list_solution_fits=[(initial_variable,
                                                        objective)],
                                   best_solution=initial_variable.copy(),
+                                  mode_optim=self.mode_optim,
                                   limit_store=True,
                                   nb_best_store=1)
         self.restart_handler.best_fitness = objective
-- 
2.43.0


From e37cc3c4354db303ec4019649f1872824d6893e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 062/155] fix: the hill climber records solutions as they were
 evaluated

Moves are undone in place, so a rejected solution was recorded as the one
before the move, and later moves changed the solutions already recorded.
---
 .../discrete_optimization/generic_tools/ls/hill_climber.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
index dbfe941..105a1a1 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/hill_climber.py
@@ -72,20 +72,20 @@ class HillClimber:
                 accept = True 
                 local_improvement = True
                 global_improvement = objective > cur_best_objective
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
             else:
                 cur_variable = move.backtrack_local_move(nv)
-            if self.store_solution:
-                store.add_solution(nv, objective)
             if global_improvement: 
                 print("iter ", iteration)
                 print("new obj ", objective, " better than ", cur_best_objective)
                 cur_best_objective = objective
                 cur_best_variable = cur_variable.copy()
                 if not self.store_solution:
-                    store.add_solution(cur_variable, objective)
+                    store.add_solution(cur_variable.copy(), objective)
             # Update the temperature
             self.restart_handler.update(nv, objective, 
                                         global_improvement,
-- 
2.43.0


From 0f7c9f38376a3158539944c03ccbf24f6a209790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 063/155] fix: simulated annealing records solutions as they
 were evaluated

Rejected moves are undone in place, so the recorded solution was the one
before the move with the objective of the one after it.
---
 .../generic_tools/ls/simulated_annealing.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
index c07e46a..330604a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ls/simulated_annealing.py
@@ -91,6 +91,8 @@ class SimulatedAnnealing:
                 p = math.exp(fac*(objective-cur_objective)/self.temperature_handler.temperature)
                 accept = p > r
                 local_move_accepted = accept
+            if self.store_solution:
+                store.add_solution(nv.copy(), objective)
             if accept:
                 cur_objective = objective
                 cur_variable = nv
@@ -100,8 +102,6 @@ class SimulatedAnnealing:
                 cur_variable = move.backtrack_local_move(nv)
                 # print(move)
                 # print("cur_variable", cur_variable)
-            if self.store_solution:
-                store.add_solution(nv.copy(), objective)
             if global_improvement: 
                 print("iter ", iteration)
                 # print(cur_variable)
-- 
2.43.0


From 026477e9a6a35f78192b0113425f35ecb254a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 064/155] fix: undo swaps in the reverse order

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index fd85ef7..1befb6a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -146,7 +146,7 @@ class SwapsLocalMove(LocalMove):
 
     def backtrack_local_move(self, solution: Solution) -> Solution:
         current = getattr(solution, self.attribute)
-        for i1, i2 in self.list_index_swap:
+        for i1, i2 in self.list_index_swap[::-1]:
             v1, v2 = current[i1], current[i2]
             current[i1], current[i2] = v2, v1
         return solution
-- 
2.43.0


From 9762dcc465f7776b7f7d4b6b16c4f0cbf5cd20b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 065/155] fix: swaps may also move the last position

---
 .../generic_tools/mutations/permutation_mutations.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
index 1befb6a..ad64442 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/permutation_mutations.py
@@ -178,7 +178,7 @@ class PermutationSwap(Mutation):
         self.length = len(self.register.dict_attribute_to_type[self.attribute]["range"])
 
     def mutate(self, solution: Solution)->Tuple[Solution, LocalMove]:
-        swaps = np.random.randint(low=0, high=self.length-1, size=(self.nb_swap, 2))
+        swaps = np.random.randint(low=0, high=self.length, size=(self.nb_swap, 2))
         move = SwapsLocalMove(self.attribute, [(swaps[i, 0], swaps[i, 1]) for i in range(self.nb_swap)])
         next_sol = move.apply_local_move(solution)
         return (next_sol, move)
-- 
2.43.0


From 09bd947bf6cfb7a6862dbfebe4095c463e08f1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:22 +0000
Subject: [PATCH 066/155] fix: the merged pareto front keeps the sense of the
 merged results

---
 .../generic_tools/result_storage/resultcomparator.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
index dd488a5..db93e63 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/resultcomparator.py
@@ -89,7 +89,8 @@ class ResultComparator:
         for rs in self.list_result_storage:
             for s in rs.list_solution_fits:
                 sols.append(s)
-        rs = ResultStorage(list_solution_fits=sols, best_solution=None)
+        rs = ResultStorage(list_solution_fits=sols, best_solution=None,
+                           mode_optim=self.list_result_storage[0].mode_optim)
         # print('len(rs): ', len(rs.list_solution_fits))
         pareto_store = result_storage_to_pareto_front(result_storage=rs, problem=None)
         # print('len(pareto_store): ', len(pareto_store.list_solution_fits))
-- 
2.43.0


From 60b979db010dad68c2622ae82ce89208288ea79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 067/155] fix: a solution can be added to an empty result
 storage

---
 .../generic_tools/result_storage/result_storage.py           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
index 96f6dae..24f6a7a 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/result_storage/result_storage.py
@@ -53,6 +53,11 @@ class ResultStorage:
         if solution not in self.map_solutions:
             self.map_solutions[solution] = fitness
             self.list_solution_fits += [(solution, fitness)]
+        if len(self.heap) == 0:
+            self.min = fitness
+            self.max = fitness
+            if self.best_solution is None:
+                self.best_solution = solution
         if self.maximize and fitness > self.max \
                 or (not self.maximize and fitness < self.min):
             self.best_solution = solution
-- 
2.43.0


From 2f9fe6efbb31d10aae1d78271e00020b5f7527a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 068/155] fix: maximising neighbourhood searches start from the
 worst objective, not the best

---
 .../builders/discrete_optimization/generic_tools/lns_mip.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
index 866977e..e2c2121 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/lns_mip.py
@@ -87,7 +87,7 @@ class LNS_MILP(SolverDO):
             best_solution = init_solution.copy()
             best_objective = objective
         else:
-            best_objective = float('inf')
+            best_objective = float('inf') if sense == ModeOptim.MINIMIZATION else -float('inf')
             best_solution = None
             constraint_iterable = {"empty": []}
             store_lns = None
-- 
2.43.0


From 7fc4dc08d516acef704bd02478e0dea43fd8288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 069/155] fix: a mutated schedule is recomputed before its
 objective is

Swaps change the permutation in place, so the objective returned with the
mutated solution was the one of the schedule before the mutation.
---
 .../rcpsp/mutations/mutation_rcpsp.py                     | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py b/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py
index 2d78cb6..a8a1e12 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/mutations/mutation_rcpsp.py
@@ -29,11 +29,7 @@ class PermutationMutationRCPSP(Mutation):
         return s, lm
 
     def mutate_and_compute_obj(self, solution: Solution) -> Tuple[Solution, LocalMove, Dict[str, float]]:
-        s, lm, fit = self.other_mutation.mutate_and_compute_obj(solution)
-        try:
-            s._schedule_to_recompute = True
-            s.standardised_permutation = s.generate_permutation_from_schedule()
-        except:
-            pass
+        s, lm = self.mutate(solution)
+        fit = self.problem.evaluate(s)
         return s, lm, fit
 
-- 
2.43.0


From 66843e59f0752cc37b983a60e05c16b1ce91b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 070/155] fix: changing the modes of a solution makes its
 schedule be recomputed, as changing its permutation does

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 517d25b..79b45f1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -37,7 +37,6 @@ class RCPSPSolution(Solution):
         self.problem = problem
         self.rcpsp_permutation = rcpsp_permutation
         self.rcpsp_schedule = rcpsp_schedule
-        self._schedule_to_recompute = rcpsp_schedule is None
         self.rcpsp_modes = rcpsp_modes
         self.rcpsp_schedule_feasible = rcpsp_schedule_feasible
         self.standardised_permutation = standardised_permutation
@@ -49,6 +48,7 @@ class RCPSPSolution(Solution):
             else:
             # elif isinstance(self.problem, MultiModeRCPSPModel):
                 self.rcpsp_modes = self.problem.fixed_modes
+        self._schedule_to_recompute = rcpsp_schedule is None
 
         if self.rcpsp_permutation is None:
             if isinstance(self.problem, MultiModeRCPSPModel):
@@ -75,7 +75,7 @@ class RCPSPSolution(Solution):
 
     def __setattr__(self, key, value):
         super.__setattr__(self, key, value)
-        if key == "rcpsp_permutation":
+        if key in ("rcpsp_permutation", "rcpsp_modes"):
             self._schedule_to_recompute = True
 
     def copy(self):
-- 
2.43.0


From cc99820cd7b87a14f9efd71a388a90fd63e79c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 071/155] fix: copies of scheduling models keep the names of
 their tasks

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 79b45f1..04103b4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -664,7 +664,8 @@ class RCPSPModel(Problem):
                           mode_details=deepcopy(self.mode_details),
                           successors=deepcopy(self.successors),
                           horizon=self.horizon,
-                          horizon_multiplier=self.horizon_multiplier)
+                          horizon_multiplier=self.horizon_multiplier,
+                          name_task=self.name_task)
 
     def get_dummy_solution(self):
         sol = RCPSPSolution(problem=self,
@@ -716,6 +717,7 @@ class RCPSPModelCalendar(RCPSPModel):
                                   successors=deepcopy(self.successors),
                                   horizon=self.horizon,
                                   horizon_multiplier=self.horizon_multiplier,
+                                  name_task=self.name_task,
                                   calendar_details=deepcopy(self.calendar_details),
                                   name_ressource_to_index=self.name_ressource_to_index)
 
-- 
2.43.0


From 8658cd9582533bdef97eaca09c3671d8e5c892ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:06 +0000
Subject: [PATCH 072/155] fix: multi-mode models with helper activities start
 without fixed modes and permutation

---
 .../discrete_optimization/rcpsp/rcpsp_model.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 04103b4..20f6564 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -1196,13 +1196,13 @@ class MRCPSP_H_Model(MultiModeRCPSPModel):
                  pre_helper_activities: Dict,
                  post_helper_activities: Dict
                  ):
-        RCPSPModel.__init__(self, resources=base_rcpsp_model.resources,
-                            non_renewable_resources=base_rcpsp_model.non_renewable_resources,
-                            mode_details=base_rcpsp_model.mode_details,
-                            successors=base_rcpsp_model.successors,
-                            horizon=base_rcpsp_model.horizon,
-                            horizon_multiplier=base_rcpsp_model.horizon_multiplier,
-                            )
+        MultiModeRCPSPModel.__init__(self, resources=base_rcpsp_model.resources,
+                                     non_renewable_resources=base_rcpsp_model.non_renewable_resources,
+                                     mode_details=base_rcpsp_model.mode_details,
+                                     successors=base_rcpsp_model.successors,
+                                     horizon=base_rcpsp_model.horizon,
+                                     horizon_multiplier=base_rcpsp_model.horizon_multiplier,
+                                     )
         self.pre_helper_activities = pre_helper_activities
         self.post_helper_activities = post_helper_activities
 
-- 
2.43.0


From 6a27ae6209ff243c3af89f25aac3845a722d4cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 073/155] fix: consumed non-renewable resources stay consumed
 in the mean resource reserve

---
 skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index 20f6564..bb187b9 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -135,8 +135,8 @@ class RCPSPSolution(Solution):
                 for t in range(start_time, end_time):
                     for res in resource_avail_in_time.keys():
                         resource_avail_in_time[res][t] -= self.problem.mode_details[act_id][mode][res]  # 17
-                        if res in self.problem.non_renewable_resources and t == end_time:
-                            for tt in range(end_time + 1, makespan):
+                        if res in self.problem.non_renewable_resources and t == end_time - 1:
+                            for tt in range(end_time, makespan):
                                 resource_avail_in_time[res][tt] -= \
                                 self.problem.mode_details[act_id][mode][res]
         # print('resource_avail_in_time: ', resource_avail_in_time)
-- 
2.43.0


From f3a03341eeaaab6e050c88ac78764e8c0fccbf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 074/155] fix: integer mutations stay below the arity in ga

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index e4d6414..cc55534 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -282,7 +282,8 @@ class Ga():
                 # print('DEAP-GA - self.arrity: ', self.arrity)
 
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=[arrity-1 for arrity in self.arrities],
+                                       indpb=self._mut_rate)
 
         # Choice of selection
         if self._selection_type == DeapSelection.SEL_TOURNAMENT:
-- 
2.43.0


From e0833d413785859538c0d9f39b75b71195e1c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 075/155] fix: custom encodings use their own arities in ga

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index cc55534..b5e2f60 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -143,7 +143,7 @@ class Ga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
-- 
2.43.0


From 922a9faca4822675d96fec5e11b7865740851bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 076/155] fix: integer mutations stay below the arity in nsga

---
 .../builders/discrete_optimization/generic_tools/ea/nsga.py    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index ca6deed..54519bb 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -245,7 +245,8 @@ class Nsga():
                 self._toolbox.register("mutate", tools.mutShuffleIndexes, indpb=self._mut_rate)  # Choice of mutation operator
             elif self._mutation == DeapMutation.MUT_UNIFORM_INT:
                 # self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrity-1, indpb=self._mut_rate)
-                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=self.arrities, indpb=self._mut_rate)
+                self._toolbox.register("mutate", tools.mutUniformInt, low=0, up=[arrity-1 for arrity in self.arrities],
+                                       indpb=self._mut_rate)
 
         # No choice of selection: In NSGA, only 1 selection: Non Dominated Sorted Selection
         self._toolbox.register("select", tools.selNSGA3, ref_points=ref_points)
-- 
2.43.0


From f3f74d162abd9d519343ab5256e73b89d7370ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 077/155] fix: custom encodings use their own arities in nsga

---
 .../builders/discrete_optimization/generic_tools/ea/nsga.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index 54519bb..2018a0d 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -117,7 +117,7 @@ class Nsga():
                     self.arrity = encoding['arrity']
                     self.arrities = [self.arrity for i in range(self.n)]
                 if 'arrities' in encoding.keys():
-                    self.arrities = register_solution.dict_attribute_to_type[self._encoding_name]['arrities']
+                    self.arrities = encoding['arrities']
             else:
                 print('Erroneous encoding provided as input (encoding name not matching encoding of problem or custom '
                       'definition not respecting encoding dict entry format, trying to use default one instead')
-- 
2.43.0


From df6c8062648338b53c141e02411dd85491b26f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 078/155] fix: the alternating GA goes through all its
 encodings

---
 .../discrete_optimization/generic_tools/ea/alternating_ga.py     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
index 72f3cab..48fc128 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/alternating_ga.py
@@ -84,6 +84,7 @@ class AlternatingGa():
 
             # TODO: implement function below (1 in rcpsp domains, 1 in rcpsp solutions)
             self.problem.set_fixed_attributes(self.encodings[current_encoding_index], tmp_sol)
+            current_encoding_index = (current_encoding_index + 1) % len(self.encodings)
 
         problem_sol = tmp_sol
 
-- 
2.43.0


From afa9300e8106156ec322d191ad9ff9bcbf6a2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 079/155] fix: the executed schedule reports the modes of its
 own tasks

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index 7cf9b4a..d10fb98 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -439,7 +439,7 @@ class Executor(PileSolverRCPSP):
         sol = RCPSPSolution(problem=self.rcpsp_model,
                             rcpsp_permutation=perm[:-1],
                             rcpsp_schedule=schedule,
-                            rcpsp_modes=[modes_dict[i+1]
+                            rcpsp_modes=[modes_dict[i+2]
                                          for i in range(self.n_jobs)],
                             rcpsp_schedule_feasible=True)
         result_storage = ResultStorage(list_solution_fits=[(sol,
-- 
2.43.0


From 874ce9674e9d12ca14357093dd5e997c541a8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 080/155] fix: integer arrays of the optimisation toolbox with
 current NumPy

---
 .../facility/solvers/facility_lp_solver.py                    | 2 +-
 .../generic_tools/mutations/mixed_mutation.py                 | 4 ++--
 .../discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py | 2 +-
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py        | 2 +-
 .../discrete_optimization/tsp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/ttp/ttp_parser.py     | 4 ++--
 .../discrete_optimization/vrp/solver/solver_ortools.py        | 2 +-
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py    | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 8218c0f..4f1a6fe 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -36,7 +36,7 @@ def prune_search_space(facility_problem: FacilityProblem,
     customers = facility_problem.customers
     nb_facilities = len(facilities)
     nb_customers = len(customers)
-    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=np.int)
+    matrix_fc_indicator = np.zeros((nb_facilities, nb_customers), dtype=int)
     matrix_fc_indicator[sorted_costs[:n_cheapest], :] = 2
     for c in range(nb_customers):
         matrix_fc_indicator[closest[:n_shortest, c], c] = 2
diff --git a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
index 85f5b64..24601b6 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/mutations/mixed_mutation.py
@@ -14,7 +14,7 @@ class BasicPortfolioMutation(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
         print(len(self.list_mutation), " mutation available")
 
     def mutate(self, solution: Solution):
@@ -35,7 +35,7 @@ class BasicPortfolioMutationTrack(Mutation):
         if isinstance(self.weight_mutation, list):
             self.weight_mutation = np.array(self.weight_mutation)
         self.weight_mutation = self.weight_mutation/np.sum(self.weight_mutation)
-        self.index_np = np.array(range(len(self.list_mutation)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_mutation)), dtype=int)
 
     def mutate(self, solution: Solution):
         choice = np.random.choice(self.index_np, 
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 72d0c43..321a643 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -172,7 +172,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index ed7ce34..675ad94 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -221,7 +221,7 @@ class ConstraintHandlerMix(ConstraintHandler):
         if isinstance(self.list_proba, list):
             self.list_proba = np.array(self.list_proba)
         self.list_proba = self.list_proba / np.sum(self.list_proba)
-        self.index_np = np.array(range(len(self.list_proba)), dtype=np.int)
+        self.index_np = np.array(range(len(self.list_proba)), dtype=int)
         self.current_iteration = 0
         self.status = {i: {"nb_usage": 0, "nb_improvement": 0} for i in range(len(self.list_params))}
         self.last_index_param = None
diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 73e4741..83e7816 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(np.int))
+            distance_matrix = (10**6*matrix.astype(int))
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
diff --git a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
index ff50f4c..681b633 100644
--- a/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
+++ b/skdecide/builders/discrete_optimization/ttp/ttp_parser.py
@@ -72,7 +72,7 @@ def parse(file_path)->TTPModel:
                 edgeWeightType = line[0]
             elif line.startswith("NODE_COORD_SECTION"):
                 nodes = []
-                nodes_array = np.zeros((numberOfNodes, 3), dtype=np.int)
+                nodes_array = np.zeros((numberOfNodes, 3), dtype=int)
                 for i in range(numberOfNodes):
                     line = fp.readline()
                     line = line.split()
@@ -88,7 +88,7 @@ def parse(file_path)->TTPModel:
                     nodes += [n]
             elif line.startswith("ITEMS SECTION"):
                 items = []
-                items_array = np.zeros((numberOfItems, 4), dtype=np.int)
+                items_array = np.zeros((numberOfItems, 4), dtype=int)
                 for j in range(numberOfItems):
                     line = fp.readline()
                     line = line.split()
diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index d112d0c..50a137e 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -126,7 +126,7 @@ class VrpORToolsSolver(SolverDO):
         first_solution_strategy = first_solution_map[first_solution_strategy]
         local_search_metaheuristic = metaheuristic_map[local_search_metaheuristic]
         G, matrix_distance = build_graph(self.problem)
-        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=np.int)
+        matrix_distance_int = np.array(10 ** 5 * matrix_distance, dtype=int)
         demands = [self.problem.customers[i].demand for i in range(self.problem.customer_count)]
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.problem.customer_count,
diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index 22732c2..d7c1ae1 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -22,7 +22,7 @@ def compute_length_matrix(vrp_model: VrpProblem):
 def prune_search_space(vrp_model: VrpProblem,
                        n_shortest=10):
     closest, matrix_distance = compute_length_matrix(vrp_model)
-    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=np.int)
+    matrix_adjacency = np.zeros(matrix_distance.shape, dtype=int)
     nb_customers = vrp_model.customer_count
     if n_shortest < nb_customers:
         for c in range(matrix_adjacency.shape[0]):
-- 
2.43.0


From 6f1082f8e8572ffd68ba00ea8701f293c307d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 081/155] fix: copies of a modified schedule are recomputed as
 it would be

---
 .../rcpsp/rcpsp_model.py                      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index bb187b9..a492014 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -79,20 +79,24 @@ class RCPSPSolution(Solution):
             self._schedule_to_recompute = True
 
     def copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=deepcopy(self.rcpsp_permutation),
-                             rcpsp_modes=deepcopy(self.rcpsp_modes),
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=deepcopy(self.rcpsp_permutation),
+                            rcpsp_modes=deepcopy(self.rcpsp_modes),
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def lazy_copy(self):
-        return RCPSPSolution(problem=self.problem,
-                             rcpsp_permutation=self.rcpsp_permutation,
-                             rcpsp_modes=self.rcpsp_modes,
-                             rcpsp_schedule=self.rcpsp_schedule,
-                             rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
-                             standardised_permutation=self.standardised_permutation)
+        sol = RCPSPSolution(problem=self.problem,
+                            rcpsp_permutation=self.rcpsp_permutation,
+                            rcpsp_modes=self.rcpsp_modes,
+                            rcpsp_schedule=self.rcpsp_schedule,
+                            rcpsp_schedule_feasible=self.rcpsp_schedule_feasible,
+                            standardised_permutation=self.standardised_permutation)
+        sol._schedule_to_recompute = self._schedule_to_recompute
+        return sol
 
     def __str__(self):
         if self.rcpsp_schedule is None:
-- 
2.43.0


From c380cd87179225bc991a5daf5152351204da195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 082/155] fix: check the resources during the whole task when
 scheduling along time

---
 skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
index f49df65..eb5aedd 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cpm.py
@@ -326,7 +326,7 @@ class CPM(SolverDO):
                                                                                     if task
                                                                                     not in
                                                                                     self.predecessors_map[j]["succs"]]))]
-                                    break
+                                        break
                             if not valid:
                                 break
                         if valid:
-- 
2.43.0


From 18f8a98c0cd9b9b52328900b6cc96877cd5aca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 083/155] fix: all tasks started together are checked over
 their own duration

---
 .../discrete_optimization/rcpsp/solver/rcpsp_pile.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index d10fb98..f7c1e8c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -336,11 +336,12 @@ class PileSolverRCPSP_Calendar(SolverDO):
                 #          #"Current ressource available : ", current_ressource_available)
                 possible_activities = [n for n in available_activities
                                        if all(self.mode_details[n][self.modes_dict[n]][r]
-                                              <= current_ressource_available[r][time]
+                                              <= current_ressource_available[r][min(time,
+                                                                                    len(current_ressource_available[r])-1)]
                                               for r in current_ressource_available
                                               for time in range(current_time,
                                                                 current_time
-                                                                + self.mode_details[n][self.modes_dict[n]]["duration"]+1))]
+                                                                + self.mode_details[n][self.modes_dict[n]]["duration"]))]
             if len(queue) > 0:
                 current_time, activity, descr = pop(queue)
                 for neighbor in current_pred:
-- 
2.43.0


From 4f7c09429be9678d00148f84c8ae723bbd186f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 084/155] fix: leave the caller's priority list unchanged

---
 .../builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
index f7c1e8c..2a55d28 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_pile.py
@@ -398,7 +398,7 @@ class Executor(PileSolverRCPSP):
                 current_pred[neighbor]["nb"] -= 1
                 if current_pred[neighbor]["nb"] == 0:
                     available_activities.add(neighbor)
-        permutation_jobs.remove(1)
+        permutation_jobs = [j for j in permutation_jobs if j != 1]
         queue = []
         current_time = 0
         perm = []
-- 
2.43.0


From 425648a1ceea9ee3a121ea79d24683907d244fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 085/155] fix: partial schedules hold the time lags the solvers
 look for

---
 .../discrete_optimization/rcpsp/rcpsp_model.py         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index a492014..c0dc812 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -463,7 +463,11 @@ class PartialSolution:
                  start_times: Dict[int, int]=None,
                  end_times: Dict[int, int]=None,
                  partial_permutation: List[int]=None,
-                 list_partial_order: List[List[int]]=None):
+                 list_partial_order: List[List[int]]=None,
+                 start_together: List[Tuple[int, int]]=None,
+                 start_at_end: List[Tuple[int, int]]=None,
+                 start_at_end_plus_offset: List[Tuple[int, int, int]]=None,
+                 start_after_nunit: List[Tuple[int, int, int]]=None):
         self.task_mode = task_mode
         self.start_times = start_times
         self.end_times = end_times
@@ -471,6 +475,10 @@ class PartialSolution:
         self.list_partial_order = list_partial_order
         # one element in self.list_partial_order is a list [l1, l2, l3]
         # indicating that l1 should be started before l1, and  l2 before l3 for example
+        self.start_together = start_together if start_together is not None else []
+        self.start_at_end = start_at_end if start_at_end is not None else []
+        self.start_at_end_plus_offset = start_at_end_plus_offset if start_at_end_plus_offset is not None else []
+        self.start_after_nunit = start_after_nunit if start_after_nunit is not None else []
 
 
 class RCPSPModel(Problem):
-- 
2.43.0


From 556c8357208e44c425cf331b7c71fb8d6d85c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 086/155] fix: fix the modes of exactly the tasks whose mode is
 given

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index ffc5bde..53f84be 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -334,7 +334,7 @@ class CP_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -587,7 +587,7 @@ class CP_MRCPSP_MZN_NOBOOL(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
@@ -732,7 +732,7 @@ class CP_MRCPSP_MZN_MODES:
         if p_s is not None:
             constraint_strings = []
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From a67f4854a77d7d2eb45378a3d7d3d79f961ecb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 087/155] fix: sample the keys of a mapping as a list, as
 current Python requires

---
 .../discrete_optimization/knapsack/solvers/lp_solvers.py  | 4 ++--
 .../rcpsp/solver/rcpsp_cp_lns_solver.py                   | 4 ++--
 .../rcpsp/solver/rcpsp_lp_lns_solver.py                   | 8 ++++----
 .../rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py    | 4 ++--
 .../rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py    | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index 8145498..e39adb3 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -126,7 +126,7 @@ class LPKnapsackGurobi(SolverDO):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"].keys()),
                                               int(fraction_decision_fixed*len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize()
@@ -341,7 +341,7 @@ class LPKnapsack(MilpSolver):
             for c in constraints:
                 self.model.remove(constraints[c])
             self.add_init_solution(current_solution)
-            fixed_variable = set(random.sample(self.variable_decision["x"].keys(),
+            fixed_variable = set(random.sample(list(self.variable_decision["x"].keys()),
                                                int(fraction_decision_fixed * len(self.variable_decision["x"]))))
             constraints = self.fix_decision(current_solution, fixed_variable)
             self.model.optimize(max_seconds=parameter_gurobi.TimeLimit,
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
index 321a643..44a2841 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_cp_lns_solver.py
@@ -38,7 +38,7 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time-self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -103,7 +103,7 @@ class ConstraintHandlerByPart_CP(ConstraintHandler):
                      if current_solution.rcpsp_schedule[x]["end_time"]
                      >= max_time - self.delta_time_from_makepan_to_not_fix]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
index c63b245..b5ff15a 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_lns_solver.py
@@ -115,7 +115,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
         milp_solver.model.start = start
 
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -169,7 +169,7 @@ class ConstraintHandlerStartTimeInterval(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time-5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -229,7 +229,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
@@ -291,7 +291,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP_GRB(ConstraintHandler):
         last_jobs = [x for x in current_solution.rcpsp_schedule
                      if current_solution.rcpsp_schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.n_jobs + 2
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
index 675ad94..9808e85 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_cp_lns_solver.py
@@ -117,14 +117,14 @@ class ConstraintHandlerStartTimeInterval_CP(ConstraintHandler):
                      if current_solution.schedule[x]["end_time"] >= max_time-20]
         # last_jobs = []
         nb_jobs = self.problem.n_jobs_non_dummy + 2
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
                 jobs_to_fix.remove(lj)
         list_strings = []
         self.employees_position = sorted(self.problem.employees)
-        task_to_fix = set(random.sample(current_solution.schedule.keys(),
+        task_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_task_to_fix_employee * nb_jobs)))
         employee_to_not_fix = set(random.sample(range(1, len(self.employees_position)+1),
                                                 min(5, int(1. * len(self.employees_position)))))
diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
index 8d7d4da..324f9e7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
@@ -77,7 +77,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
                 start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
         milp_solver.model.start = start
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(current_solution.rcpsp_schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
@@ -127,7 +127,7 @@ class ConstraintHandlerStartTimeIntervalMRCPSP(ConstraintHandler):
         last_jobs = [x for x in current_solution.schedule
                      if current_solution.schedule[x]["end_time"] >= max_time - 5]
         nb_jobs = self.problem.nb_tasks
-        jobs_to_fix = set(random.sample(current_solution.schedule.keys(),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_to_fix * nb_jobs)))
         for lj in last_jobs:
             if lj in jobs_to_fix:
-- 
2.43.0


From 0410c6523fa4fc8e24fba96ac03e9bd09fd68ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 088/155] fix: the best solution of the scheduling milp solvers
 follows the sense of the objective

---
 .../discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py   | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
index caf2946..96905e3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py
@@ -190,8 +190,6 @@ class LP_RCPSP(MilpSolver):
                 print("Problem =", rcpsp_schedule, len(rcpsp_schedule))
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
@@ -390,8 +388,6 @@ class LP_MRCPSP(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
@@ -634,8 +630,6 @@ class LP_MRCPSP_GUROBI(MilpSolver):
             except:
                 pass
         return ResultStorage(list_solution_fits=list_solution_fits,
-                             best_solution=min(list_solution_fits,
-                                               key=lambda x: x[1])[0],
                              mode_optim=self.params_objective_function.sense_function)
 
     def solve(self, parameters_milp: ParametersMilp=ParametersMilp.default(), **kwargs)->ResultStorage:
-- 
2.43.0


From 4ba7718cd8477f88ecc8fe46c6f2d9d9c4086eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 089/155] fix: fix the modes of exactly the tasks whose mode is
 given (multiskill)

---
 .../rcpsp_multiskill/solvers/cp_solvers.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index f21cc0d..cfc35f5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -225,7 +225,7 @@ class CP_MS_MRCPSP_MZN(CPSolver):
                         self.instance.add_string(string)
                         constraint_strings += [string]
             if p_s.task_mode is not None:
-                for task in p_s.start_times:
+                for task in p_s.task_mode:
                     indexes = [i for i in self.modeindex_map if self.modeindex_map[i]["task"] == task
                                and self.modeindex_map[i]["original_mode_index"] == p_s.task_mode[task]]
                     if len(indexes) >= 0:
-- 
2.43.0


From ddcd103b445df3a6b350a2316027fda79ccaf4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 090/155] fix: copies of a scheduling problem do not share its
 resources

---
 .../builders/discrete_optimization/rcpsp/rcpsp_model.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
index c0dc812..6e3a16d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/rcpsp_model.py
@@ -671,7 +671,7 @@ class RCPSPModel(Problem):
             ax[i].legend()
 
     def copy(self):
-        return RCPSPModel(resources=self.resources,
+        return RCPSPModel(resources=deepcopy(self.resources),
                           non_renewable_resources=self.non_renewable_resources,
                           mode_details=deepcopy(self.mode_details),
                           successors=deepcopy(self.successors),
@@ -813,7 +813,7 @@ class SingleModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        return SingleModeRCPSPModel(resources=self.resources,
+        return SingleModeRCPSPModel(resources=deepcopy(self.resources),
                                     non_renewable_resources=self.non_renewable_resources,
                                     mode_details=deepcopy(self.mode_details),
                                     successors=deepcopy(self.successors),
@@ -868,7 +868,7 @@ class MultiModeRCPSPModel(RCPSPModel):
         return objectives
 
     def copy(self):
-        mm = MultiModeRCPSPModel(resources=self.resources,
+        mm = MultiModeRCPSPModel(resources=deepcopy(self.resources),
                                  non_renewable_resources=self.non_renewable_resources,
                                  mode_details=deepcopy(self.mode_details),
                                  successors=deepcopy(self.successors),
-- 
2.43.0


From 85912e620f81518ba80032b64e9cb584af7ece0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 091/155] fix: multiskill variants and copies keep the sink,
 the source and the one unit per task option

---
 .../rcpsp_multiskill/rcpsp_multiskill.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 51dde23..9d00e03 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -593,7 +593,10 @@ class MS_RCPSPModel(Problem):
                              mode_details=self.mode_details,
                              successors=self.successors,
                              horizon=self.horizon,
-                             horizon_multiplier=self.horizon_multiplier)
+                             horizon_multiplier=self.horizon_multiplier,
+                             sink_task=self.sink_task,
+                             source_task=self.source_task,
+                             one_unit_per_task_max=self.one_unit_per_task_max)
 
     def to_variant_model(self):
         return MS_RCPSPModel_Variant(skills_set=self.skills_set,
@@ -606,6 +609,8 @@ class MS_RCPSPModel(Problem):
                                      successors=self.successors,
                                      horizon=self.horizon,
                                      horizon_multiplier=self.horizon_multiplier,
+                                     sink_task=self.sink_task,
+                                     source_task=self.source_task,
                                      one_unit_per_task_max=self.one_unit_per_task_max)
 
     def get_dummy_solution(self):
@@ -639,7 +644,10 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
                              mode_details=mode_details,
                              successors=successors,
                              horizon=horizon,
-                             horizon_multiplier=horizon_multiplier)
+                             horizon_multiplier=horizon_multiplier,
+                             sink_task=sink_task,
+                             source_task=source_task,
+                             one_unit_per_task_max=one_unit_per_task_max)
         self.fixed_modes = None
         self.fixed_permutation = None
         self.fixed_priority_worker_per_task = None
-- 
2.43.0


From c40fa685a0c7680c3e2fa0e3e52c7a722ae0a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 092/155] fix: copies of an employee keep the salary

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 9d00e03..b04dfd8 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -334,7 +334,8 @@ class Employee:
     def copy(self):
         return Employee(dict_skill={s: self.dict_skill[s].copy()
                                     for s in self.dict_skill},
-                        calendar_employee=list(self.calendar_employee))
+                        calendar_employee=list(self.calendar_employee),
+                        salary=self.salary)
 
 
 def intersect(i1, i2):
-- 
2.43.0


From fc9ab25191257385c29e383a80fc782b8f323e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 093/155] fix: fix the modes of the solution from the vector
 counted from zero

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index b04dfd8..dcc033e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -712,7 +712,7 @@ class MS_RCPSPModel_Variant(MS_RCPSPModel):
             self.set_fixed_modes(sol.modes_vector)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'modes_vector_from0':
-            modes_corrected = [x + 1 for x in sol.modes_vector]
+            modes_corrected = [x + 1 for x in sol.modes_vector_from0]
             self.set_fixed_modes(modes_corrected)
             print('self.fixed_modes:', self.fixed_modes)
         elif att == 'priority_worker_per_task':
-- 
2.43.0


From ef7cdf5949a6c6b6227ff5f5bb4f336bd12e2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 094/155] fix: multiskill schedules report the modes they were
 generated with

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index dcc033e..01afa0c 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -147,13 +147,13 @@ def sgs_multi_skill(solution: MS_RCPSPSolution_Variant):
     modes_extended = deepcopy(solution.modes_vector)
     modes_extended.insert(0, 1)
     modes_extended.append(1)
-    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('pre-modes_extended: ', modes_extended)
     # fix modes in case specified mode not in mode details for the activites
     for i in range(len(modes_extended)):
         # print(list(self.problem.mode_details[i + 1].keys()))
         if modes_extended[i] not in list(problem.mode_details[i + 1].keys()):
             modes_extended[i] = 1
+    modes_dict = {i+1: modes_extended[i] for i in range(len(modes_extended))}
     # print('modes_extended: ', modes_extended)
     # print('start SGS')
     employee_usage = {}
-- 
2.43.0


From 48b2e401b8c0d44d48851037a902c2d14f477f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 095/155] fix: a multiskill task without its employees makes
 the solution unsatisfying

---
 .../discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 01afa0c..53b7bc1 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -480,7 +480,7 @@ class MS_RCPSPModel(Problem):
             if len(required_skills) > 0:
                 for skill in required_skills:
                     employees_used = [self.employees[emp].dict_skill[skill].skill_value
-                                      for emp in rcpsp_sol.employee_usage[task]
+                                      for emp in rcpsp_sol.employee_usage.get(task, {})
                                       if skill in rcpsp_sol.employee_usage[task][emp]]
                     if sum(employees_used) < required_skills[skill]:
                         print('1')
-- 
2.43.0


From c888408122d18e48009cdfe67fb02bd44dc9d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 096/155] fix: check the time lags on the schedule of the
 multiskill solution

---
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index aa78546..9cb926d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -144,19 +144,19 @@ class PostProcessSolutionNonFeasible(PostProcessSolution):
                 start_at_end_plus_offset = partial_solution.start_at_end_plus_offset
                 start_after_nunit = partial_solution.start_after_nunit
                 for (t1, t2) in start_together:
-                    b = solution.rcpsp_schedule[t1]["start_time"] == solution.rcpsp_schedule[t2]["start_time"]
+                    b = solution.schedule[t1]["start_time"] == solution.schedule[t2]["start_time"]
                     if not b:
                         return False
                 for (t1, t2) in start_at_end:
-                    b = solution.rcpsp_schedule[t2]["start_time"] == solution.rcpsp_schedule[t1]["end_time"]
+                    b = solution.schedule[t2]["start_time"] == solution.schedule[t1]["end_time"]
                     if not b:
                         return False
                 for (t1, t2, off) in start_at_end_plus_offset:
-                    b = solution.rcpsp_schedule[t2]["start_time"] >= solution.rcpsp_schedule[t1]["end_time"] + off
+                    b = solution.schedule[t2]["start_time"] >= solution.schedule[t1]["end_time"] + off
                     if not b:
                         return False
                 for (t1, t2, off) in start_after_nunit:
-                    b = solution.rcpsp_schedule[t2]["start_time"] >= solution.rcpsp_schedule[t1]["start_time"] + off
+                    b = solution.schedule[t2]["start_time"] >= solution.schedule[t1]["start_time"] + off
                     if not b:
                         return False
                 return True
-- 
2.43.0


From 6dd3e77a99222b3c03a86f2fa201e0fe71728820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 097/155] fix: break constraints of the employees are given per
 task

---
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index 9cb926d..cab3831 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -123,7 +123,7 @@ def get_ressource_breaks(problem_calendar: MS_RCPSPModel,
             #     first_possible_start_before = \
             #         max(0,
             #            first_possible_start_before-problem_calendar.mode_details[t][1]["duration"]+1)
-            constraints_employee[emp] = (first_possible_start_before, first_possible_start_future)
+            constraints_employee[emp][t] = (first_possible_start_before, first_possible_start_future)
     return index_ressource, constraints, constraints_employee
 
 
-- 
2.43.0


From 67afe9d72c14222b94607d90d44adb7f980487eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 098/155] fix: the problem without calendars keeps the sink,
 the source and the one unit per task option

---
 .../rcpsp_multiskill/solvers/calendar_solver_iterative.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
index cab3831..76840d3 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/calendar_solver_iterative.py
@@ -311,7 +311,10 @@ class SolverWithCalendarIterative(SolverDO):
                                                  mode_details=self.problem_calendar.mode_details,
                                                  successors=self.problem_calendar.successors,
                                                  horizon=self.problem_calendar.horizon,
-                                                 horizon_multiplier=self.problem_calendar.horizon_multiplier)
+                                                 horizon_multiplier=self.problem_calendar.horizon_multiplier,
+                                                 sink_task=self.problem_calendar.sink_task,
+                                                 source_task=self.problem_calendar.source_task,
+                                                 one_unit_per_task_max=self.problem_calendar.one_unit_per_task_max)
         for emp in self.problem_calendar.employees:
             self.problem_no_calendar.employees[emp].calendar_employee = \
                 [max(self.problem_calendar.employees[emp].calendar_employee)]\
-- 
2.43.0


From 21c037542173b68db49a2fdf2833f8aab4d8041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 099/155] fix: fix start times of the multiskill schedule

---
 .../rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
index 324f9e7..4d5959e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/ms_rcpsp_lp_lns_solver.py
@@ -77,7 +77,7 @@ class ConstraintHandlerFixStartTime(ConstraintHandler):
                 start += [(milp_solver.modes[j][m], 1 if mode == m else 0)]
         milp_solver.model.start = start
         # Fix start time for a subset of task.
-        jobs_to_fix = set(random.sample(list(current_solution.rcpsp_schedule.keys()),
+        jobs_to_fix = set(random.sample(list(current_solution.schedule.keys()),
                                         int(self.fraction_fix_start_time * nb_jobs)))
         constraints_dict["fix_start_time"] = []
         for job_to_fix in jobs_to_fix:
-- 
2.43.0


From cbc8f940d51f97bd62e26b5c5d19cf3983754cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 100/155] fix: results name the employees as the parsed problem
 does

---
 .../rcpsp_multiskill/rcpsp_multiskill_parser.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
index c833eda..fd2c3e5 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill_parser.py
@@ -173,7 +173,7 @@ def parse_results(input_data):
             hour = int(words[0])
             for j in range(1, len(words)):
                 w = words[j].split("-")
-                ressource_id = w[0]
+                ressource_id = int(w[0])
                 task_id = int(w[1])
                 assignation[task_id] = ressource_id
                 schedule[task_id] = hour
-- 
2.43.0


From 37a0f1748cae40113f88522222778500cdb0ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 101/155] fix: greedy knapsack: items heavier than the
 capacity, items not numbered by position

---
 .../discrete_optimization/knapsack/solvers/greedy_solvers.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
index a29c174..0e2a4ab 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/greedy_solvers.py
@@ -26,9 +26,9 @@ def greedy_using_queue(knapsack_model: KnapsackModel, method_queue=None)->Knapsa
     weight = 0
     taken = [0]*knapsack_model.nb_items
     sorted_per_density = method_queue(knapsack_model)
-    for i in range(len(taken)):
+    for i in range(len(sorted_per_density)):
         if sorted_per_density[i].weight+weight<=knapsack_model.max_capacity:
-            taken[sorted_per_density[i].index] = 1
+            taken[knapsack_model.index_to_index_list[sorted_per_density[i].index]] = 1
             value += sorted_per_density[i].value
             weight += sorted_per_density[i].weight
         else:
-- 
2.43.0


From 9c5caf5d48c5bf5b86acfd71b8e26d82753f2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 102/155] fix: dynamic programming for the knapsack: item
 positions, items filtered out, items heavier than the remaining capacity

---
 .../knapsack/solvers/dyn_prog_knapsack.py          | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
index 2397a27..5417c9b 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/dyn_prog_knapsack.py
@@ -26,7 +26,6 @@ class KnapsackDynProg(SolverDO):
         start_by_most_promising = args.get('greedy_start', False)
         stop_after_n_item = args.get('stop_after_n_item', False)
         max_items = args.get('max_items', self.knapsack_model.nb_items+1)
-        max_items = min(self.knapsack_model.nb_items+1, max_items)
         max_time_seconds = args.get('max_time_seconds', None)
         verbose = args.get('verbose', False)
         if max_time_seconds is None:
@@ -41,6 +40,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -69,7 +69,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
@@ -102,6 +102,7 @@ class KnapsackDynProg(SolverDO):
             index_promising = [l.index for l in promising]
         else:
             index_promising = [l.index for l in self.knapsack_model.list_items]
+        max_items = min(len(index_promising)+1, max_items)
         if do_time:
             t_start = time.time()
         cur_indexes = (0, 0)
@@ -113,9 +114,10 @@ class KnapsackDynProg(SolverDO):
             weight = self.knapsack_model.list_items[index_item].weight
             value = self.knapsack_model.list_items[index_item].value
             vec_1 = self.table[nb_item-1, :]
-            ind = [max(capacity-weight, 0) for capacity in range(self.capacity+1)]
-            vec_2 = vec_1[ind]+value*(ind!=0)
-            self.table[nb_item, :] = np.maximum(vec_1, vec_2)
+            self.table[nb_item, :] = vec_1
+            if weight <= self.capacity:
+                self.table[nb_item, weight:] = np.maximum(vec_1[weight:],
+                                                          vec_1[:self.capacity+1-weight]+value)
             cur_indexes = (nb_item, self.capacity)
             print("Cur obj : ", self.table[nb_item, self.capacity])
         taken = [0]*self.nb_items
@@ -126,7 +128,7 @@ class KnapsackDynProg(SolverDO):
             value_left = self.table[cur_indexes[0]-1, cur_indexes[1]]
             if cur_value != value_left:
                 index_item = self.knapsack_model.index_to_index_list[index_promising[cur_indexes[0]-1]] 
-                taken[self.knapsack_model.list_items[index_item].index] = 1
+                taken[index_item] = 1
                 value += self.knapsack_model.list_items[index_item].value
                 weight += self.knapsack_model.list_items[index_item].weight
                 cur_indexes = (cur_indexes[0]-1, 
-- 
2.43.0


From 57db94d8769f180b3e07c2dde9ae579a0d786162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 103/155] fix: the knapsack CP solvers mark the items by
 position, as the model reads them

---
 .../knapsack/solvers/cp_solvers.py                  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
index 5f01035..03864d1 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/cp_solvers.py
@@ -39,7 +39,7 @@ class CPKnapsackMZN(CPSolver):
             value = 0
             for i in range(len(items)):
                 if items[i] != 0:
-                    taken[self.knapsack_model.list_items[items[i] - 1].index] = 1
+                    taken[items[i] - 1] = 1
                     weight += self.knapsack_model.list_items[items[i] - 1].weight
                     value += self.knapsack_model.list_items[items[i] - 1].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -114,7 +114,7 @@ class CPKnapsackMZN2(CPSolver):
             value = 0
             for i in range(len(items_taken)):
                 if items_taken[i] != 0:
-                    taken[self.knapsack_model.list_items[i].index] = 1
+                    taken[i] = 1
                     weight += self.knapsack_model.list_items[i].weight
                     value += self.knapsack_model.list_items[i].value
             sol = KnapsackSolution(problem=self.knapsack_model,
@@ -135,7 +135,7 @@ class CPKnapsackMZN2(CPSolver):
         value = 0
         for i in range(len(items_taken)):
             if items_taken[i] != 0:
-                taken[self.knapsack_model.list_items[i].index] = 1
+                taken[i] = 1
                 weight += self.knapsack_model.list_items[i].weight
                 value += self.knapsack_model.list_items[i].value
         return [KnapsackSolution(problem=self.knapsack_model,
@@ -146,7 +146,7 @@ class CPKnapsackMZN2(CPSolver):
                   fraction_decision_fixed: float, 
                   nb_iteration_max: int, 
                   max_time_per_iteration_s: float, save_results=True):
-        taken_current_solution = [init_solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+        taken_current_solution = list(init_solution.list_taken)
         current_objective = init_solution.value
         nb_items = self.knapsack_model.nb_items
         range_item = list(range(nb_items))
@@ -169,8 +169,7 @@ class CPKnapsackMZN2(CPSolver):
                     current_objective = res["objective"]
                     iteration += 1
                     current_solution = solution
-                    taken_current_solution = [solution.list_taken[item.index]
-                                              for item in self.knapsack_model.list_items]
+                    taken_current_solution = list(solution.list_taken)
                     print("Improved ", current_objective)
                     if save_results:
                         results["taken"] += [taken_current_solution]
@@ -180,7 +179,7 @@ class CPKnapsackMZN2(CPSolver):
                     iteration += 1
                     if res.solution is not None:
                         objective = res["objective"]
-                        taken_solution = [solution.list_taken[item.index] for item in self.knapsack_model.list_items]
+                        taken_solution = list(solution.list_taken)
                         if save_results:
                             results["taken"] += [taken_solution]
                             results["objective"] += [objective]
-- 
2.43.0


From baface816c3df70c74728a7f07e1ed2a1b85e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 104/155] fix: the multi objective knapsack gives its objective
 sense

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 2c16f42..cbe9806 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -154,7 +154,8 @@ class KnapsackModel_Mobj(KnapsackModel):
                           "heaviest_item": {"type": TypeObjective.OBJECTIVE, "default_weight": 1},
                           "weight": {"type": TypeObjective.OBJECTIVE, "default_weight": -1},
                           "value": {"type": TypeObjective.OBJECTIVE, "default_weight": 1}}
-        return ObjectiveRegister(objective_handling=ObjectiveHandling.MULTI_OBJ,
+        return ObjectiveRegister(objective_sense=ModeOptim.MAXIMIZATION,
+                                 objective_handling=ObjectiveHandling.MULTI_OBJ,
                                  dict_objective_to_doc=dict_objective)
 
     def evaluate(self, knapsack_solution: KnapsackSolution):
-- 
2.43.0


From 6558f0b8695d4963c652607c2807c37a706f0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 105/155] fix: equal knapsack solutions have equal hashes

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index cbe9806..37af986 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -49,7 +49,7 @@ class KnapsackSolution(Solution):
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(tuple(self.list_taken))
 
     def __eq__(self, other):
         return self.list_taken == other.list_taken
-- 
2.43.0


From 33537637e41f1c55ca897c1a8765011348c12475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 106/155] fix: each registered knapsack solver is a pair of
 class and parameters

---
 .../discrete_optimization/knapsack/knapsack_solvers.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py
index f64ee83..8e39d4b 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_solvers.py
@@ -7,8 +7,8 @@ from skdecide.builders.discrete_optimization.knapsack.knapsack_model import Knap
 from skdecide.builders.discrete_optimization.generic_tools.lp_tools import ParametersMilp
 solvers = {"lp":[(KnapsackORTools, {}),
                  (LPKnapsackCBC, {}),
-                 (LPKnapsackGurobi, {"parameter_gurobi": ParametersMilp.default()},
-                 (LPKnapsack, {"solver_name": CBC, "limit_time_s": 10}))],
+                 (LPKnapsackGurobi, {"parameter_gurobi": ParametersMilp.default()}),
+                 (LPKnapsack, {"solver_name": CBC, "limit_time_s": 10})],
            "greedy": [(GreedyBest,  {})], 
            "cp": [(CPKnapsackMZN, {}),
                   (CPKnapsackMZN2, {})],
-- 
2.43.0


From 40ca88643cb4c940e9879be28175ec58083ca1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 107/155] fix: bit flip mutation: the objective is that of the
 mutated solution

---
 .../knapsack/mutation/mutation_knapsack.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
index 78eb63b..616a5d4 100644
--- a/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
+++ b/skdecide/builders/discrete_optimization/knapsack/mutation/mutation_knapsack.py
@@ -51,7 +51,7 @@ class KnapsackMutationSingleBitFlip(Mutation):
             obj = {'value': new_value,
                    'weight_violation': max(0, new_weight - self.problem.max_capacity)}
         else:
-            obj = self.problem.evaluate(solution)
+            obj = self.problem.evaluate(new_sol)
         return new_sol, move, obj
 
     @staticmethod
-- 
2.43.0


From d6a51ad851a976a8ae858c39ae26f397ac225a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 108/155] fix: compute_cliques when all the cliques are found

---
 .../builders/discrete_optimization/coloring/coloring_toolbox.py  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
index 2509957..50fcfe2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_toolbox.py
@@ -4,6 +4,7 @@ import networkx as nx
 def compute_cliques(g, nb_max=None):
     cliques = []
     nb = 0
+    not_all = False
     for c in nx.algorithms.clique.find_cliques(g):
         print(c)
         cliques += [c]
-- 
2.43.0


From ef4194c7b07f44dcf15d79a269190533017a44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 109/155] fix: greedy colouring: the DSATUR strategy is known
 by its value

---
 .../discrete_optimization/coloring/solvers/greedy_coloring.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
index 4f6c6f7..6494537 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/greedy_coloring.py
@@ -44,7 +44,7 @@ class GreedyColoring(SolverDO):
         strategy: NXGreedyColoringMethod = kwargs.get("strategy", NXGreedyColoringMethod.best)
         print(strategy)
         verbose: bool = kwargs.get("verbose", False)
-        strategy_name = strategy.name
+        strategy_name = strategy.value
         if strategy_name == "best":
             strategies_to_test = strategies
         else:
-- 
2.43.0


From 5f0074fdde56314884db316a41fb14629a5946ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 110/155] fix: colouring CP: number of edges given, number of
 cliques asked

---
 .../coloring/solvers/coloring_cp_solvers.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
index c235529..43ad654 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_cp_solvers.py
@@ -61,7 +61,7 @@ class ColoringCP(CPSolver):
         instance = Instance(solver, self.model)
         # Assign 4 to n
         instance["n_nodes"] = self.number_of_nodes
-        instance["n_edges"] = int(self.number_of_edges/2)
+        instance["n_edges"] = len(self.coloring_problem.graph.edges)
         instance["nb_colors"] = nb_colors
         print("nb colors ", nb_colors)
         keys = ["n_nodes", "n_edges", "nb_colors"]
@@ -73,7 +73,7 @@ class ColoringCP(CPSolver):
         g.add_edges_from(edges)
         self.g = g
         if model_type == ColoringCPModel.CLIQUES:
-            cliques, not_all = compute_cliques(g, 200)
+            cliques, not_all = compute_cliques(g, nb_cliques)
             instance["cliques"] = [set(c) for c in cliques]
             instance["n_cliques"] = len(instance["cliques"])
             instance["all_cliques"] = not not_all
-- 
2.43.0


From 9cbf7f91a4ae47e3a4de1e128d34dee180ee5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 111/155] fix: colouring LP: the constraints use the names of
 the nodes, as the variables do

---
 .../coloring/solvers/coloring_lp_solvers.py                   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
index 61fc3f0..e4ba15c 100644
--- a/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py
@@ -52,7 +52,7 @@ class ColoringLP(MilpSolver):
         nb_colors = self.start_solution.nb_color
         color_model = Model("color")
         colors_var = {}
-        range_node = range(self.number_of_nodes)
+        range_node = self.nodes_name
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
@@ -171,7 +171,7 @@ class ColoringLP_MIP(ColoringLP):
                                 sense=mip.MINIMIZE,
                                 solver_name=self.solver_name)
         colors_var = {}
-        range_node = range(self.number_of_nodes)
+        range_node = self.nodes_name
         range_color = range(nb_colors)
         for node in self.nodes_name:
             for color in range_color:
-- 
2.43.0


From b8034c60d17b1aa27f2f7ea10dd783b71428c758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 112/155] fix: the knapsack LP solvers give the items in the
 order of the model

---
 .../knapsack/solvers/lp_solvers.py             | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
index e39adb3..89fd601 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py
@@ -82,7 +82,7 @@ class LPKnapsackGurobi(SolverDO):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=obj,
                                            weight=weight, 
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
         return ResultStorage(list_solution_fits=[(s, f) for s, f in zip(solutions, fits)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -147,13 +147,13 @@ class LPKnapsackGurobi(SolverDO):
 
     def add_init_solution(self, init_solution: KnapsackSolution):
         for i in self.variable_decision["x"]:
-            self.variable_decision["x"][i].start = init_solution.list_taken[i]
-            self.variable_decision["x"][i].varhintval = init_solution.list_taken[i]
+            self.variable_decision["x"][i].start = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
+            self.variable_decision["x"][i].varhintval = init_solution.list_taken[self.knapsack_model.index_to_index_list[i]]
 
     def fix_decision(self,  init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.addConstr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -226,7 +226,7 @@ class LPKnapsackCBC(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                  value=objective,
                                  weight=weight, 
-                                 list_taken=[xs[e] for e in sorted(xs)])
+                                 list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
@@ -306,7 +306,7 @@ class LPKnapsack(MilpSolver):
             solutions += [KnapsackSolution(problem=self.knapsack_model,
                                            value=value_kp,
                                            weight=weight,
-                                           list_taken=[xs[e] for e in sorted(xs)])]
+                                           list_taken=[xs[item.index] for item in self.knapsack_model.list_items])]
             fits += [self.aggreg_sol(solutions[-1])]
             print(self.aggreg_sol)
 
@@ -363,13 +363,13 @@ class LPKnapsack(MilpSolver):
     def add_init_solution(self, init_solution: KnapsackSolution):
         start = []
         for i in self.variable_decision["x"]:
-            start += [(self.variable_decision["x"][i], init_solution.list_taken[i])]
+            start += [(self.variable_decision["x"][i], init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])]
         self.model.start = start
 
     def fix_decision(self, init_solution: KnapsackSolution, fixed_variable_keys):
         constraints = {}
         for i in fixed_variable_keys:
-            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[i])
+            constraints[i] = self.model.add_constr(self.variable_decision["x"][i] == init_solution.list_taken[self.knapsack_model.index_to_index_list[i]])
         return constraints
 
     def describe_the_model(self):
@@ -414,7 +414,7 @@ class KnapsackORTools(SolverDO):
         sol = KnapsackSolution(problem=self.knapsack_model,
                                value=value,
                                weight=weight,
-                               list_taken=[xs[e] for e in sorted(xs)])
+                               list_taken=[xs[item.index] for item in self.knapsack_model.list_items])
         fit = self.aggreg_sol(sol)
         return ResultStorage(list_solution_fits=[(sol, fit)],
                              mode_optim=self.params_objective_function.sense_function)
-- 
2.43.0


From 38b117aaa095883eaf69d3a43a6fab166d2f4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 113/155] fix: knapsack LNS: the variables are named by item,
 the items taken are given by position

---
 .../knapsack/solvers/knapsack_lns_solver.py                | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
index 599ae46..6c4fb0e 100644
--- a/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
+++ b/skdecide/builders/discrete_optimization/knapsack/solvers/knapsack_lns_solver.py
@@ -60,9 +60,10 @@ class ConstraintHandlerKnapsack(ConstraintHandler):
         x_var = milp_solver.variable_decision["x"]
         lns_constraint = {}
         for key in x_var:
-            start += [(x_var[key], dict_f_start[key])]
-            if key in subpart_item:
-                lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[key],
+            c = self.problem.index_to_index_list[key]
+            start += [(x_var[key], dict_f_start[c])]
+            if c in subpart_item:
+                lns_constraint[key] = milp_solver.model.add_constr(x_var[key] == dict_f_start[c],
                                                                    name=str(key))
         if milp_solver.milp_solver_name == MilpSolverName.GRB:
             milp_solver.model.solver.update()
-- 
2.43.0


From 531f3f4c85a1825877faf42cd295d53202fcda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 114/155] fix: the capacity violation counts every facility,
 not the last one only

---
 .../builders/discrete_optimization/facility/facility_model.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 3df6b88..6fe6432 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -61,7 +61,7 @@ class FacilityProblem(Problem):
         d = self.evaluate_cost(variable)
         capacity_constraint_violation = 0
         for f in d["details"]:
-            capacity_constraint_violation = max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
+            capacity_constraint_violation += max(d["details"][f]["capacity_used"]-self.facilities[f].capacity, 0)
         d["capacity_constraint_violation"] = capacity_constraint_violation
         return d
 
-- 
2.43.0


From 0ce602334814e1e2f0f1a6b416b5385df3d263a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 115/155] fix: greedy facility: go on until a facility can
 serve the customer

---
 .../facility/solvers/greedy_solvers.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
index 754caa2..a0d32d2 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/greedy_solvers.py
@@ -22,14 +22,10 @@ class GreedySolverFacility(SolverDO):
         facility_index = 0
         for index in range(len(self.facility_problem.customers)):
             customer = self.facility_problem.customers[index]
-            if capacity_remaining[facility_index] >= customer.demand:
-                solution[index] = facility_index
-                capacity_remaining[facility_index] -= customer.demand
-            else:
+            while capacity_remaining[facility_index] < customer.demand:
                 facility_index += 1
-                assert capacity_remaining[facility_index] >= customer.demand
-                solution[index] = facility_index
-                capacity_remaining[facility_index] -= customer.demand
+            solution[index] = facility_index
+            capacity_remaining[facility_index] -= customer.demand
         sol = FacilitySolution(problem=self.facility_problem,
                                facility_for_customers=solution)
         fit = self.aggreg_sol(sol)
-- 
2.43.0


From b41a46fb1e5eb07cd79db4357eb3ea1c2e48a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 116/155] fix: facility LP: the greedy solver returns a result
 storage

---
 .../facility/solvers/facility_lp_solver.py                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
index 4f1a6fe..8affdd2 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py
@@ -212,7 +212,7 @@ class LP_Facility_Solver(MilpSolver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -382,7 +382,7 @@ class LP_Facility_Solver_CBC(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
@@ -559,7 +559,7 @@ class LP_Facility_Solver_PyMip(LP_Facility_Solver):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
             self.start_solution = solution
         else:
             if verbose:
-- 
2.43.0


From 1f092ed1d79155831746b2d8f7cde62c2e8c9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 117/155] fix: facility CP: the greedy solver returns a result
 storage

---
 .../facility/solvers/facility_cp_solvers.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
index a349ff1..e0ceb0f 100644
--- a/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/facility/solvers/facility_cp_solvers.py
@@ -85,7 +85,7 @@ class FacilityCP(SolverDO):
             if verbose:
                 print("Computing greedy solution")
             greedy_solver = GreedySolverFacility(self.facility_problem)
-            solution, f = greedy_solver.solve()
+            solution, f = greedy_solver.solve().get_best_solution_fit()
         else:
             if verbose:
                 print("Get dummy solution")
-- 
2.43.0


From ddbca0db91659a93834f2b07d008a3f840a9dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 118/155] fix: networkx no longer has from_numpy_matrix

---
 skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
index d7c1ae1..be765ea 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_toolbox.py
@@ -36,7 +36,7 @@ def prune_search_space(vrp_model: VrpProblem,
 def build_graph(vrp_model: VrpProblem):
     matrix_adjacency, matrix_distance = prune_search_space(vrp_model=vrp_model,
                                                            n_shortest=vrp_model.customer_count)
-    G = nx.from_numpy_matrix(matrix_adjacency, create_using=nx.DiGraph)
+    G = nx.from_numpy_array(matrix_adjacency, create_using=nx.DiGraph)
     G.add_edge(0, 0, weight=0)
     return G, matrix_distance
 
-- 
2.43.0


From f996b0a8575bc59d63b7177258d83e7324911fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 119/155] fix: the first solution strategy asked is the one
 used

---
 .../discrete_optimization/vrp/solver/solver_ortools.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
index 50a137e..f90e722 100644
--- a/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/vrp/solver/solver_ortools.py
@@ -102,7 +102,8 @@ class LocalSearchMetaheuristic(Enum):
 
 
 first_solution_map = {FirstSolutionStrategy.SAVINGS: routing_enums_pb2.FirstSolutionStrategy.SAVINGS,
-                      FirstSolutionStrategy.PATH_MOST_CONSTRAINED_ARC: routing_enums_pb2.FirstSolutionStrategy.SAVINGS}
+                      FirstSolutionStrategy.PATH_MOST_CONSTRAINED_ARC:
+                      routing_enums_pb2.FirstSolutionStrategy.PATH_MOST_CONSTRAINED_ARC}
 metaheuristic_map = {LocalSearchMetaheuristic.GUIDED_LOCAL_SEARCH:
                      routing_enums_pb2.LocalSearchMetaheuristic.GUIDED_LOCAL_SEARCH,
                      LocalSearchMetaheuristic.SIMULATED_ANNEALING:
-- 
2.43.0


From bc53a1907317033fcb79241eb836717b93366604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 120/155] fix: the last leg of a vehicle goes from the last
 customer to the end

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index 11d0ac5..ac1b9cc 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -248,7 +248,7 @@ def compute_length(start_index,
             obj += ll
             lengths += [ll]
             capacity += list_customers[solution[index+1]].demand
-        lengths += [method(end_index, solution[-1])]
+        lengths += [method(solution[-1], end_index)]
         if end_index != start_index:
             capacity += list_customers[end_index].demand
         obj += lengths[-1]
-- 
2.43.0


From 00368961b183ddf104ed41d4dfea583392167832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 121/155] fix: a named tuple cannot have another base class

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index c0a71e6..22f5fcb 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -202,7 +202,7 @@ class TSPModel(Problem):
 
 
 # One 
-class Point2D(Point, NamedTuple):
+class Point2D(NamedTuple):
     x: float
     y: float
 
-- 
2.43.0


From b2fd833fae493bde091350039a53be0cabd4bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 122/155] fix: TSP: a solution is a tour when it goes once
 through each node between the start and the end

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index 22f5fcb..e0fdd5c 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -153,9 +153,10 @@ class TSPModel(Problem):
         # return obj
     
     def satisfy(self, var_tsp: SolutionTSP)->bool:
-        b = var_tsp.permutation[0] == self.start_index and var_tsp.permutation[-1] == self.end_index
+        b = var_tsp.start_index == self.start_index and var_tsp.end_index == self.end_index
         if not b:
             return False
+        return sorted(var_tsp.permutation) == self.ind_in_permutation
     
     def get_dummy_solution(self):
         var = SolutionTSP(problem=self, start_index=self.start_index,
-- 
2.43.0


From 528983e6f4af78318b7ff98ef66712799981ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 123/155] fix: TSP: the legs computed with numba are in the
 order of the tour

---
 .../builders/discrete_optimization/tsp/tsp_model.py    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index e0fdd5c..be57fb2 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -264,17 +264,17 @@ def compute_length_np(start_index,
                       length_permutation)->Tuple[Union[List[float], np.array], float]:
     obj = np.sqrt((np_points[start_index, 0]-np_points[solution[0], 0])**2+\
                   (np_points[start_index, 1]-np_points[solution[0], 1])**2)
-    lengths = np.zeros((node_count))
+    lengths = np.zeros((length_permutation+1))
     lengths[0] = obj
     pp = obj
     for index in range(0, length_permutation-1):
         ll = math.sqrt((np_points[solution[index], 0]-np_points[solution[index+1], 0])**2+\
                        (np_points[solution[index], 1]-np_points[solution[index+1], 1])**2)
         obj += ll
-        lengths[index] = ll
-    lengths[node_count-1] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
-                                    (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
-    obj += lengths[node_count-1]
+        lengths[index+1] = ll
+    lengths[length_permutation] = np.sqrt((np_points[end_index, 0]-np_points[solution[-1], 0])**2+\
+                                          (np_points[end_index, 1]-np_points[solution[-1], 1])**2)
+    obj += lengths[length_permutation]
     return lengths, obj
 
 def build_evaluate_function(tsp_model: TSPModel):
-- 
2.43.0


From 642993cc4cfe2cdcb1af8e7b69285617945ef5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 124/155] fix: 2-opt: default number of tests

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 23cb0d3..8aded5c 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -72,7 +72,7 @@ class Mutation2Opt(Mutation):
         self.length_permutation = tsp_model.length_permutation
         self.points = tsp_model.list_points
         self.test_all = test_all
-        self.nb_test = min(nb_test, self.node_count-1)
+        self.nb_test = nb_test if nb_test is None else min(nb_test, self.node_count-1)
         self.evaluate_function_indexes = tsp_model.evaluate_function_indexes
         self.return_only_improvement = return_only_improvement
         self.tsp_model = tsp_model
-- 
2.43.0


From 64ba5d5b1b05ae147db1feb4871e4eed2a42385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 125/155] fix: 2-opt on intersections: objectives as a
 dictionary, all the legs of the tour

---
 .../discrete_optimization/tsp/mutation/mutation_tsp.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 8aded5c..a54bb1a 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -210,7 +210,7 @@ class Mutation2OptIntersection(Mutation2Opt):
                                      nb_tests=min(3000, self.node_count-2))
             self.i_j_pairs = ints
             if len(self.i_j_pairs) == 0:
-                return variable, LocalMoveDefault(variable, variable), variable.length
+                return variable, LocalMoveDefault(variable, variable), {"length": variable.length}
         min_change = float('inf')
         perm = variable.permutation
         for i, j in self.i_j_pairs:
@@ -232,6 +232,8 @@ class Mutation2OptIntersection(Mutation2Opt):
         lengths += [self.evaluate_function_indexes(i_before, j_)]
         lengths += variable.lengths[it+1:jt+1][::-1]
         lengths += [self.evaluate_function_indexes(i_, j_after)]
+        if jt < self.length_permutation-1:
+            lengths += variable.lengths[jt+2:]
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From 0a1a22e87b0329941851ef488ad41979313c7407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 126/155] fix: default distance between two points given by
 index

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 08d9df5..079f730 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -53,7 +53,7 @@ def baseline_in_order(nodeCount: int, points: List[Point2D]):
 
 def build_matrice_distance(nodeCount: int, points: List[Point2D], method=None):
     if method is None:
-        method = length
+        method = lambda i, j: length(points[i], points[j])
     matrix = np.zeros((nodeCount, nodeCount))
     for i in range(nodeCount):
         for j in range(i+1, nodeCount):
-- 
2.43.0


From d413d483a723b271e7349d5f88dc4a96a7a51b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 127/155] fix: greedy tour: points at the same place

---
 skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
index 079f730..b481e10 100644
--- a/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/common_tools_tsp.py
@@ -87,7 +87,7 @@ def closest_greedy(nodeCount: int, points: List[Point2D]):
     sol = [0]
     length_circuit = 0.
     index_in_sol = set([0])
-    s = sd[:, 1:]
+    s = sd
     # print(matrix.shape)
     # print(s.shape)
     # print(s)
-- 
2.43.0


From b81f0dff2b028f1dc7e171b64dd463f5298ed523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 128/155] fix: TSP with OR-tools: distances are between indexes
 and keep their decimals

---
 .../discrete_optimization/tsp/solver/solver_ortools.py       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
index 83e7816..5ee0a92 100644
--- a/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
+++ b/skdecide/builders/discrete_optimization/tsp/solver/solver_ortools.py
@@ -29,7 +29,7 @@ class TSP_ORtools(SolverDO):
             matrix = build_matrice_distance(self.node_count, 
                                             self.list_points, 
                                             method=self.tsp_model.evaluate_function_indexes)
-            distance_matrix = (10**6*matrix.astype(int))
+            distance_matrix = (10**6*matrix).astype(int)
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
@@ -38,8 +38,7 @@ class TSP_ORtools(SolverDO):
             def distance_callback(from_index, to_index):
                 from_node = manager.IndexToNode(from_index)
                 to_node = manager.IndexToNode(to_index)
-                return int(10**6*self.tsp_model.evaluate_function_indexes(self.list_points[from_node], 
-                                                                          self.list_points[to_node]))
+                return int(10**6*self.tsp_model.evaluate_function_indexes(from_node, to_node))
         # Create the routing index manager.
         manager = pywrapcp.RoutingIndexManager(self.node_count,
                                                1, 
-- 
2.43.0


From 925a8733d32e82b0eafd01780afe763d606604db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 129/155] fix: 2-opt: the legs are concatenated, whether they
 are a list or an array

---
 .../tsp/mutation/mutation_tsp.py                     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index a54bb1a..0ad1c21 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -149,12 +149,12 @@ class Mutation2Opt(Mutation):
         permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
         lengths = []
         if it > 0:
-            lengths += variable.lengths[:it]
+            lengths += list(variable.lengths[:it])
         lengths += [self.evaluate_function_indexes(i_before, j_)]
-        lengths += variable.lengths[it+1:jt+1][::-1]
+        lengths += list(variable.lengths[it+1:jt+1][::-1])
         lengths += [self.evaluate_function_indexes(i_, j_after)]
         if jt < self.length_permutation-1:
-            lengths += variable.lengths[jt+2:]
+            lengths += list(variable.lengths[jt+2:])
         if False:
             print(len(variable.lengths))
             print(len(lengths))
@@ -228,12 +228,12 @@ class Mutation2OptIntersection(Mutation2Opt):
         permut = variable.permutation[:(it)]+variable.permutation[it:jt+1][::-1]+variable.permutation[jt+1:]
         lengths = []
         if it > 0:
-            lengths += variable.lengths[:it]
+            lengths += list(variable.lengths[:it])
         lengths += [self.evaluate_function_indexes(i_before, j_)]
-        lengths += variable.lengths[it+1:jt+1][::-1]
+        lengths += list(variable.lengths[it+1:jt+1][::-1])
         lengths += [self.evaluate_function_indexes(i_, j_after)]
         if jt < self.length_permutation-1:
-            lengths += variable.lengths[jt+2:]
+            lengths += list(variable.lengths[jt+2:])
         if False:
             print(len(variable.lengths))
             print(len(lengths))
-- 
2.43.0


From af19b4cb2dafb84d89da49da09bb5196dadfaebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 130/155] fix: 2-opt: some move is always evaluated

---
 .../builders/discrete_optimization/tsp/mutation/mutation_tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
index 0ad1c21..bde2ea3 100644
--- a/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
+++ b/skdecide/builders/discrete_optimization/tsp/mutation/mutation_tsp.py
@@ -117,7 +117,7 @@ class Mutation2Opt(Mutation):
         point_before_it, point_it, point_jt, point_after_jt = self.get_points(it, jt, variable)
         min_change = float('inf')
         range_its = range(self.length_permutation) if self.test_all \
-            else random.sample(range(self.length_permutation), min(self.nb_test, self.length_permutation))
+            else random.sample(range(self.length_permutation-1), min(self.nb_test, self.length_permutation-1))
         for i in range_its:
             #print( min(self.nb_test, self.nodeCount-i-1))
             #print(i+1, self.nodeCount-1)
-- 
2.43.0


From b9ce2f8a5d458fcc588aae31560bbc8b7cebf0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 131/155] fix: draw a random heuristic of the pool with a valid
 range

---
 skdecide/hub/solver/gphh/gphh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index 4322987..18cf43b 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -899,7 +899,7 @@ class PooledGPHHPolicy(DeterministicPolicies):
             elif self.pool_aggregation_method == PoolAggregationMethod.MEDIAN:
                 agg_value = np.median(output_values)
             elif self.pool_aggregation_method == PoolAggregationMethod.RANDOM:
-                index = random.randint(len(output_values))
+                index = random.randrange(len(output_values))
                 agg_value = output_values[index]
 
             # print('agg_value: ', agg_value)
-- 
2.43.0


From fb90f432b79558707fc4473ed2f63e9086fc680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 132/155] fix: give the critical-path data to the features
 shown by test_features

---
 skdecide/hub/solver/gphh/gphh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index 18cf43b..f29199d 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -690,9 +690,12 @@ class GPHH(Solver, DeterministicPolicies):
         return fitness
 
     def test_features(self, domain, task_id, observation):
+        cpm, cpm_esd = compute_cpm(build_do_domain(domain))
         for f in FeatureEnum:
             print('feature: ', f)
             calculated_feature = feature_function_map[f](domain=domain,
+                                                   cpm=cpm,
+                                                   cpm_esd=cpm_esd,
                                                    task_id=task_id,
                                                    state=observation)
             print('\tcalculated_feature: ',calculated_feature)
-- 
2.43.0


From 3f853e933b1b766aaf03fb97eecf8265397686a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 133/155] fix: let the domain of a GPHH solver be set before it
 is solved

---
 skdecide/hub/solver/gphh/gphh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/hub/solver/gphh/gphh.py b/skdecide/hub/solver/gphh/gphh.py
index f29199d..b5f7c02 100644
--- a/skdecide/hub/solver/gphh/gphh.py
+++ b/skdecide/hub/solver/gphh/gphh.py
@@ -382,7 +382,7 @@ class GPHH(Solver, DeterministicPolicies):
     weight: int
     pset: PrimitiveSet
     toolbox: Toolbox
-    policy: DeterministicPolicies
+    policy: DeterministicPolicies = None
     params_gphh: ParametersGPHH
     # policy: GPHHPolicy
     evaluation_method: EvaluationGPHH
-- 
2.43.0


From ea385d10dbb96cd45931286eb2e3cddd00438f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 134/155] fix: evaluate policies whose outcomes have impossible
 next states

---
 skdecide/hub/solver/policy_evaluators/policy_evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
index 700b876..0e4fe84 100644
--- a/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
+++ b/skdecide/hub/solver/policy_evaluators/policy_evaluator.py
@@ -22,12 +22,12 @@ def construct_dict_policy(domain: GoalMDPDomain, policy: DeterministicPolicies)-
             continue
         action = policy.get_next_action(s)
         policy_dict[s] = action
-        successors = domain.get_next_state_distribution(s, action).get_values()
+        successors = [(succ, prob) for succ, prob in domain.get_next_state_distribution(s, action).get_values()
+                      if prob != 0]
         succs[s] = successors
         for succ, prob in successors:
-            if prob != 0:
-                stack.append(succ)
-                preds[succ].add(s)
+            stack.append(succ)
+            preds[succ].add(s)
     # Sanity check that successors and predecessors are equal
     for state, successor_pairs in succs.items():
         for succ, prob in successor_pairs:
-- 
2.43.0


From bce1397361b3e753692d41e9a9163182f77f0ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 135/155] fix: re-evaluate a vehicle routing solution moved to
 another problem

---
 skdecide/builders/discrete_optimization/vrp/vrp_model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/vrp/vrp_model.py b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
index ac1b9cc..a50ab41 100644
--- a/skdecide/builders/discrete_optimization/vrp/vrp_model.py
+++ b/skdecide/builders/discrete_optimization/vrp/vrp_model.py
@@ -49,8 +49,7 @@ class VrpSolution(Solution):
         self.__init__(problem=new_problem,
                       list_start_index=self.list_start_index,
                       list_end_index=self.list_end_index,
-                      list_paths=deepcopy(self.list_paths), lengths=deepcopy(self.lengths),
-                      length=self.length, capacities=deepcopy(self.capacities))
+                      list_paths=deepcopy(self.list_paths))
 
 
 class BasicCustomer:
-- 
2.43.0


From c37390ae391e8796beb27f353ac8328e2f1ecf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 136/155] fix: re-evaluate a facility solution moved to another
 problem

---
 .../builders/discrete_optimization/facility/facility_model.py  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/facility/facility_model.py b/skdecide/builders/discrete_optimization/facility/facility_model.py
index 6fe6432..12e8959 100644
--- a/skdecide/builders/discrete_optimization/facility/facility_model.py
+++ b/skdecide/builders/discrete_optimization/facility/facility_model.py
@@ -38,8 +38,7 @@ class FacilitySolution(Solution):
     
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      facility_for_customers=list(self.facility_for_customers),
-                      dict_details=deepcopy(self.dict_details))
+                      facility_for_customers=list(self.facility_for_customers))
 
 class FacilityProblem(Problem):
     def __init__(self, facility_count: int,
-- 
2.43.0


From 729b41c4ff1e927fd6aeb425942c7f70d54b9aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 137/155] fix: re-evaluate a colouring moved to another problem

---
 .../discrete_optimization/coloring/coloring_model.py         | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/coloring/coloring_model.py b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
index 0733eb8..86e34d2 100644
--- a/skdecide/builders/discrete_optimization/coloring/coloring_model.py
+++ b/skdecide/builders/discrete_optimization/coloring/coloring_model.py
@@ -51,10 +51,7 @@ class ColoringSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      colors=list(self.colors),
-                      # colors_from0=list(self.colors_from0),
-                      nb_color=self.nb_color,
-                      nb_violations=self.nb_violations)
+                      colors=list(self.colors))
 
 
 def transform_color_values_to_value_precede(color_vector: List[int]):
-- 
2.43.0


From 9afcfedb4d643e18aa59e9bf03bea1515b3dc118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 138/155] fix: re-evaluate a tour moved to another problem

---
 skdecide/builders/discrete_optimization/tsp/tsp_model.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/tsp/tsp_model.py b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
index be57fb2..fee0df6 100644
--- a/skdecide/builders/discrete_optimization/tsp/tsp_model.py
+++ b/skdecide/builders/discrete_optimization/tsp/tsp_model.py
@@ -78,8 +78,6 @@ class SolutionTSP(Solution):
                       start_index=self.start_index,
                       end_index=self.end_index,
                       permutation=list(self.permutation),
-                      lengths=list(self.lengths),
-                      length=self.length,
                       permutation_from0=deepcopy(self.permutation_from0))
 
 class Point:
-- 
2.43.0


From 783c8c49934d5a424f8820ac98661dd2ad4c97fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 139/155] fix: re-evaluate a knapsack solution moved to another
 problem

---
 .../builders/discrete_optimization/knapsack/knapsack_model.py   | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
index 37af986..bfe9c59 100644
--- a/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
+++ b/skdecide/builders/discrete_optimization/knapsack/knapsack_model.py
@@ -38,8 +38,6 @@ class KnapsackSolution(Solution):
 
     def change_problem(self, new_problem):
         self.__init__(problem=new_problem,
-                      value=self.value,
-                      weight=self.weight,
                       list_taken=list(self.list_taken))
 
     def __str__(self):
-- 
2.43.0


From 01a7516856c1597fef767b494f59ebdaf9a602f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 140/155] fix: reschedule a multi-skill priority list moved to
 another problem

---
 .../rcpsp_multiskill/rcpsp_multiskill.py                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
index 53b7bc1..a8ce49e 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py
@@ -109,6 +109,10 @@ class MS_RCPSPSolution_Variant(MS_RCPSPSolution):
         self.employee_usage = employee_usage
         self._schedule_to_recompute = False
 
+    def change_problem(self, new_problem: Problem):
+        super().change_problem(new_problem)
+        self._schedule_to_recompute = True
+
     def copy(self):
         return MS_RCPSPSolution_Variant(problem=self.problem,
                                         priority_list_task=deepcopy(self.priority_list_task),
-- 
2.43.0


From 5d3dbab99b15e1196a385af88411d1a2ae5701d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 141/155] fix: keep the memory of the domain in rollout_episode
 instead of replacing it by the observation

---
 skdecide/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 4f8ab8e..6281a1d 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -328,10 +328,11 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
             old_time = time.perf_counter()
             if render and has_render:
                 domain.render()
+            memory = domain._memory
             action = solver.sample_action(observation)
             if action_formatter is not None:
                 logger.debug('Action: {}'.format(action_formatter(action)))
-            domain.set_memory(observations[-1])
+            domain._memory = memory  # the policy may have used the domain to simulate
             outcome = domain.step(action)
             observation = outcome.observation
             observations.append(observation)
-- 
2.43.0


From a5578bf537dfcfa39c753bc38bf5a7d34da1f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 142/155] fix: run every requested episode in rollout_episode

---
 skdecide/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skdecide/utils.py b/skdecide/utils.py
index 6281a1d..c8efd7f 100644
--- a/skdecide/utils.py
+++ b/skdecide/utils.py
@@ -303,6 +303,9 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
     has_render = isinstance(domain, Renderable)
     has_goal = isinstance(domain, Goals)
     has_memory = not isinstance(domain, Markovian)
+    observations = []
+    actions = []
+    values = []
     for i_episode in range(num_episodes):
         # Initialize episode
         solver.reset()
@@ -318,9 +321,6 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         # Run episode
         step = 1
 
-        observations = []
-        actions = []
-        values = []
         # save the initial observation
         observations.append(observation)
 
@@ -353,4 +353,4 @@ def rollout_episode(domain: Domain, solver: Optional[Union[Solver, Policies]] =
         if has_goal and verbose:
             logger.info(f'The goal was{"" if domain.is_goal(observation) else " not"} reached '
                         f'in episode {i_episode + 1}.')
-        return observations, actions, values
+    return observations, actions, values
-- 
2.43.0


From d40941752647b3ac2afe223ec6bf1c1eec78993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 143/155] fix: offer to resume with resource units exactly the
 tasks that can be, in their mode

---
 skdecide/builders/scheduling/scheduling_domains.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/scheduling/scheduling_domains.py b/skdecide/builders/scheduling/scheduling_domains.py
index ac70563..cd6f3a8 100644
--- a/skdecide/builders/scheduling/scheduling_domains.py
+++ b/skdecide/builders/scheduling/scheduling_domains.py
@@ -998,7 +998,9 @@ class SchedulingActionSpaceWithResourceUnit(EnumerableSpace[SchedulingAction], S
                                 for t in task_possible_to_pause
                                 if self.domain.get_task_preemptivity()[t]]
             if choice == SchedulingActionEnum.RESUME:
-                task_possible_to_resume = self.state.tasks_paused
+                modes_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
+                task_possible_to_resume = [t for t in self.state.tasks_paused
+                                           if self.state.tasks_mode[t] in modes_possible_to_resume.get(t, {})]
 
                 for possible_to_resume in task_possible_to_resume:
                     possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume,
@@ -1046,8 +1048,9 @@ class SchedulingActionSpaceWithResourceUnitSamplable(SamplableSpace[SchedulingAc
                 task_possible_to_start: Dict[int,
                                              Dict[int, List[str]]] = self.domain.get_possible_starting_tasks(self.state)
             else:
-                task_possible_to_start: Dict[int,
-                                             Dict[int, List[str]]] = self.domain.get_possible_resume_tasks(self.state)
+                modes_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
+                task_possible_to_start = {t: [self.state.tasks_mode[t]] for t in modes_possible_to_resume
+                                          if self.state.tasks_mode[t] in modes_possible_to_resume[t]}
             task_modes = [(t, m)
                           for t in task_possible_to_start
                           for m in task_possible_to_start[t]]
-- 
2.43.0


From 8886c554d7b11a69be38f7328ff34e9f5b7da1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 144/155] fix: report the policy of MaxentIRL as defined, as it
 is for every observation

---
 skdecide/hub/solver/maxent_irl/maxent_irl.py | 458 +++++++++----------
 1 file changed, 229 insertions(+), 229 deletions(-)

diff --git a/skdecide/hub/solver/maxent_irl/maxent_irl.py b/skdecide/hub/solver/maxent_irl/maxent_irl.py
index a29f307..be356c9 100755
--- a/skdecide/hub/solver/maxent_irl/maxent_irl.py
+++ b/skdecide/hub/solver/maxent_irl/maxent_irl.py
@@ -1,229 +1,229 @@
-from __future__ import annotations
-
-import os
-from collections.abc import Iterable
-from typing import Callable
-
-import gym
-import numpy as np
-import pylab
-
-from skdecide import RLDomain, Solver, D
-from skdecide.builders.solver import Policies, Restorable
-from skdecide.hub.solver.cgp import cgp
-
-
-class D(RLDomain):
-    pass
-
-
-class MaxentIRL(Solver, Policies, Restorable):
-    T_domain = D
-
-    def __init__(self,
-                 n_states = 400,
-                 n_actions = 3,
-                 one_feature = 20,
-                 gamma = 0.99,
-                 q_learning_rate = 0.03,
-                 theta_learning_rate = 0.05,
-                 n_epochs=20000,
-                 expert_trajectories = "maxent_expert_demo.npy"
-                 ) -> None:
-        self.n_states = n_states
-        self.feature_matrix = np.eye(self.n_states)
-        self.n_actions = n_actions
-        self.one_feature = one_feature
-
-        self.q_table = np.zeros((n_states, n_actions))
-        self.env = None
-        self.state = None
-        self.n_epochs = n_epochs
-        self.gamma = gamma
-        self.q_learning_rate = q_learning_rate
-        self.theta_learning_rate = theta_learning_rate
-        self.expert_trajectories = expert_trajectories
-
-        self.score = 0
-        if os.path.isfile(expert_trajectories[:-4] + "_maxent_q_table.npy"):
-            self.q_table = np.load(file=expert_trajectories[:-4] + "_maxent_q_table.npy")
-        else:
-            self.q_table = None
-
-    def expert_feature_expectations(self, demonstrations):
-        feature_expectations = np.zeros(self.feature_matrix.shape[0])
-
-        for demonstration in demonstrations:
-            for state_index, _, _ in demonstration:
-                feature_expectations += self.feature_matrix[int(state_index)]
-
-        feature_expectations /= demonstrations.shape[0]
-        return feature_expectations
-
-    def state_to_index(self, observation_space, state):
-        env_low = observation_space.low
-        env_high = observation_space.high
-        env_distance = (env_high - env_low) / self.one_feature
-        position_idx = int((state[0] - env_low[0]) / env_distance[0])
-        velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
-        state_index = position_idx + velocity_idx * self.one_feature
-        return state_index
-
-    def index_to_state(self, observation_space, state):
-        """ Convert pos and vel about mounting car environment to the integer value"""
-        env_low = observation_space.low
-        env_high = observation_space.high
-        env_distance = (env_high - env_low) / self.one_feature
-        position_idx = int((state[0] - env_low[0]) / env_distance[0])
-        velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
-        state_idx = position_idx + velocity_idx * self.one_feature
-        return state_idx
-
-    def gradient_vector(self, expert, learner, theta):
-        gradient = expert - learner
-        theta += self.theta_learning_rate * gradient
-        # Clip theta
-        for j in range(len(theta)):
-            if theta[j] > 0:
-                theta[j] = 0
-
-    def adapt_action_to_environment(self, vals, types):
-
-        if not isinstance(types, Iterable) and \
-                not isinstance(types, gym.spaces.Tuple):
-            types = [types]
-        if not isinstance(vals, Iterable) and \
-                not isinstance(vals, gym.spaces.Tuple):
-            vals = [vals]
-        out = []
-        index = 0
-        for i in range(len(types)):
-            t = types[i]
-            if isinstance(t, gym.spaces.Box):
-                out_temp = []
-                for j in range(len(t.low)):
-                    out_temp += [cgp.change_interval(vals[index], -1, 1, t.low[j], t.high[j])]
-                    index += 1
-                out += [out_temp]
-            elif isinstance(t, gym.spaces.Discrete):
-                out += [vals[index] % t.n]
-                index += 1
-            else:
-                raise ValueError("Unsupported type ", str(t))
-        # burk
-        if len(types) == 1:
-            return out[0]
-        else:
-            return out
-
-    def update_q_table(self, state, action, reward, next_state):
-        q_1 = self.q_table[state][action]
-        q_2 = reward + self.gamma * max(self.q_table[next_state])
-        self.q_table[state][action] += self.q_learning_rate * (q_2 - q_1)
-
-    def process_stable_baselines_npz_trajs(self, rawFile):
-        traj_length = rawFile["episode_returns"].max
-        num_traj = rawFile["episode_returns"].size
-        demonstrations = np.zeros((num_traj, traj_length, rawFile["obs"].shape[2]))
-        index = 0
-        for x in range(num_traj):
-            for y in range(traj_length):
-                demonstrations[x][y][0] = index
-                demonstrations[x][y][1] = rawFile["actions"][index]
-                index+=1
-
-    def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
-        self.env = domain_factory()
-        if self.q_table is not None:            
-            return
-        self.q_table = np.zeros((self.n_states, self.n_actions))
-        #raw_demo2 = np.load(file=self.expert_trajectories)
-        #if isinstance(raw_demo, np.lib.npyio.NpzFile):
-
-        if not os.path.isfile(self.expert_trajectories):
-            print("file with expert trajectories not found")
-            return
-        if not isinstance(self.env.get_action_space().unwrapped(), gym.spaces.Discrete):
-            print("Warning! This IRL method relies on Q-tables so the action space is treated as discrete")
-        raw_demo = np.load(file=self.expert_trajectories)
-        demonstrations = np.zeros((raw_demo.shape[0], raw_demo.shape[1], raw_demo.shape[2]))
-        env_low = self.env.get_observation_space().unwrapped().low
-        env_high = self.env.get_observation_space().unwrapped().high
-        env_distance = (env_high - env_low) / self.one_feature
-        for x in range(len(raw_demo)):
-            for y in range(len(raw_demo[0])):
-                position_idx = int((raw_demo[x][y][0] - env_low[0]) / env_distance[0])
-                velocity_idx = int((raw_demo[x][y][1] - env_low[1]) / env_distance[1])
-                state_index = position_idx + velocity_idx * self.one_feature
-
-                demonstrations[x][y][0] = state_index
-                demonstrations[x][y][1] = raw_demo[x][y][2]
-
-        np.random.seed(1)
-        expert = self.expert_feature_expectations(demonstrations)
-        learner_feature_expectations = np.zeros(self.n_states)
-
-        theta = -(np.random.uniform(size=(self.n_states,)))
-
-        episodes, scores = [], []
-
-        for episode in range(self.n_epochs):
-            state = self.env.reset()
-            score = 0
-
-            if (episode != 0 and episode == 10000) or (episode > 10000 and episode % 5000 == 0):
-                learner = learner_feature_expectations / episode
-                self.gradient_vector(expert, learner, theta)
-
-            while True:
-                state_index = self.state_to_index(self.env.get_observation_space().unwrapped(), state)
-                action = np.argmax(self.q_table[state_index])
-                next_state, transition_value, done, _ = self.env.step(action).astuple()
-                reward = transition_value[0]  # TODO: correct Gym wrapper
-
-                irl_rewards = self.feature_matrix.dot(theta).reshape((self.n_states,))
-                irl_reward = irl_rewards[state_index]
-                
-                next_state_index = self.state_to_index(self.env.get_observation_space().unwrapped(), next_state)
-
-                q_1 = self.q_table[state_index][action]
-                q_2 = irl_reward + self.gamma * max(self.q_table[next_state_index])
-                self.q_table[state_index][action] += self.q_learning_rate * (q_2 - q_1)
-
-                learner_feature_expectations += self.feature_matrix[int(state_index)]
-
-                score += reward
-                state = next_state
-
-                if done:
-                    scores.append(score)
-                    episodes.append(episode)
-                    break
-
-            if episode % 1000 == 0:
-                score_avg = np.mean(scores)
-                print('{} episode score is {:.2f}'.format(episode, score_avg))
-                pylab.plot(episodes, scores, 'b')
-                pylab.savefig("./maxent.png")
-                np.save("./" + self.expert_trajectories[:-4] + "_maxent_q_table", arr=self.q_table)
-
-        self.q_table = np.load(file= self.expert_trajectories[:-4] + "_maxent_q_table.npy")
-
-    def _sample_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
-
-        state_idx = self.index_to_state(self.env.get_observation_space().unwrapped(), observation)
-        action = np.argmax(self.q_table[state_idx])
-        return self.adapt_action_to_environment(action, self.env.get_action_space().unwrapped())
-
-    def _reset(self) -> None:
-        self.state = self.env.reset()
-        self.score = 0
-
-    def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
-        pass
-
-    def _save(self, path: str) -> None:
-        pass
-
-    def _load(self, path: str, domain_factory: Callable[[], D]) -> None:
-        pass
+from __future__ import annotations
+
+import os
+from collections.abc import Iterable
+from typing import Callable
+
+import gym
+import numpy as np
+import pylab
+
+from skdecide import RLDomain, Solver, D
+from skdecide.builders.solver import Policies, Restorable
+from skdecide.hub.solver.cgp import cgp
+
+
+class D(RLDomain):
+    pass
+
+
+class MaxentIRL(Solver, Policies, Restorable):
+    T_domain = D
+
+    def __init__(self,
+                 n_states = 400,
+                 n_actions = 3,
+                 one_feature = 20,
+                 gamma = 0.99,
+                 q_learning_rate = 0.03,
+                 theta_learning_rate = 0.05,
+                 n_epochs=20000,
+                 expert_trajectories = "maxent_expert_demo.npy"
+                 ) -> None:
+        self.n_states = n_states
+        self.feature_matrix = np.eye(self.n_states)
+        self.n_actions = n_actions
+        self.one_feature = one_feature
+
+        self.q_table = np.zeros((n_states, n_actions))
+        self.env = None
+        self.state = None
+        self.n_epochs = n_epochs
+        self.gamma = gamma
+        self.q_learning_rate = q_learning_rate
+        self.theta_learning_rate = theta_learning_rate
+        self.expert_trajectories = expert_trajectories
+
+        self.score = 0
+        if os.path.isfile(expert_trajectories[:-4] + "_maxent_q_table.npy"):
+            self.q_table = np.load(file=expert_trajectories[:-4] + "_maxent_q_table.npy")
+        else:
+            self.q_table = None
+
+    def expert_feature_expectations(self, demonstrations):
+        feature_expectations = np.zeros(self.feature_matrix.shape[0])
+
+        for demonstration in demonstrations:
+            for state_index, _, _ in demonstration:
+                feature_expectations += self.feature_matrix[int(state_index)]
+
+        feature_expectations /= demonstrations.shape[0]
+        return feature_expectations
+
+    def state_to_index(self, observation_space, state):
+        env_low = observation_space.low
+        env_high = observation_space.high
+        env_distance = (env_high - env_low) / self.one_feature
+        position_idx = int((state[0] - env_low[0]) / env_distance[0])
+        velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
+        state_index = position_idx + velocity_idx * self.one_feature
+        return state_index
+
+    def index_to_state(self, observation_space, state):
+        """ Convert pos and vel about mounting car environment to the integer value"""
+        env_low = observation_space.low
+        env_high = observation_space.high
+        env_distance = (env_high - env_low) / self.one_feature
+        position_idx = int((state[0] - env_low[0]) / env_distance[0])
+        velocity_idx = int((state[1] - env_low[1]) / env_distance[1])
+        state_idx = position_idx + velocity_idx * self.one_feature
+        return state_idx
+
+    def gradient_vector(self, expert, learner, theta):
+        gradient = expert - learner
+        theta += self.theta_learning_rate * gradient
+        # Clip theta
+        for j in range(len(theta)):
+            if theta[j] > 0:
+                theta[j] = 0
+
+    def adapt_action_to_environment(self, vals, types):
+
+        if not isinstance(types, Iterable) and \
+                not isinstance(types, gym.spaces.Tuple):
+            types = [types]
+        if not isinstance(vals, Iterable) and \
+                not isinstance(vals, gym.spaces.Tuple):
+            vals = [vals]
+        out = []
+        index = 0
+        for i in range(len(types)):
+            t = types[i]
+            if isinstance(t, gym.spaces.Box):
+                out_temp = []
+                for j in range(len(t.low)):
+                    out_temp += [cgp.change_interval(vals[index], -1, 1, t.low[j], t.high[j])]
+                    index += 1
+                out += [out_temp]
+            elif isinstance(t, gym.spaces.Discrete):
+                out += [vals[index] % t.n]
+                index += 1
+            else:
+                raise ValueError("Unsupported type ", str(t))
+        # burk
+        if len(types) == 1:
+            return out[0]
+        else:
+            return out
+
+    def update_q_table(self, state, action, reward, next_state):
+        q_1 = self.q_table[state][action]
+        q_2 = reward + self.gamma * max(self.q_table[next_state])
+        self.q_table[state][action] += self.q_learning_rate * (q_2 - q_1)
+
+    def process_stable_baselines_npz_trajs(self, rawFile):
+        traj_length = rawFile["episode_returns"].max
+        num_traj = rawFile["episode_returns"].size
+        demonstrations = np.zeros((num_traj, traj_length, rawFile["obs"].shape[2]))
+        index = 0
+        for x in range(num_traj):
+            for y in range(traj_length):
+                demonstrations[x][y][0] = index
+                demonstrations[x][y][1] = rawFile["actions"][index]
+                index+=1
+
+    def _solve_domain(self, domain_factory: Callable[[], D]) -> None:
+        self.env = domain_factory()
+        if self.q_table is not None:            
+            return
+        self.q_table = np.zeros((self.n_states, self.n_actions))
+        #raw_demo2 = np.load(file=self.expert_trajectories)
+        #if isinstance(raw_demo, np.lib.npyio.NpzFile):
+
+        if not os.path.isfile(self.expert_trajectories):
+            print("file with expert trajectories not found")
+            return
+        if not isinstance(self.env.get_action_space().unwrapped(), gym.spaces.Discrete):
+            print("Warning! This IRL method relies on Q-tables so the action space is treated as discrete")
+        raw_demo = np.load(file=self.expert_trajectories)
+        demonstrations = np.zeros((raw_demo.shape[0], raw_demo.shape[1], raw_demo.shape[2]))
+        env_low = self.env.get_observation_space().unwrapped().low
+        env_high = self.env.get_observation_space().unwrapped().high
+        env_distance = (env_high - env_low) / self.one_feature
+        for x in range(len(raw_demo)):
+            for y in range(len(raw_demo[0])):
+                position_idx = int((raw_demo[x][y][0] - env_low[0]) / env_distance[0])
+                velocity_idx = int((raw_demo[x][y][1] - env_low[1]) / env_distance[1])
+                state_index = position_idx + velocity_idx * self.one_feature
+
+                demonstrations[x][y][0] = state_index
+                demonstrations[x][y][1] = raw_demo[x][y][2]
+
+        np.random.seed(1)
+        expert = self.expert_feature_expectations(demonstrations)
+        learner_feature_expectations = np.zeros(self.n_states)
+
+        theta = -(np.random.uniform(size=(self.n_states,)))
+
+        episodes, scores = [], []
+
+        for episode in range(self.n_epochs):
+            state = self.env.reset()
+            score = 0
+
+            if (episode != 0 and episode == 10000) or (episode > 10000 and episode % 5000 == 0):
+                learner = learner_feature_expectations / episode
+                self.gradient_vector(expert, learner, theta)
+
+            while True:
+                state_index = self.state_to_index(self.env.get_observation_space().unwrapped(), state)
+                action = np.argmax(self.q_table[state_index])
+                next_state, transition_value, done, _ = self.env.step(action).astuple()
+                reward = transition_value[0]  # TODO: correct Gym wrapper
+
+                irl_rewards = self.feature_matrix.dot(theta).reshape((self.n_states,))
+                irl_reward = irl_rewards[state_index]
+                
+                next_state_index = self.state_to_index(self.env.get_observation_space().unwrapped(), next_state)
+
+                q_1 = self.q_table[state_index][action]
+                q_2 = irl_reward + self.gamma * max(self.q_table[next_state_index])
+                self.q_table[state_index][action] += self.q_learning_rate * (q_2 - q_1)
+
+                learner_feature_expectations += self.feature_matrix[int(state_index)]
+
+                score += reward
+                state = next_state
+
+                if done:
+                    scores.append(score)
+                    episodes.append(episode)
+                    break
+
+            if episode % 1000 == 0:
+                score_avg = np.mean(scores)
+                print('{} episode score is {:.2f}'.format(episode, score_avg))
+                pylab.plot(episodes, scores, 'b')
+                pylab.savefig("./maxent.png")
+                np.save("./" + self.expert_trajectories[:-4] + "_maxent_q_table", arr=self.q_table)
+
+        self.q_table = np.load(file= self.expert_trajectories[:-4] + "_maxent_q_table.npy")
+
+    def _sample_action(self, observation: D.T_agent[D.T_observation]) -> D.T_agent[D.T_concurrency[D.T_event]]:
+
+        state_idx = self.index_to_state(self.env.get_observation_space().unwrapped(), observation)
+        action = np.argmax(self.q_table[state_idx])
+        return self.adapt_action_to_environment(action, self.env.get_action_space().unwrapped())
+
+    def _reset(self) -> None:
+        self.state = self.env.reset()
+        self.score = 0
+
+    def _is_policy_defined_for(self, observation: D.T_agent[D.T_observation]) -> bool:
+        return True
+
+    def _save(self, path: str) -> None:
+        pass
+
+    def _load(self, path: str, domain_factory: Callable[[], D]) -> None:
+        pass
-- 
2.43.0


From b8e574ff915d29d9dab989cc08c59226bddd63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 145/155] fix: start the schedule of the individuals at the
 first start, not at the start of the first task that ends

---
 .../rcpsp_multiskill/plots/plot_solution.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/plots/plot_solution.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/plots/plot_solution.py
index 0d43362..3949078 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/plots/plot_solution.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/plots/plot_solution.py
@@ -21,7 +21,7 @@ def compute_schedule_per_resource_individual(rcpsp_model: MS_RCPSPModel,
     sorted_task_by_end = sorted(rcpsp_sol.schedule,
                                 key=lambda x: 100000*rcpsp_sol.schedule[x]["end_time"]+x)
     max_time = rcpsp_sol.schedule[sorted_task_by_end[-1]]["end_time"]
-    min_time = rcpsp_sol.schedule[sorted_task_by_end[0]]["start_time"]
+    min_time = rcpsp_sol.schedule[sorted_task_by_start[0]]["start_time"]
     print("Min time ", min_time)
     print("Max time ", max_time)
     employee_usage = {employee:
-- 
2.43.0


From dd0eccc6b10a7a40a97f51bb536beb226b817ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:16 +0000
Subject: [PATCH 146/155] fix: give the arities of a boolean encoding the name
 the mutations read (Ga, Nsga)

---
 skdecide/builders/discrete_optimization/generic_tools/ea/ga.py  | 2 +-
 .../builders/discrete_optimization/generic_tools/ea/nsga.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
index b5e2f60..3e64585 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/ga.py
@@ -172,7 +172,7 @@ class Ga():
 
         if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
             self.arrity = 2
-            self.arities = [2 for i in range(self.n)]
+            self.arrities = [2 for i in range(self.n)]
 
         print("Encoding used by the GA: "+self._encoding_name+": "+str(self._encoding_type)+" of length "+str(self.n))
 
diff --git a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
index 2018a0d..25b932b 100644
--- a/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
+++ b/skdecide/builders/discrete_optimization/generic_tools/ea/nsga.py
@@ -146,7 +146,7 @@ class Nsga():
 
         if self._encoding_type == TypeAttribute.LIST_BOOLEAN:
             self.arrity = 2
-            self.arities = [2 for i in range(self.n)]
+            self.arrities = [2 for i in range(self.n)]
 
         print("Encoding used by the GA: "+self._encoding_name+": "+str(self._encoding_type)+" of length "+str(self.n))
 
-- 
2.43.0


From 9bca99d843337e7930b4a1779ee5e7699356e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 147/155] fix: the single mode model rejected schedules whose
 last, empty task starts at the total duration

---
 .../rcpsp/minizinc/rcpsp_single_mode_mzn.mzn                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
index de2ca8a..94bc36d 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_single_mode_mzn.mzn
@@ -41,7 +41,7 @@ array [Tasks]      of set of int: suc;  % The task successors
 
 % Planning horizon
 int: t_max = sum(i in Tasks)(d[i]);     % End time of the planning horizon
-set of int: Times = 0..t_max-1;     % Possible start times
+set of int: Times = 0..t_max;       % Possible start times (an empty task may start at the end)
 
 %-----------------------------------------------------------------------------%
 % Model variables.
-- 
2.43.0


From d2aab04d47eaee7574501068533a92d31edaf457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 148/155] fix: nothing is available after the end of the
 calendar in my_cumulative, instead of no solution at all

---
 .../discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
index 4ed6366..a4be1d4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/fzn_my_cumulative.mzn
@@ -33,7 +33,7 @@ predicate cumulative_time_calendar(array[int] of var int: s,
         int: late  = max([ ub(s[i]) + ub(d[i]) | i in Tasks ])
     } in (
         forall( t in early..late ) (
-            b[t+1] >= sum( i in Tasks ) (
+            if t+1 in index_set(b) then b[t+1] else 0 endif >= sum( i in Tasks ) (
                 bool2int(s[i] <= t /\ t < s[i] + d[i]) * r[i]
             )
         )
-- 
2.43.0


From cf3321b6dde10b4d55bc3062b4e51dfbb6b3b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 149/155] fix: the calendar model forbade waiting for resources
 beyond the sum of durations

---
 .../rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
index 13ffdcb..aa2d268 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp/minizinc/rcpsp_multi_mode_mzn_calendar.mzn
@@ -61,9 +61,8 @@ int: max_mrreq = max(k in Res, m in Mod)(mrreq[k,m]);
 %---------------------------------------------------------------------------%
 % Variables
 
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
-
 int: max_time;
+int: UB = max_time; % tasks may have to wait for resources to be available
 set of int: TIME_ARR = 1..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
 
-- 
2.43.0


From 347c4f17fd292dd8d8b15c6ff045a8f02fd495c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 150/155] fix: the calendar of the units made the multiskill
 model unsatisfiable as soon as a task is empty

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn     | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 3a983f0..9974ee7 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -88,14 +88,9 @@ endif);
 % Unit used available
 constraint
     if add_calendar_constraint_unit then
-        forall(i in Act)(
-             forall(w in Units)(
-                 let{var TIME_ARR0: st=start[i],
-                     var TIME_ARR0: end=start[i]+adur[i]} in (
-                        unit_used[w, i] <= min(t in st..end-1)(ressource_unit_capacity_time0[w, t])
-                     )
-             )
-      )
+        forall(i in Act, w in Units, t in TIME_ARR0 where ressource_unit_capacity_time0[w, t] == 0)(
+             unit_used[w, i] -> (start[i] > t \/ start[i] + adur[i] <= t)
+        )
     endif;
 
 constraint forall(s in Skill, i in Act)(
-- 
2.43.0


From cfb423f0276ff7d7c9f77410bfa371fb903a0357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 151/155] fix: the multiskill calendar model forbade waiting
 for units beyond the sum of durations

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 9974ee7..92a9b41 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -147,7 +147,7 @@ int: max_mrreq = if nb_res>0 then max(k in Res, m in Mod)(mrreq[k,m]) else 0 end
 %---------------------------------------------------------------------------%
 % Variables
 int: max_time;
-int: UB = sum(i in Act)(max([mdur[m] | m in mode[i]]));
+int: UB = max_time; % tasks may have to wait for units or resources to be available
 set of int: TIME_ARR=1..max_time+1;
 set of int: TIME_ARR0=0..max_time;
 array[Res, TIME_ARR] of int: ressource_capacity_time;
-- 
2.43.0


From 714c8e0600dc43793c42987aad2d867b54471b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:46 +0000
Subject: [PATCH 152/155] fix: the multiskill calendar model ignored the
 calendars of the resources

---
 .../minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
index 92a9b41..708c79f 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/minizinc/ms_rcpsp_multi_mode_mzn_calendar.mzn
@@ -186,11 +186,12 @@ constraint forall(i in Act, j in succ[i])(start[i] + adur[i] <= start[j]);
 
     % Renewable resource constraints
     %
-%constraint forall(k in RRes)(
-%    my_cumulative(start, adur,
-%                  [arreq[k,i] | i in Act],
-%                  [ressource_capacity_time[k,t] | t in TIME_ARR])
-%);
+constraint forall(k in RRes)(
+    my_cumulative(start, adur,
+                  [arreq[k,i] | i in Act],
+                  [ressource_capacity_time[k,t] | t in TIME_ARR],
+                  max_time)
+);
 
 constraint forall(k in RRes)(
     cumulative(start, adur, [arreq[k,i] | i in Act], rcap[k])
-- 
2.43.0


From bcc2a0c98b25a88d973da72be067566105e5056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:29 +0000
Subject: [PATCH 153/155] fix: the multiskill CP model can be built when there
 are no resources (its parameters are always given)

---
 .../rcpsp_multiskill/solvers/cp_solvers.py    | 49 +++++++++----------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index cfc35f5..b75ac28 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -71,9 +71,8 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         n_res = len(resources_list)
         # print('n_res: ', n_res)
         keys = []
-        if not no_ressource:
-            instance["n_res"] = n_res
-            keys += ["n_res"]
+        instance["n_res"] = n_res
+        keys += ["n_res"]
         if model_type == "multi-calendar":
             instance["exact_skills_need"] = exact_skills_need
             keys += ["exact_skills_need"]
@@ -119,15 +118,14 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         instance['dur'] = dur
         keys += ["dur"]
 
-        if not no_ressource:
-            rreq = []
-            index = 0
-            for res in resources_list:
-                rreq.append([])
-                for task in sorted_tasks:
-                    for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
-                        rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
-                index += 1
+        rreq = []
+        index = 0
+        for res in resources_list:
+            rreq.append([])
+            for task in sorted_tasks:
+                for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
+                    rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
+            index += 1
 
         skills_set = sorted(list(self.rcpsp_model.skills_set))
         nb_units = len(self.rcpsp_model.employees)
@@ -143,6 +141,8 @@ class CP_MS_MRCPSP_MZN(CPSolver):
             if no_ressource:
                 instance["max_time"] = self.rcpsp_model.horizon
                 keys += ["max_time"]
+                instance["ressource_capacity_time"] = []
+                keys += ["ressource_capacity_time"]
             else:
                 one_ressource = list(self.rcpsp_model.resources_availability.keys())[0]
                 instance["max_time"] = min(len(self.rcpsp_model.resources_availability[one_ressource])-1,
@@ -179,21 +179,20 @@ class CP_MS_MRCPSP_MZN(CPSolver):
         print("Employee position CP ", self.employees_position)
 
         # print('rreq: ', rreq)
-        if not no_ressource:
-            instance["rreq"] = rreq
-            keys += ["rreq"]
+        instance["rreq"] = rreq
+        keys += ["rreq"]
 
-            rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
-            # print('rcap: ', rcap)
-            instance["rcap"] = rcap
-            keys += ["rcap"]
-            # print('non_renewable_resources:', self.rcpsp_model.non_renewable_resources)
-            rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1
-                     for res in resources_list]
+        rcap = [int(max(self.rcpsp_model.resources_availability[x])) for x in resources_list]
+        # print('rcap: ', rcap)
+        instance["rcap"] = rcap
+        keys += ["rcap"]
+        # print('non_renewable_resources:', self.rcpsp_model.non_renewable_resources)
+        rtype = [2 if res in self.rcpsp_model.non_renewable_resources else 1
+                 for res in resources_list]
 
-            # print('rtype: ', rtype)
-            instance["rtype"] = rtype
-            keys += ["rtype"]
+        # print('rtype: ', rtype)
+        instance["rtype"] = rtype
+        keys += ["rtype"]
 
         succ = [set(self.rcpsp_model.successors[task]) for task in sorted_tasks]
         # print('succ: ', succ)
-- 
2.43.0


From d436ed4ef20fb6067a0352d18f45e8f6f91e79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 154/155] fix: number the modes of the mode-satisfaction model
 in increasing order, whatever their keys

---
 .../discrete_optimization/rcpsp/solver/cp_solvers.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
index 53f84be..fc332a4 100644
--- a/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp/solver/cp_solvers.py
@@ -690,11 +690,11 @@ class CP_MRCPSP_MZN_MODES:
         self.modeindex_map = {}
 
         for act in sorted_tasks:
-            tmp = list(self.rcpsp_model.mode_details[act].keys())
+            tmp = sorted(self.rcpsp_model.mode_details[act].keys())
             # tmp = [counter + x for x in tmp]
             for i in range(len(tmp)):
                 original_mode_index = tmp[i]
-                mod_index = counter+tmp[i]
+                mod_index = counter+i+1
                 tmp[i] = mod_index
                 self.modeindex_map[mod_index] = {'task': act, 'original_mode_index': original_mode_index}
             modes.append(set(tmp))
@@ -709,7 +709,7 @@ class CP_MRCPSP_MZN_MODES:
         for res in self.rcpsp_model.resources.keys():
             rreq.append([])
             for task in sorted_tasks:
-                for mod in self.rcpsp_model.mode_details[task].keys():
+                for mod in sorted(self.rcpsp_model.mode_details[task].keys()):
                     rreq[index].append(int(self.rcpsp_model.mode_details[task][mod][res]))
             index += 1
 
-- 
2.43.0


From 871b9948898a1e8b98ab4ac68b2da139fcd71524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 155/155] fix: number the modes of the multi-skill model
 consecutively, whatever their keys

---
 .../rcpsp_multiskill/solvers/cp_solvers.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
index b75ac28..cc33874 100644
--- a/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
+++ b/skdecide/builders/discrete_optimization/rcpsp_multiskill/solvers/cp_solvers.py
@@ -103,7 +103,7 @@ class CP_MS_MRCPSP_MZN(CPSolver):
             # tmp = [counter + x for x in tmp]
             for i in range(len(tmp)):
                 original_mode_index = tmp[i]
-                mod_index = counter+tmp[i]
+                mod_index = counter+i+1
                 tmp[i] = mod_index
                 self.modeindex_map[mod_index] = {'task': act, 'original_mode_index': original_mode_index}
             modes.append(set(tmp))
-- 
2.43.0

