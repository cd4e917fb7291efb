# C25: wrappers of reinforcement learners


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline.__init__")
def _(self, algo_class, baselines_policy, learn_config=None, **kwargs):
    self._algo_class = algo_class
    self._baselines_policy = baselines_policy
    self._learn_config = learn_config if learn_config is not None else {}
    self._algo_kwargs = kwargs


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._check_domain_additional")
def _(cls, domain):
    return isinstance(domain.get_action_space(), GymSpace) and isinstance(domain.get_observation_space(), GymSpace)


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._solve_domain")
def _(self, domain_factory):
    if not hasattr(self, '_algo'):
        domain = domain_factory()
        env = DummyVecEnv([lambda: AsGymEnv(domain)])
        self._algo = self._algo_class(self._baselines_policy, env, **self._algo_kwargs)
        self._init_algo(domain)
    self._algo.learn(**self._learn_config)


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._sample_action")
def _(self, observation):
    action, _ = self._algo.predict(self._unwrap_obs(observation))
    return self._wrap_action(action)


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._save")
def _(self, path):
    self._algo.save(path)


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._load")
def _(self, path, domain_factory):
    self._algo = self._algo_class.load(path)
    self._init_algo(domain_factory())


@spec("hub/solver/stable_baselines/stable_baselines.py", "StableBaseline._init_algo")
def _(self, domain):
    self._wrap_action = lambda a: next(iter(domain.get_action_space().from_unwrapped([a])))
    self._unwrap_obs = lambda o: next(iter(domain.get_observation_space().to_unwrapped([o])))


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib.__init__")
def _(self, algo_class, train_iterations, config=None, policy_configs={'policy': {}}, policy_mapping_fn=lambda agent_id: 'policy'):
    self._algo_class = algo_class
    self._train_iterations = train_iterations
    self._config = config or {}
    self._policy_configs = policy_configs
    self._policy_mapping_fn = policy_mapping_fn
    ray.init(ignore_reinit_error=True)


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._check_domain_additional")
def _(cls, domain):
    if isinstance(domain, SingleAgent):
        return isinstance(domain.get_action_space(), GymSpace) and isinstance(domain.get_observation_space(), GymSpace)
    else:
        return all((isinstance(a, GymSpace) for a in domain.get_action_space().values())) and all((isinstance(o, GymSpace) for o in domain.get_observation_space().values()))


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._solve_domain")
def _(self, domain_factory):
    if not hasattr(self, '_algo'):
        self._init_algo(domain_factory)
    for _ in range(self._train_iterations):
        self._algo.train()


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._sample_action")
def _(self, observation):
    action = {k: self._algo.compute_action(self._unwrap_obs(v, k), policy_id=self._policy_mapping_fn(k)) for k, v in observation.items()}
    return self._wrap_action(action)


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._is_policy_defined_for")
def _(self, observation):
    return True


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._save")
def _(self, path):
    self._algo.save(path)


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._load")
def _(self, path, domain_factory):
    if not os.path.isfile(path):
        metadata_files = glob.glob(f'{path}/**/*.tune_metadata')
        latest_metadata_file = max(metadata_files, key=os.path.getctime)
        path = latest_metadata_file[:-len('.tune_metadata')]
    self._init_algo(domain_factory)
    self._algo.restore(path)


@spec("hub/solver/ray_rllib/ray_rllib.py", "RayRLlib._init_algo")
def _(self, domain_factory):
    domain = domain_factory()
    self._wrap_action = lambda a: {k: next(iter(domain.get_action_space()[k].from_unwrapped([v]))) for k, v in a.items()}
    self._unwrap_obs = lambda o, agent: next(iter(domain.get_observation_space()[agent].to_unwrapped([o])))
    pol_obs_spaces = {self._policy_mapping_fn(k): v.unwrapped() for k, v in domain.get_observation_space().items()}
    pol_act_spaces = {self._policy_mapping_fn(k): v.unwrapped() for k, v in domain.get_action_space().items()}
    policies = {k: (None, pol_obs_spaces[k], pol_act_spaces[k], v or {}) for k, v in self._policy_configs.items()}
    self._config['multiagent'] = {'policies': policies, 'policy_mapping_fn': self._policy_mapping_fn}
    register_env('skdecide_env', lambda _: AsRLlibMultiAgentEnv(domain_factory()))
    self._algo = self._algo_class(env='skdecide_env', config=self._config)


@spec("hub/solver/ray_rllib/ray_rllib.py", "AsRLlibMultiAgentEnv.__init__")
def _(self, domain):
    self._domain = domain


@spec("hub/solver/ray_rllib/ray_rllib.py", "AsRLlibMultiAgentEnv.reset")
def _(self):
    raw_observation = self._domain.reset()
    observation = {k: next(iter(self._domain.get_observation_space()[k].to_unwrapped([v]))) for k, v in raw_observation.items()}
    return observation


@spec("hub/solver/ray_rllib/ray_rllib.py", "AsRLlibMultiAgentEnv.step")
def _(self, action_dict):
    action = {k: next(iter(self._domain.get_action_space()[k].from_unwrapped([v]))) for k, v in action_dict.items()}
    outcome = self._domain.step(action)
    observations = {k: next(iter(self._domain.get_observation_space()[k].to_unwrapped([v]))) for k, v in outcome.observation.items()}
    rewards = {k: v.reward for k, v in outcome.value.items()}
    done = {'__all__': outcome.termination}
    infos = {k: v or {} for k, v in outcome.info.items()}
    return (observations, rewards, done, infos)


@spec("hub/solver/ray_rllib/ray_rllib.py", "AsRLlibMultiAgentEnv.unwrapped")
def _(self):
    return self._domain
