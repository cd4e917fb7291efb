# C22: applicable scheduling actions


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain._get_applicable_actions_from")
def _(self, memory):
    if isinstance(self, WithoutResourceSkills) and isinstance(self, WithoutResourceUnit):
        return SchedulingActionSpace(domain=self, state=memory)
    else:
        return SchedulingActionSpaceWithResourceUnitSamplable(domain=self, state=memory)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.check_if_action_can_be_started")
def _(self, state, action):
    if not action.action == SchedulingActionEnum.START and (not action.action == SchedulingActionEnum.RESUME):
        return (True, {})
    started_task = action.task
    mode = action.mode
    if mode is None:
        mode = state.tasks_mode[started_task]
    resource_to_use = self.get_resource_used(task=started_task, mode=mode, resource_unit_names=action.resource_unit_names, time_since_start=state.tasks_details[started_task].get_task_active_time(state.t))
    if any((resource_to_use[r] > state.resource_availability[r] - state.resource_used[r] for r in resource_to_use)):
        return (False, resource_to_use)
    b = self.check_if_skills_are_fulfilled(task=started_task, mode=mode, resource_used=resource_to_use)
    return (b, resource_to_use)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.get_resource_used")
def _(self, task, mode, resource_unit_names, time_since_start):
    r_used = {}
    for res in self.get_resource_types_names():
        res_consumption = self.get_tasks_modes()[task][mode].get_resource_need_at_time(resource_name=res, time=time_since_start)
        r_used[res] = res_consumption
    if resource_unit_names is not None:
        for resource_unit_name in resource_unit_names:
            r_used[resource_unit_name] = 1
    return r_used


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.get_possible_starting_tasks")
def _(self, state):
    possible_task_precedence = [(n, mode) for n in state.tasks_remaining for mode in self.get_task_modes(n).keys() if all((m in state.tasks_complete for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state))))]
    possible_task_with_ressource = [(n, mode) for n, mode in possible_task_precedence if all((state.resource_availability[key] - state.resource_used[key] - self.get_task_modes(n)[mode].get_resource_need_at_time(resource_name=key, time=0) >= 0 for key in self.get_resource_types_names()))]
    possible_tasks = {}
    for n, mode in possible_task_with_ressource:
        possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
    return possible_tasks


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.get_possible_resume_tasks")
def _(self, state):
    possible_task_precedence = [(n, mode) for n in state.tasks_paused for mode in self.get_task_modes(n).keys() if all((m in state.tasks_complete for m in set(self.ancestors[n]).intersection(self.get_available_tasks(state))))]
    possible_task_with_ressource = [(n, mode) for n, mode in possible_task_precedence if all((state.resource_availability[key] - state.resource_used[key] - self.get_task_modes(n)[mode].get_resource_need_at_time(resource_name=key, time=state.tasks_details[n].get_task_active_time(state.t)) >= 0 for key in self.get_resource_types_names()))]
    possible_tasks = {}
    for n, mode in possible_task_with_ressource:
        possible_tasks.setdefault(n, {})[mode] = self.get_task_modes(n)[mode].get_non_zero_ressource_need_names(0)
    return possible_tasks


@spec("builders/scheduling/scheduling_domains.py", "SchedulingDomain.state_is_overconsuming")
def _(self, state):
    return any((state.resource_used[k] > state.resource_availability[k] for k in state.resource_used))


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpace.__init__")
def _(self, domain, state):
    self.domain = domain
    self.state = state
    self.elements = self._get_elements()


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpace._get_elements")
def _(self):
    choices = [SchedulingActionEnum.START, SchedulingActionEnum.PAUSE, SchedulingActionEnum.RESUME, SchedulingActionEnum.TIME_PR]
    list_action = []
    if self.domain.state_is_overconsuming(self.state):
        choices = [SchedulingActionEnum.PAUSE, SchedulingActionEnum.TIME_PR]
    for choice in choices:
        if choice == SchedulingActionEnum.START:
            task_possible_to_start = self.domain.get_possible_starting_tasks(self.state)
            list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.START, mode=m, time_progress=False) for t in task_possible_to_start for m in task_possible_to_start[t]]
        if choice == SchedulingActionEnum.PAUSE:
            task_possible_to_pause = self.state.tasks_ongoing
            list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.PAUSE, mode=None, time_progress=False) for t in task_possible_to_pause if self.domain.get_task_preemptivity()[t]]
        if choice == SchedulingActionEnum.RESUME:
            modes_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
            task_possible_to_resume = [t for t in self.state.tasks_paused if self.state.tasks_mode[t] in modes_possible_to_resume.get(t, {})]
            list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.RESUME, mode=self.state.tasks_mode[t], time_progress=False) for t in task_possible_to_resume]
        if choice == SchedulingActionEnum.TIME_PR:
            list_action.append(SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True))
    return list_action


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpace.get_elements")
def _(self):
    return self.elements


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpace.sample")
def _(self):
    return random.choice(self.elements)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnit.__init__")
def _(self, domain, state):
    self.domain = domain
    self.state = state
    self.elements = self._get_elements()


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnit._get_elements")
def _(self):
    choices = [SchedulingActionEnum.START, SchedulingActionEnum.PAUSE, SchedulingActionEnum.RESUME, SchedulingActionEnum.TIME_PR]
    list_action = []
    if self.domain.state_is_overconsuming(self.state):
        choices = [SchedulingActionEnum.PAUSE, SchedulingActionEnum.TIME_PR]
    for choice in choices:
        if choice == SchedulingActionEnum.START:
            task_possible_to_start = self.domain.get_possible_starting_tasks(self.state)
            for possible_to_start in task_possible_to_start:
                for mode in task_possible_to_start[possible_to_start]:
                    possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_start, mode=mode)
                    list_action += [SchedulingAction(task=possible_to_start, action=SchedulingActionEnum.START, mode=mode, time_progress=False, resource_unit_names={r} if r is not None else None) for r in possible if r is None or self.state.resource_used[r] + 1 <= self.state.resource_availability[r]]
        if choice == SchedulingActionEnum.PAUSE:
            task_possible_to_pause = self.state.tasks_ongoing
            list_action += [SchedulingAction(task=t, action=SchedulingActionEnum.PAUSE, mode=None, time_progress=False) for t in task_possible_to_pause if self.domain.get_task_preemptivity()[t]]
        if choice == SchedulingActionEnum.RESUME:
            modes_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
            task_possible_to_resume = [t for t in self.state.tasks_paused if self.state.tasks_mode[t] in modes_possible_to_resume.get(t, {})]
            for possible_to_resume in task_possible_to_resume:
                possible = self.domain.find_one_ressource_to_do_one_task(task=possible_to_resume, mode=self.state.tasks_mode[possible_to_resume])
                list_action += [SchedulingAction(task=possible_to_resume, action=SchedulingActionEnum.RESUME, mode=self.state.tasks_mode[possible_to_resume], time_progress=False, resource_unit_names={r} if r is not None else None) for r in possible if r is None or self.state.resource_used[r] + 1 <= self.state.resource_availability[r]]
        if choice == SchedulingActionEnum.TIME_PR:
            list_action.append(SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True))
    return list_action


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnit.get_elements")
def _(self):
    return self.elements


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnit.sample")
def _(self):
    return random.choice(self.elements)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnitSamplable.__init__")
def _(self, domain, state):
    self.domain = domain
    self.state = state


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnitSamplable.sample")
def _(self):
    choices = [SchedulingActionEnum.START, SchedulingActionEnum.PAUSE, SchedulingActionEnum.RESUME, SchedulingActionEnum.TIME_PR]
    if self.domain.state_is_overconsuming(self.state):
        choices = [SchedulingActionEnum.PAUSE]
    random_choice = random.choice(choices)
    if random_choice in {SchedulingActionEnum.START, SchedulingActionEnum.RESUME}:
        if random_choice == SchedulingActionEnum.START:
            task_possible_to_start = self.domain.get_possible_starting_tasks(self.state)
        else:
            modes_possible_to_resume = self.domain.get_possible_resume_tasks(self.state)
            task_possible_to_start = {t: [self.state.tasks_mode[t]] for t in modes_possible_to_resume if self.state.tasks_mode[t] in modes_possible_to_resume[t]}
        task_modes = [(t, m) for t in task_possible_to_start for m in task_possible_to_start[t]]
        if len(task_modes) > 0:
            random_ch = random.choice(task_modes)
            possible_to_start = random_ch[0]
            mode = random_ch[1]
            skill_of_task = self.domain.get_skills_of_task(possible_to_start, mode)
            resources = []
            if len(skill_of_task) == 0:
                return SchedulingAction(task=possible_to_start, action=random_choice, mode=mode, time_progress=False)
            resources_skills = list(self.domain.get_all_resources_skills().keys())
            random.shuffle(resources_skills)
            cur_usage = {s: 0 for s in skill_of_task}
            success = False
            for resource in resources_skills:
                if self.state.resource_used[resource] + 1 > self.state.resource_availability[resource]:
                    continue
                if any((self.domain.get_skills_of_resource(resource=resource).get(s, 0) > 0 for s in skill_of_task)):
                    resources += [resource]
                    for s in cur_usage:
                        cur_usage[s] += self.domain.get_skills_of_resource(resource=resource).get(s, 0)
                    if all((cur_usage[s] >= skill_of_task[s] for s in skill_of_task)):
                        success = True
                        break
            if success:
                return SchedulingAction(task=possible_to_start, action=random_choice, mode=mode, time_progress=False, resource_unit_names=resources)
            else:
                return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True)
        else:
            return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True)
    if random_choice == SchedulingActionEnum.PAUSE:
        task_possible_to_pause = [t for t in self.state.tasks_ongoing if self.domain.get_task_preemptivity()[t]]
        if len(task_possible_to_pause) > 0:
            return SchedulingAction(task=random.choice(task_possible_to_pause), action=SchedulingActionEnum.PAUSE, mode=None, time_progress=False)
        else:
            return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True)
    if random_choice == SchedulingActionEnum.TIME_PR:
        return SchedulingAction(task=None, action=SchedulingActionEnum.TIME_PR, mode=None, time_progress=True)


@spec("builders/scheduling/scheduling_domains.py", "SchedulingActionSpaceWithResourceUnitSamplable.contains")
def _(self, x):
    return True
