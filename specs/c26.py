# C26: RCPSP domains of the hub


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP.__init__")
def _(self, resource_names=None, task_ids=None, tasks_mode=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    self.resource_names = resource_names
    self.task_ids = task_ids
    self.tasks_mode = tasks_mode
    self.task_mode_dict = {}
    self.duration_dict = {}
    for task in self.tasks_mode:
        self.task_mode_dict[task] = {}
        self.duration_dict[task] = {}
        for mode in self.tasks_mode[task]:
            self.task_mode_dict[task][mode] = ConstantModeConsumption({})
            for r in self.tasks_mode[task][mode]:
                if r in self.resource_names:
                    self.task_mode_dict[task][mode].mode_details[r] = [self.tasks_mode[task][mode][r]]
            self.duration_dict[task][mode] = self.tasks_mode[task][mode]['duration']
    self.successors = successors
    self.max_horizon = max_horizon
    self.resource_availability = resource_availability
    self.resource_renewable = resource_renewable
    self.initialize_domain()


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_tasks_modes")
def _(self):
    return self.task_mode_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_resource_renewability")
def _(self):
    return self.resource_renewable


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_successors")
def _(self):
    return self.successors


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_tasks_ids")
def _(self):
    return self.task_ids


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.duration_dict[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self.resource_availability[resource]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_resource_types_names")
def _(self):
    return self.resource_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSP._get_objectives")
def _(self):
    return [SchedulingObjectiveEnum.MAKESPAN]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_quantity_resource")
def _(self, resource, time, **kwargs):
    return self.resource_availability[resource][time]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar.__init__")
def _(self, resource_names=None, task_ids=None, tasks_mode=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    self.resource_names = resource_names
    self.task_ids = task_ids
    self.tasks_mode = tasks_mode
    self.task_mode_dict = {}
    self.duration_dict = {}
    for task in self.tasks_mode:
        self.task_mode_dict[task] = {}
        self.duration_dict[task] = {}
        for mode in self.tasks_mode[task]:
            self.task_mode_dict[task][mode] = ConstantModeConsumption({})
            for r in self.tasks_mode[task][mode]:
                if r in self.resource_names:
                    self.task_mode_dict[task][mode].mode_details[r] = [self.tasks_mode[task][mode][r]]
            self.duration_dict[task][mode] = self.tasks_mode[task][mode]['duration']
    self.successors = successors
    self.max_horizon = max_horizon
    self.resource_availability = resource_availability
    self.original_resource_availability = {r: max(self.resource_availability[r]) for r in self.resource_availability}
    self.resource_renewable = resource_renewable
    self.initialize_domain()


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_tasks_modes")
def _(self):
    return self.task_mode_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_resource_renewability")
def _(self):
    return self.resource_renewable


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_successors")
def _(self):
    return self.successors


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_tasks_ids")
def _(self):
    return self.task_ids


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.duration_dict[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self.original_resource_availability[resource]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_resource_types_names")
def _(self):
    return self.resource_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MRCPSPCalendar._get_objectives")
def _(self):
    return [SchedulingObjectiveEnum.MAKESPAN]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "RCPSP.__init__")
def _(self, resource_names=None, task_ids=None, tasks_mode=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    MRCPSP.__init__(self, resource_names=resource_names, task_ids=task_ids, tasks_mode=tasks_mode, successors=successors, max_horizon=max_horizon, resource_availability=resource_availability, resource_renewable=resource_renewable)
    self.tasks_modes_rcpsp = {t: self.task_mode_dict[t][1] for t in self.task_mode_dict}


@spec("hub/domain/rcpsp/rcpsp_sk.py", "RCPSP._get_tasks_mode")
def _(self):
    return self.tasks_modes_rcpsp


@spec("hub/domain/rcpsp/rcpsp_sk.py", "RCPSPCalendar.__init__")
def _(self, resource_names=None, task_ids=None, tasks_mode=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    MRCPSPCalendar.__init__(self, resource_names=resource_names, task_ids=task_ids, tasks_mode=tasks_mode, successors=successors, max_horizon=max_horizon, resource_availability=resource_availability, resource_renewable=resource_renewable)
    self.tasks_modes_rcpsp = {t: self.task_mode_dict[t][1] for t in self.task_mode_dict}


@spec("hub/domain/rcpsp/rcpsp_sk.py", "RCPSPCalendar._get_tasks_mode")
def _(self):
    return self.tasks_modes_rcpsp


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_objectives")
def _(self):
    return [SchedulingObjectiveEnum.MAKESPAN]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_successors")
def _(self):
    return self.successors


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_tasks_ids")
def _(self):
    return self.task_ids


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_tasks_modes")
def _(self):
    return self.task_mode_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_task_duration_distribution")
def _(self, task, mode=1, progress_from=0.0, multivariate_settings=None):
    return self.duration_distribution[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self.resource_availability[resource]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP._get_resource_types_names")
def _(self):
    return self.resource_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "Stochastic_RCPSP.__init__")
def _(self, resource_names=None, task_ids=None, tasks_mode=None, duration_distribution=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    self.resource_names = resource_names
    self.task_ids = task_ids
    self.tasks_mode = tasks_mode
    self.task_mode_dict = self.tasks_mode
    self.duration_distribution = duration_distribution
    self.successors = successors
    self.max_horizon = max_horizon
    self.resource_availability = resource_availability
    self.resource_renewable = resource_renewable
    self.initialize_domain()


@spec("hub/domain/rcpsp/rcpsp_sk.py", "build_stochastic_from_deterministic")
def _(rcpsp, task_to_noise=None):
    if task_to_noise is None:
        task_to_noise = set(rcpsp.get_tasks_ids())
    duration_distribution = {}
    for task_id in rcpsp.get_tasks_ids():
        duration_distribution[task_id] = {}
        for mode in rcpsp.get_task_modes(task_id=task_id):
            duration = rcpsp.get_task_duration(task=task_id, mode=mode)
            if duration == 0 or task_id not in task_to_noise:
                distrib = DiscreteDistribution(values=[(duration, 1)])
            else:
                n = 10
                distrib = DiscreteDistribution(values=[(max(1, duration + i), 1 / (2 * n + 1)) for i in range(-n, n + 1)])
            duration_distribution[task_id][mode] = distrib
    return Stochastic_RCPSP(resource_names=rcpsp.get_resource_types_names(), task_ids=rcpsp.get_tasks_ids(), tasks_mode=rcpsp.get_tasks_modes(), duration_distribution=duration_distribution, successors=rcpsp.successors, max_horizon=rcpsp.max_horizon * 2, resource_availability=rcpsp.resource_availability, resource_renewable=rcpsp.resource_renewable)


@spec("hub/domain/rcpsp/rcpsp_sk.py", "build_n_determinist_from_stochastic")
def _(srcpsp, nb_instance):
    instances = []
    for i in range(nb_instance):
        modes = srcpsp.get_tasks_modes()
        modes_for_rcpsp = {task: {mode: {r: modes[task][mode].get_resource_need_at_time(r, 0) for r in modes[task][mode].get_ressource_names()} for mode in modes[task]} for task in modes}
        for t in modes_for_rcpsp:
            for m in modes_for_rcpsp[t]:
                duration = srcpsp.sample_task_duration(task=t, mode=m)
                modes_for_rcpsp[t][m]['duration'] = duration
        resource_availability_dict = {}
        for r in srcpsp.get_resource_types_names():
            resource_availability_dict[r] = srcpsp.get_original_quantity_resource(r)
        instances += [MRCPSP(resource_names=srcpsp.get_resource_types_names(), task_ids=srcpsp.get_tasks_ids(), tasks_mode=modes_for_rcpsp, successors=srcpsp.successors, max_horizon=srcpsp.get_max_horizon(), resource_availability=resource_availability_dict, resource_renewable=srcpsp.get_resource_renewability())]
    return instances


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_task_duration_distribution")
def _(self, task, mode=1, progress_from=0.0, multivariate_settings=None):
    return self.duration_distribution[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_quantity_resource")
def _(self, resource, time, **kwargs):
    return self.resource_availability[resource][time]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar.__init__")
def _(self, resource_names=None, task_ids=None, tasks_mode=None, successors=None, duration_distribution=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    self.resource_names = resource_names
    self.task_ids = task_ids
    self.tasks_mode = tasks_mode
    self.task_mode_dict = {}
    self.duration_dict = {}
    for task in self.tasks_mode:
        self.task_mode_dict[task] = {}
        self.duration_dict[task] = {}
        for mode in self.tasks_mode[task]:
            self.task_mode_dict[task][mode] = ConstantModeConsumption({})
            for r in self.tasks_mode[task][mode]:
                if r in self.resource_names:
                    self.task_mode_dict[task][mode].mode_details[r] = [self.tasks_mode[task][mode][r]]
            self.duration_dict[task][mode] = self.tasks_mode[task][mode]['duration']
    self.successors = successors
    self.max_horizon = max_horizon
    self.resource_availability = resource_availability
    self.resource_renewable = resource_renewable
    self.duration_distribution = duration_distribution
    self.initialize_domain()


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_tasks_modes")
def _(self):
    return self.task_mode_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_resource_renewability")
def _(self):
    return self.resource_renewable


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_successors")
def _(self):
    return self.successors


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_tasks_ids")
def _(self):
    return self.task_ids


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.duration_dict[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self.original_resource_availability[resource]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_resource_types_names")
def _(self):
    return self.resource_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "SMRCPSPCalendar._get_objectives")
def _(self):
    return [SchedulingObjectiveEnum.MAKESPAN]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP.__init__")
def _(self, skills_names=None, resource_unit_names=None, resource_type_names=None, resource_skills=None, task_ids=None, tasks_mode=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    self.skills_set = set(skills_names)
    self.resource_unit_names = resource_unit_names
    self.resource_type_names = resource_type_names
    self.resource_skills = resource_skills
    self.task_ids = task_ids
    self.tasks_mode = tasks_mode
    self.task_mode_dict = {}
    self.task_skills_dict = {}
    self.duration_dict = {}
    for task in self.tasks_mode:
        self.task_mode_dict[task] = {}
        self.task_skills_dict[task] = {}
        self.duration_dict[task] = {}
        for mode in self.tasks_mode[task]:
            self.task_mode_dict[task][mode] = ConstantModeConsumption({})
            self.task_skills_dict[task][mode] = {}
            for r in self.tasks_mode[task][mode]:
                if r in self.resource_type_names:
                    self.task_mode_dict[task][mode].mode_details[r] = [self.tasks_mode[task][mode][r]]
                if r in self.skills_set:
                    self.task_skills_dict[task][mode][r] = self.tasks_mode[task][mode][r]
            self.duration_dict[task][mode] = self.tasks_mode[task][mode]['duration']
    self.successors = successors
    self.max_horizon = max_horizon
    self.resource_availability = resource_availability
    self.resource_renewable = resource_renewable
    self.initialize_domain()


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_resource_units_names")
def _(self):
    return self.resource_unit_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_resource_types_names")
def _(self):
    return self.resource_type_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_resource_type_for_unit")
def _(self):
    return None


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP.get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_tasks_modes")
def _(self):
    return self.task_mode_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_successors")
def _(self):
    return self.successors


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_tasks_ids")
def _(self):
    return self.task_ids


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.duration_dict[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self.resource_availability[resource]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_resource_renewability")
def _(self):
    return self.resource_renewable


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_all_resources_skills")
def _(self):
    return self.resource_skills


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_all_tasks_skills")
def _(self):
    return self.task_skills_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSP._get_objectives")
def _(self):
    return [SchedulingObjectiveEnum.MAKESPAN]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_quantity_resource")
def _(self, resource, time, **kwargs):
    return self.resource_availability[resource][time]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar.__init__")
def _(self, skills_names=None, resource_unit_names=None, resource_type_names=None, resource_skills=None, task_ids=None, tasks_mode=None, successors=None, max_horizon=None, resource_availability=None, resource_renewable=None):
    self.skills_set = set(skills_names)
    self.resource_unit_names = resource_unit_names
    self.resource_type_names = resource_type_names
    self.resource_skills = resource_skills
    self.task_ids = task_ids
    self.tasks_mode = tasks_mode
    self.task_mode_dict = {}
    self.task_skills_dict = {}
    self.duration_dict = {}
    for task in self.tasks_mode:
        self.task_mode_dict[task] = {}
        self.task_skills_dict[task] = {}
        self.duration_dict[task] = {}
        for mode in self.tasks_mode[task]:
            self.task_mode_dict[task][mode] = ConstantModeConsumption({})
            self.task_skills_dict[task][mode] = {}
            for r in self.tasks_mode[task][mode]:
                if r in self.resource_type_names:
                    self.task_mode_dict[task][mode].mode_details[r] = [self.tasks_mode[task][mode][r]]
                if r in self.skills_set:
                    self.task_skills_dict[task][mode][r] = self.tasks_mode[task][mode][r]
            self.duration_dict[task][mode] = self.tasks_mode[task][mode]['duration']
    self.successors = successors
    self.max_horizon = max_horizon
    self.resource_availability = resource_availability
    self.resource_renewable = resource_renewable
    self.initialize_domain()


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_resource_units_names")
def _(self):
    return self.resource_unit_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_resource_types_names")
def _(self):
    return self.resource_type_names


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_resource_type_for_unit")
def _(self):
    return None


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar.get_max_horizon")
def _(self):
    return self.max_horizon


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_tasks_modes")
def _(self):
    return self.task_mode_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_successors")
def _(self):
    return self.successors


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_tasks_ids")
def _(self):
    return self.task_ids


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_task_duration")
def _(self, task, mode=1, progress_from=0.0):
    return self.duration_dict[task][mode]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_original_quantity_resource")
def _(self, resource, **kwargs):
    return self.resource_availability[resource]


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_resource_renewability")
def _(self):
    return self.resource_renewable


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_all_resources_skills")
def _(self):
    return self.resource_skills


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_all_tasks_skills")
def _(self):
    return self.task_skills_dict


@spec("hub/domain/rcpsp/rcpsp_sk.py", "MSRCPSPCalendar._get_objectives")
def _(self):
    return [SchedulingObjectiveEnum.MAKESPAN]


@spec("hub/domain/rcpsp/rcpsp_sk_parser.py", "load_domain")
def _(file_name='j1201_1.sm'):
    from skdecide.builders.discrete_optimization.rcpsp.rcpsp_parser import parse_file, get_data_available, SingleModeRCPSPModel, MultiModeRCPSPModel
    from skdecide.hub.domain.rcpsp.rcpsp_sk import RCPSP, MRCPSP
    files = get_data_available()
    files = [f for f in files if file_name in f]
    file_path = files[0]
    rcpsp_model = parse_file(file_path)
    if isinstance(rcpsp_model, SingleModeRCPSPModel):
        my_domain = RCPSP(resource_names=rcpsp_model.resources_list, task_ids=sorted(rcpsp_model.mode_details.keys()), tasks_mode=rcpsp_model.mode_details, successors=rcpsp_model.successors, max_horizon=rcpsp_model.horizon, resource_availability=rcpsp_model.resources, resource_renewable={r: r not in rcpsp_model.non_renewable_resources for r in rcpsp_model.resources_list})
    elif isinstance(rcpsp_model, MultiModeRCPSPModel):
        my_domain = MRCPSP(resource_names=rcpsp_model.resources_list, task_ids=sorted(rcpsp_model.mode_details.keys()), tasks_mode=rcpsp_model.mode_details, successors=rcpsp_model.successors, max_horizon=rcpsp_model.horizon, resource_availability=rcpsp_model.resources, resource_renewable={r: r not in rcpsp_model.non_renewable_resources for r in rcpsp_model.resources_list})
    return my_domain


@spec("hub/domain/rcpsp/rcpsp_sk_parser.py", "load_multiskill_domain")
def _():
    from skdecide.builders.discrete_optimization.rcpsp_multiskill.rcpsp_multiskill_parser import parse_file, get_data_available, MS_RCPSPModel
    model_msrcpsp, new_tame_to_original_task_id = parse_file(get_data_available()[0], max_horizon=2000)
    resource_type_names = list(model_msrcpsp.resources_list)
    resource_skills = {r: {} for r in resource_type_names}
    resource_availability = {r: model_msrcpsp.resources_availability[r][0] for r in model_msrcpsp.resources_availability}
    resource_renewable = {r: r not in model_msrcpsp.non_renewable_resources for r in model_msrcpsp.resources_list}
    resource_unit_names = []
    for employee in model_msrcpsp.employees:
        resource_unit_names += ['employee-' + str(employee)]
        resource_skills[resource_unit_names[-1]] = {}
        resource_availability[resource_unit_names[-1]] = 1
        resource_renewable[resource_unit_names[-1]] = True
        for s in model_msrcpsp.employees[employee].dict_skill:
            resource_skills[resource_unit_names[-1]][s] = model_msrcpsp.employees[employee].dict_skill[s].skill_value
    return MSRCPSP(skills_names=list(model_msrcpsp.skills_set), resource_unit_names=resource_unit_names, resource_type_names=resource_type_names, resource_skills=resource_skills, task_ids=sorted(model_msrcpsp.mode_details.keys()), tasks_mode=model_msrcpsp.mode_details, successors=model_msrcpsp.successors, max_horizon=model_msrcpsp.horizon, resource_availability=resource_availability, resource_renewable=resource_renewable)
