MS = "builders/discrete_optimization/rcpsp_multiskill/rcpsp_multiskill.py"
# guards
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s]
                           for s in self.mode_details[task][mode]
                           if s in self.skills_set and self.mode_details[task][mode][s] > 0}
        # Skills for the given task are used
        for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < required_skills[skill]:
                    print('1')
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
# sumgen
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s]
                           for s in self.mode_details[task][mode]
                           if s in self.skills_set and self.mode_details[task][mode][s] > 0}
        # Skills for the given task are used
        if len(required_skills) > 0:
            for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(e for e in employees_used) < required_skills[skill]:
                    print('1')
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
# emp
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s]
                           for s in self.mode_details[task][mode]
                           if s in self.skills_set and self.mode_details[task][mode][s] > 0}
        # Skills for the given task are used
        if len(required_skills) > 0:
            for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < required_skills[skill]:
                    print('1')
                    return False
        if task in rcpsp_sol.employee_usage:
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if True:
                for e in rcpsp_sol.employee_usage[task]:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
# inner
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s]
                           for s in self.mode_details[task][mode]
                           if self.mode_details[task][mode][s] > 0 and s in self.skills_set}
        # Skills for the given task are used
        if len(required_skills) > 0:
            for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < required_skills[skill]:
                    print('1')
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
# inline
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        for skill in self.mode_details[task][mode]:
            if skill in self.skills_set and self.mode_details[task][mode][skill] > 0:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < self.mode_details[task][mode][skill]:
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
# nonren
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s]
                           for s in self.mode_details[task][mode]
                           if s in self.skills_set and self.mode_details[task][mode][s] > 0}
        # Skills for the given task are used
        if len(required_skills) > 0:
            for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < required_skills[skill]:
                    print('1')
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {}
        for res in self.resources_set:
            resource_usage[res] = 0
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = sum(self.mode_details[act_id][rcpsp_sol.modes[act_id]][res] for act_id in self.tasks)
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
# usage
fn("C30", MS, """
def satisfy(self, rcpsp_sol: MS_RCPSPSolution)->bool:
    # check the skills :
    if len(rcpsp_sol.schedule) != self.nb_tasks:
        return False
    for task in self.tasks:
        mode = rcpsp_sol.modes[task]
        required_skills = {s: self.mode_details[task][mode][s]
                           for s in self.mode_details[task][mode]
                           if s in self.skills_set and self.mode_details[task][mode][s] > 0}
        # Skills for the given task are used
        if len(required_skills) > 0:
            for skill in required_skills:
                employees_used = [self.employees[emp].dict_skill[skill].skill_value
                                  for emp in rcpsp_sol.employee_usage.get(task, {})
                                  if skill in rcpsp_sol.employee_usage[task][emp]]
                if sum(employees_used) < required_skills[skill]:
                    print('1')
                    return False
        if task in rcpsp_sol.employee_usage:
            employee_used = [emp for emp in rcpsp_sol.employee_usage[task]]
            # print(rcpsp_sol.employee_usage)
            # employee available at this time
            if len(employee_used) > 0:
                for e in employee_used:
                    if not all(self.employees[e].calendar_employee[t]
                               for t in range(rcpsp_sol.schedule[task]["start_time"],
                                              rcpsp_sol.schedule[task]["end_time"])):
                        print("Task : ", task)
                        print("Employee : ", e)
                        print(e, [self.employees[e].calendar_employee[t]
                                  for t in range(rcpsp_sol.schedule[task]["start_time"],
                                                 rcpsp_sol.schedule[task]["end_time"])])
                        print('Problem with employee availability')
                        return False
    overlaps = [(t1, t2) for t1 in self.tasks for t2 in self.tasks
                if t2>t1 and intersect((rcpsp_sol.schedule[t1]["start_time"],
                                        rcpsp_sol.schedule[t1]["end_time"]),
                                        (rcpsp_sol.schedule[t2]["start_time"],
                                         rcpsp_sol.schedule[t2]["end_time"]))
                is not None]
    for t1, t2 in overlaps:
        if any(k in rcpsp_sol.employee_usage.get(t2, {})
               for k in rcpsp_sol.employee_usage.get(t1, {})):
            print("Worker working on 2 task the same time")
            return False
    # ressource usage respected
    makespan = rcpsp_sol.schedule[self.sink_task]['end_time']
    for t in range(makespan):
        resource_usage = {res: 0 for res in self.resources_set}
        for act_id in self.tasks:
            start = rcpsp_sol.schedule[act_id]['start_time']
            end = rcpsp_sol.schedule[act_id]['end_time']
            mode = rcpsp_sol.modes[act_id]
            if start <= t and t < end:
                # print(act_id)
                for res in self.resources_set:  # self.mode_details[act_id][mode]:
                    # print('res: ', res)
                    # print('adding usage from act', act_id)
                    # print('mode:', mode)
                    # print('self.mode_details[act_id][mode][res]: ', self.mode_details[act_id][mode][res])
                    resource_usage[res] += self.mode_details[act_id][mode][res]
        for res in self.resources_set:
            if resource_usage[res] > self.resources_availability[res][t]:
                print('Time step resource violation: time: ', t, 'res', res,
                      'res_usage: ', resource_usage[res], 'res_avail: ',
                      self.resources_availability[res][t])
                print('3')
                return False

    # Check for non-renewable resource violation
    for res in self.non_renewable_resources:
        usage = 0
        for act_id in self.tasks:
            mode = rcpsp_sol.modes[act_id]
            usage += self.mode_details[act_id][mode][res]
        if usage > self.resources_availability[res][0]:
            print('Non-renewable res', res, 'res_usage: ',
                  usage, 'res_avail: ', self.resources_availability[res][0])
            return False
    # Check precedences / successors
    for act_id in list(self.successors.keys()):
        for succ_id in self.successors[act_id]:
            start_succ = rcpsp_sol.schedule[succ_id]['start_time']
            end_pred = rcpsp_sol.schedule[act_id]['end_time']
            if start_succ < end_pred:
                print('Precedence relationship broken: ', act_id, 'end at ', end_pred, 'while ', succ_id,
                      'start at', start_succ)
                return False
    return True

""", "MS_RCPSPModel")
