# C02: an omitted memory means the current memory


@spec("builders/domain/events.py", "Events._get_enabled_events")
def _(self, memory=None):
    if memory is None:
        memory = self._memory
    return self._get_enabled_events_from(memory)


@spec("builders/domain/events.py", "Events._is_enabled_event")
def _(self, event, memory=None):
    if memory is None:
        memory = self._memory
    return self._is_enabled_event_from(event, memory)


@spec("builders/domain/events.py", "Events._get_applicable_actions")
def _(self, memory=None):
    if memory is None:
        memory = self._memory
    return self._get_applicable_actions_from(memory)


@spec("builders/domain/events.py", "Events._is_applicable_action")
def _(self, action, memory=None):
    if memory is None:
        memory = self._memory
    return self._is_applicable_action_from(action, memory)


@spec("builders/domain/renderability.py", "Renderable._render")
def _(self, memory=None, **kwargs):
    if memory is None:
        memory = self._memory
    return self._render_from(memory, **kwargs)
