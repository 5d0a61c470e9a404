"""C13: every function call has its own local variables."""

from ._sess import SessionProp


class C13(SessionProp):
    id = "C13"
    profile = "calls"
    quick_cases = 1500
    fault_rate = 0.6
    schedules = 2
    deep_rate = 0.1
    markers = 0.2
    program_rate = 0.3


PROP = C13()
