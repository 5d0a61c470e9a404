"""C04: variables hold independent values."""

from ._sess import SessionProp


class C04(SessionProp):
    id = "C04"
    profile = "values"
    quick_cases = 5000
    fault_rate = 0.4
    schedules = 2
    deep_rate = 0.04
    stmts = (1, 4)
    program_rate = 0.3


PROP = C04()
