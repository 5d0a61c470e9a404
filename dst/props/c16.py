"""C16: match variables describe one and the same regex match."""

from ._sess import SessionProp, MATCH, TOP


class C16(SessionProp):
    id = "C16"
    profile = "match"
    quick_cases = 1500
    fault_rate = 0.75
    schedules = 3
    deep_rate = 0.05
    program_rate = 0.15
    names = MATCH + TOP


PROP = C16()
