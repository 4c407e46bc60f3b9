"""C04: reservations stay within the limits, add up, and lie on live
rsvp_enabled interfaces only."""
from ..families import lsp_cases
from ..monitors import reservations
from ..simcase import run

PROP = "C04"


def cases(tier):
    return lsp_cases(tier)


def check(case, st):
    run(case, st, reservations)
