"""C02: ECMP load on interfaces, conservation of traffic, utilization."""
from ..families import TRAFFIC, igp_cases, lsp_cases
from ..monitors import conservation, interface_traffic
from ..scfam import sc_cases
from ..simcase import run

PROP = "C02"


def cases(tier):
    for c in igp_cases(tier, TRAFFIC):
        yield c
    for c in lsp_cases("quick"):
        if c["f"] in ("tri-lsp-fail", "parallel-lsp", "groups", "wide-lsp", "many-paths", "scaled", "same-names", "many-lsps", "many-demands", "many-groups"):
            yield c
    for c in sc_cases("quick"):
        if c["f"] in ("diamond", "parallel", "wide", "two-diamonds", "series", "group-room", "same-names", "long-chain"):
            yield dict(c, f="sc-" + c["f"])


def judge(sim):
    interface_traffic(sim)
    conservation(sim)


def check(case, st):
    run(case, st, judge)
