"""C03: path_detail of every demand accounts for its traffic exactly."""
from ..families import TRAFFIC, igp_cases, lsp_cases
from ..monitors import path_detail
from ..scfam import sc_cases
from ..simcase import run

PROP = "C03"


def cases(tier):
    for c in igp_cases(tier, TRAFFIC):
        yield c
    for c in lsp_cases("quick"):
        if c["f"] in ("tri-lsp-fail", "parallel-lsp", "groups", "wide-lsp", "many-paths", "scaled", "same-names", "many-lsps", "many-demands", "many-groups"):
            yield c
    for c in sc_cases("quick"):
        if c["f"] in ("diamond", "parallel", "wide", "two-diamonds", "series", "group-room", "same-names", "long-chain"):
            yield dict(c, f="sc-" + c["f"])


def check(case, st):
    run(case, st, path_detail)
