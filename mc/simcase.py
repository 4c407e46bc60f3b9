"""Shared machinery: a case = spec + failures + how often to simulate."""
from . import build as B
from . import choice, env
from .monitors import Sim
from .ref import Net, link_names


def fail_ops(model, net, spec, fails, st=None):
    """fails: [["link", idx] | ["node", name]] applied to both sides"""
    names = link_names(spec)
    for kind, x in fails:
        if kind == "link":
            model.fail_interface(names[x][0], spec["l"][x][0])
            net.fail_link(x, spec)
        else:
            model.fail_node(x)
            net.fail_node(x)
        if st:
            st.steps += 1


def run(case, st, judge, outcomes=None):
    """Build the case's model, fail what it fails, simulate under every random
    answer, and hand each result to judge(sim)."""
    spec = case["s"]
    net = Net(spec)

    def body():
        m = B.build(spec, cls=case.get("cls"), order=case.get("o", "asc"),
                    lsp_order=case.get("lo"), dmd_order=case.get("do"))
        if "pre" in case:  # history before the scenario: earlier failures, restored
            n2 = Net(spec)
            m.update_simulation()
            fail_ops(m, n2, spec, case["pre"], st)
            m.update_simulation()
            for kind, x in reversed(case["pre"]):
                if kind == "link":
                    m.unfail_interface(link_names(spec)[x][0], spec["l"][x][0])
                else:
                    m.unfail_node(x)
        n = Net(spec)
        fail_ops(m, n, spec, case.get("x", ()), st)
        for _ in range(case.get("runs", 1)):
            m.update_simulation()
            st.steps += 1
        return m, n

    res = []

    def run_one():
        m, n = body()
        st.execs += 1
        st.saw(B.digest(m))
        judge(Sim(m, n))
        return None

    choice.explore(run_one, policies=case.get("rc"))
    return res
