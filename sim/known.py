"""Known findings: genuine defects that are recorded instead of repaired. Each is one fixed history; the probe says
whether that history still fails on the code at hand."""
from . import core
from .checks import common as C


def second_flow_between_same_nodes():
    """create a diagram, a process, two tasks A and B, a flow A->B and a second flow A->B; both flows should exist."""
    w = core.World()
    core.install()
    with core.active(w):
        p = w.proc("known")
        t = w.task(p, "known", C.ent("known"))
        dg = p.rep.BpmnDiagramGraph()

        def history():
            dg.create_new_diagram_graph("d")
            pid = dg.add_process_to_diagram()
            a = dg.add_task_to_diagram(pid, "A")[0]
            b = dg.add_task_to_diagram(pid, "B")[0]
            ids = [dg.add_sequence_flow_to_diagram(pid, a, b, "first")[0], dg.add_sequence_flow_to_diagram(pid, a, b, "second")[0]]
            found = [f[2]["id"] for f in dg.get_flows()]
            return all(i in found and dg.get_flow_by_id(i) is not None for i in ids)
        o = w.call(t, history)
        return not (o.ok and o.value)


PROBES = {"second-flow": second_flow_between_same_nodes}
