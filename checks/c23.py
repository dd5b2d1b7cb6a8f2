"""Association group information collects exactly what the node reports."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import observing, require, same
from lib.device import TICK, DeviceAdapter
from lib.layout import build, edge_ints
from lib.states import AGI
from pyzwave.node import Node, NodeEndPoint

PROPERTY = "C23"
RULE = """A case is a node that may know some groups from an earlier life and a history of group information, name and
command list reports in any order and at any pace, also while the requests caused by an earlier report are still being
sent (slowly, or without being acknowledged), some of the requests being answered.  The requests sent, the groups known
at the end, what was known at each signal for storage and a second node that must not change are compared with a
reference model.  Non-trivial: a name or command list for a group that was announced."""
ASSUMPTIONS = ["reports are whole, except that a group information report may have room for fewer groups than it announces, and a group is listed once in a report", "sending a request does not raise"]
QUICK = 230
THOROUGH = 40000

GROUPS = st.one_of(st.integers(1, 3), st.integers(1, 3), st.integers(1, 3), st.integers(0, 255))
NAME = st.one_of(states.NAMES, st.sampled_from(["", "Lifeline", "x" * 255]))
PAIRS = st.lists(st.tuples(st.integers(0, 0xEF), st.integers(0, 255)).map(list), max_size=6)


def reports():
    infos = st.lists(st.tuples(GROUPS, edge_ints(0, 0xFFFF)).map(list), min_size=1, max_size=4, unique_by=lambda g: g[0])
    many = st.integers(10, 63).map(lambda n: [[i + 1, 0x7100 + i] for i in range(n)])
    return st.one_of(
        st.tuples(st.just("info"), infos).map(list),
        st.tuples(st.just("info"), st.one_of(*[infos] * 15, many)).map(list),
        st.tuples(st.just("name"), GROUPS, NAME).map(list),
        st.tuples(st.just("commands"), GROUPS, PAIRS).map(list),
    )


@st.composite
def strategy_(draw):
    return {
        "endpoint": draw(st.booleans()),
        "known": draw(st.one_of(st.just({}), states.content(AGI))),
        "ops": draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 2, 4, 8, 40]), reports()).map(list), min_size=2, max_size=9)),
        "sending": draw(st.lists(st.tuples(st.booleans(), st.sampled_from([1, 1, 512, 1024, 3000])).map(list), max_size=6)),
        "answers": draw(st.lists(st.one_of(st.none(), st.tuples(NAME, PAIRS, st.sampled_from([1, 64, 700, 4000])).map(list)), max_size=5)),
        "modes": draw(st.integers(0, 3)),
        "more": draw(st.sampled_from([0, 0, 0, 1, 3, 63])),
        "locked": draw(st.integers(0, 4)) == 0,
    }


def strategy():
    return strategy_()


def bytes_of(report, modes=0, more=0):
    kind = report[0]
    if kind == "info":
        return build(
            "AssociationGrpInfo.GroupInfoReport",
            {"listMode": modes & 1, "dynamicInfo": modes >> 1, "groups": [[g, 0, p, 0, 0] for g, p in report[1]], "more": more},
        )
    name = report[2]
    if kind == "name":
        while len(name.encode()) > 255:
            name = name[:-1]
        return build("AssociationGrpInfo.GroupNameReport", {"groupingIdentifier": report[1], "name": name})
    return build("AssociationGrpInfo.GroupCommandListReport", {"groupingIdentifier": report[1], "commandClass": report[2]})


def run(case, rec):
    async def main(_loop):
        adapter = DeviceAdapter({})
        node, other = Node(5, adapter, [AGI]), Node(6, adapter, [AGI])
        if case["endpoint"]:
            node = NodeEndPoint(other, 2, adapter, [AGI])
        obj = node.supported[AGI]
        start = states.wanted(AGI, case["known"])
        for each in (node, other):
            each.supported[AGI].__setstate__(states.state_of(AGI, {"version": 1, "interviewed": True, "content": case["known"]}))
        model = {k: dict(v) for k, v in start.items()}
        wanted = []  # requests in any order
        stored = [start]

        class Storage:
            def nodeUpdated(self, speaker):
                require(speaker is node, "signalled another node for storage")
                stored.append(states.read(AGI, obj))

        node.addListener(Storage())
        other.addListener(Storage())
        count = [0, 0]

        def script(nodeId, endpoint, data, _answers):
            same((nodeId, endpoint), (node.rootNodeId, node.endpoint), "node and endpoint a request was sent to")
            ack, delay = case["sending"][count[0] % len(case["sending"])] if case["sending"] else (True, 1)
            count[0] += 1
            replies = []
            answer = case["answers"][count[1] % len(case["answers"])] if case["answers"] else None
            count[1] += 1
            if answer and ack:
                number = data[2] if data[1] == 1 else data[3]
                reply = ["name", number, answer[0]] if data[1] == 1 else ["commands", number, answer[1]]
                replies.append(((answer[2] + 0.5) * TICK, bytes_of(reply)))
            return {"ack": ack, "delay": delay * TICK, "replies": replies}

        async def deliver(_nodeId, _endpoint, message, flags):
            require(await node.handleMessage(message, flags) is True, "%s was not handled", message)

        def arrives(data):
            """What is known after a report, from its bytes."""
            cmd = data[1]
            if cmd == 4:
                groups = data[3:]
                for at in range(0, len(groups), 7):
                    number, profile = groups[at], int.from_bytes(groups[at + 2 : at + 4], "big")
                    model.setdefault(str(number), {"profile": 0, "name": "", "commands": []})["profile"] = profile
                    wanted.append(build("AssociationGrpInfo.GroupNameGet", {"groupingIdentifier": number}).hex())
                    wanted.append(build("AssociationGrpInfo.GroupCommandListGet", {"allowCache": 1, "-1": 0, "groupingIdentifier": number}).hex())
                    rec.label("announced")
            elif str(data[2]) not in model:
                rec.label("about a group never announced")
            elif cmd == 2:
                model[str(data[2])]["name"] = data[4 : 4 + data[3]].decode()
                rec.label("name")
                rec.nontrivial()
            else:
                pairs = data[4 : 4 + data[3]]
                model[str(data[2])]["commands"] = [[a, b] for a, b in zip(pairs[::2], pairs[1::2])]
                rec.label("command list")
                rec.nontrivial()

        usual = adapter.arrived

        def arrived(nodeId, endpoint, data):
            arrives(data)
            usual(nodeId, endpoint, data)

        adapter.arrived = arrived
        adapter.script = script
        adapter.deliver = deliver

        async def history():
            for gap, report in case["ops"]:
                await asyncio.sleep(gap / 8)
                if len(wanted) > len(adapter.sent):
                    rec.label("while requests are being sent")
                arrived(node.rootNodeId, node.endpoint, bytes_of(report, case["modes"], case.get("more", 0)))
            await asyncio.sleep(600)

        if case["locked"]:
            with node.storageLock():
                await history()
            rec.label("inside a storage lock")
        else:
            await history()

        with observing("groups"):
            now = states.read(AGI, obj)
            same(now, model, "groups known in the end")
            states.check_types(AGI, obj, "groups")
            same(stored[-1], model, "groups known at the last signal for storage")
            same(states.read(AGI, other.supported[AGI]), start, "groups of another node")
        same(sorted(d.hex() for _, _, _, d in adapter.sent), sorted(wanted), "requests sent")

    vloop.run(main)
