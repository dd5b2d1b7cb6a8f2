"""Inclusion and exclusion progress is announced faithfully."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import INNER, build, differences, message_strategy
from lib.sim import Sim, SimNode
from pyzwave.application import Application
from pyzwave.message import Message
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C29"
RULE = """A case is a set of listeners (synchronous, slow, without some of the methods, answering anything, raising)
and a history of commands arriving on the gateway connection: node-add and node-remove statuses of every kind, complete
or shortened, between commands of any other type, several at once, while calls of the library are waiting for answers.
What each listener was told, in which order, and whether commands count as handled is compared with what arrived.
Non-trivial: a status and another command arrive."""
ASSUMPTIONS = ["asynchronous listeners do not raise", "a slow listener may delay what comes after it for the same command only"]
QUICK = 420
THOROUGH = 14000
EIGHTH = 1 / 8

ADD = "NetworkManagementInclusion.NodeAddStatus"
REMOVE = "NetworkManagementInclusion.NodeRemoveStatus"
OTHERS = [n for n in INNER if n not in (ADD, REMOVE)]
STATUS = st.one_of(
    message_strategy([ADD]),
    st.tuples(st.integers(0, 255), st.sampled_from([6, 6, 6, 7, 5, 0]), st.sampled_from([0, 0, 1, 5, 232, 255])).map(
        lambda t: {"name": REMOVE, "fields": {"seqNo": t[0], "status": t[1], "nodeID": t[2]}}
    ),
    st.tuples(st.integers(0, 255), st.sampled_from([6, 7]), st.integers(0, 2)).map(
        lambda t: {"name": REMOVE, "fields": {"seqNo": t[0], "status": t[1], "nodeID": 0}, "count": t[2]}
    ),
)
COMMAND = st.one_of(STATUS, STATUS, message_strategy(OTHERS), message_strategy(["Basic.Report", "Mailbox.NodeFailing", "NetworkManagementInclusion.NodeAddDSKReport"]))
METHODS = ["addNodeStatus", "removeNodeStatus", "nodeRemoved", "nodesRemoved", "messageReceived"]
RESULT = st.sampled_from([None, None, True, False, 1, 0, "yes"])
LISTENER = st.fixed_dictionaries(
    {
        "without": st.lists(st.sampled_from(METHODS), max_size=2, unique=True),
        "slow": st.sampled_from([None, None, 0, 3]),
        "result": RESULT,
        "raises": st.sampled_from([False, False, False, True]),
    }
)


def strategy():
    return st.fixed_dictionaries(
        {
            "batch": st.booleans(),
            "listeners": st.lists(LISTENER, min_size=1, max_size=3),
            "history": st.lists(st.tuples(st.sampled_from([0, 0, 1, 4]), COMMAND, st.sampled_from(["arrives", "arrives", "direct", "call", "loading"])).map(list), min_size=1, max_size=8),
        }
    )


class Hears:
    def __init__(self, how):
        self.calls = []
        self.how = how
        self.broken = how["raises"] and how["slow"] is None
        for name in METHODS:
            if name not in how["without"]:
                setattr(self, name, self.method(name))

    def method(self, name):
        async def slow(_speaker, argument):
            self.calls.append((name, argument))
            await asyncio.sleep(self.how["slow"] * EIGHTH + 1 / 2048)
            return self.how["result"]

        def quick(_speaker, argument):
            self.calls.append((name, argument))
            if self.broken:
                raise ValueError("the listener is broken")
            return self.how["result"]

        return quick if self.how["slow"] is None else slow


def run(case, rec):
    listeners = [Hears(how) for how in case["listeners"]]
    arrived = []

    async def main(loop):
        sim = Sim(loop, [SimNode(5)])
        loop.batch = case.get("batch", False)
        gateway = ZIPGateway(sim.gateway, b"psk")
        app = Application(gateway, PersistantStorage())
        await gateway.connect()
        await app.startup()
        for listener in listeners:
            app.addListener(listener)
        handled = any(how["result"] is True and "messageReceived" not in how["without"] and not l.broken for how, l in zip(case["listeners"], listeners))
        calls = []
        for gap, command, way in case["history"]:
            await asyncio.sleep(gap * EIGHTH + 1 / 1024)
            if command["name"].startswith("NetworkManagementProxy"):
                # it could be taken for what is asked while loading a node
                await asyncio.sleep(2)
            data = build(command["name"], command["fields"], count=command.get("count"))
            if way == "call":
                # the answers of the library's own calls are not announced
                calls.append(asyncio.ensure_future(gateway.getFailedNodeList()))
                await asyncio.sleep(1 / 64)
                rec.label("while a call is answered")
            elif way == "loading" and not command["name"].startswith("NetworkManagementProxy"):
                # a node was added and is still being asked about, after its address was looked up
                usual, sim.latency = sim.latency, 1 / 4
                sim.nodes[10 + len(arrived)] = SimNode(10 + len(arrived))
                sim.unsolicited(0, sim.gateway, wire.packet(7, sim.node_list()))
                await asyncio.sleep(1 / 4 + 1 / 64)
                sim.latency = usual
                rec.label("while a node is loaded")
            arrived.append(command)
            rec.label("status" if command["name"] in (ADD, REMOVE) else "other command")
            if way == "direct":
                result = await app.onMessageReceived(gateway, Message.decode(wire.packet(3, data)))
                wanted = True if command["name"] in (ADD, REMOVE) else handled
                same(bool(result), wanted, "whether %s counts as handled", command["name"])
                rec.label("handled" if wanted else "not handled")
            else:
                sim.reply(sim.gateway_socket(), 0, wire.packet(3, data))
                await asyncio.sleep(1 / 4096)
        await asyncio.sleep(30)
        for call in calls:
            await call

    vloop.run(main)

    def expected(how):
        """Sequences of (method, argument): order matters within each."""
        told, removed = [], []
        for command in arrived:
            count = command.get("count")
            if command["name"] == ADD:
                told.append(("addNodeStatus", command))
            elif command["name"] == REMOVE:
                told.append(("removeNodeStatus", command))
                fields = command["fields"]
                if fields["status"] == 6 and fields["nodeID"] == 0 and count is None:
                    removed.append(("nodeRemoved", 0))
                    removed.append(("nodesRemoved", [0]))
            else:
                told.append(("messageReceived", command))
        keep = [name for name in METHODS if name not in how["without"]]
        return [x for x in told if x[0] in keep], [x for x in removed if x[0] in keep]

    for listener, how in zip(listeners, case["listeners"]):
        told, removed = expected(how)
        got = [c for c in listener.calls if c[0] not in ("nodeRemoved", "nodesRemoved")]
        with observing("what a listener was told"):
            same([name for name, _ in got], [name for name, _ in told], "announcements")
            for (name, message), (_, command) in zip(got, told):
                found = differences(message, command["name"], command["fields"], command.get("count"))
                require(not found, "announced by %s: %s", name, "; ".join(found[:2]))
            gone = [c for c in listener.calls if c[0] in ("nodeRemoved", "nodesRemoved")]
            for name in ("nodeRemoved", "nodesRemoved"):
                same([c for c in gone if c[0] == name], [c for c in removed if c[0] == name], "removals announced by %s", name)
    names = {c["name"] in (ADD, REMOVE) for c in arrived}
    rec.nontrivial(len(names) == 2)
