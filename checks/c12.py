"""Each supervised command is executed once and reported once."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from checks import c13
from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import build, composable_messages, differences
from lib.sim import Sim, SimNode
from lib.states import AGI, CONFIGURATION, SENSOR, read, state_of
from pyzwave.application import Application
from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C12"
RULE = """A case is either a node with handlers and listeners that gets a sequence of commands while an equal node gets
the same commands supervised: both must call the same handlers and listeners with the same command and flags, end up
in the same state and count the command as handled alike, and only the second sends a report, one for each.  Or it
is a simulated network whose nodes and endpoints send supervised and other commands that are handled slowly, so that
several are being handled at a time: every report must reach the node and endpoint it belongs to.  Non-trivial: a
supervised command is handled, or two are being handled at the same time."""
ASSUMPTIONS = ["a supervised command is not itself a supervision request", "the same request does not arrive twice"]
QUICK = 260
THOROUGH = 14000
EIGHTH = 1 / 8

PLACES = [(5, 0), (5, 1), (5, 2), (6, 0)]


@st.composite
def twins(draw):
    case = draw(c13.strategy_())
    # the length of a command within another is one byte
    case["ops"] = [op for op in case["ops"] if len(c13.command_of(op[1])[0]) < 256]
    case["sessions"] = draw(st.lists(st.integers(0, 63), min_size=len(case["ops"]), max_size=len(case["ops"])))
    case["updates"] = draw(st.lists(st.integers(0, 3), min_size=len(case["ops"]), max_size=len(case["ops"])))
    case["sent"] = draw(st.booleans())
    return case


@st.composite
def network(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["supervised"] * 6 + ["bare", "report", "empty"]))
        ops.append(
            [
                draw(st.integers(0, 5)), kind, draw(st.integers(0, 3)), draw(st.integers(0, 63)), draw(st.booleans()), draw(st.booleans()),
                # how it is handled: after how long, and whether
                draw(st.sampled_from([0, 0, 1, 3, 20])), draw(st.booleans()),
                draw(composable_messages(["Basic.Set", "Basic.Report", "SwitchBinary.Set", "Indicator.Report"])) if draw(st.integers(0, 2)) == 0 else None,
            ]
        )
    return {"network": True, "batch": draw(st.booleans()), "ops": ops}


def strategy():
    return st.one_of(twins(), twins(), network())


class Adapter:
    def __init__(self, result):
        self.sent = []
        self.result = result

    async def sendToNode(self, nodeId, cmd, **kwargs):
        self.sent.append((nodeId, kwargs.get("destEP", 0), kwargs.get("sourceEP", 0), cmd.compose()))
        return self.result


def reports(sent):
    return [s for s in sent if s[3][:1] == b"\x6c"]


def check_report(report, nodeId, endpoint, session, handled, what):
    same(report[:3], (nodeId, endpoint, 0), "where the report of %s was sent", what)
    data = report[3]
    require(len(data) >= 4 and data[:2] == b"\x6c\x02", "the report of %s is %s", what, data.hex())
    same(data[2] & 0x3F, session, "session of the report of %s", what)
    require(not data[2] & 0x80, "the report of %s announces further ones: %s", what, data.hex())
    same(data[3], 0xFF if handled else 0x00, "status of the report of %s", what)


def run(case, rec):
    if "network" in case:
        run_network(case, rec)
    else:
        run_twins(case, rec)


# -- the same command, bare and supervised -----------------------------------------------------------
def run_twins(case, rec):
    del c13.LOG[:]
    c13.ANSWER.clear()
    c13.ANSWER.update(case["handlers"])
    c13.ANSWER.update({"%d:99" % c: True for c in (c13.DERIVED, c13.QUIRK)})

    def make():
        root = Node(5, Adapter(case["sent"]), list(case["classes"]))
        node = NodeEndPoint(root, 1, Adapter(case["sent"]), list(case["classes"])) if case["endpoint"] else root
        if SENSOR in case["classes"]:
            node.supported[SENSOR].__setstate__(state_of(SENSOR, {"version": case["version"], "interviewed": True, "content": case["sensors"]}))
        if AGI in case["classes"]:
            node.supported[AGI].__setstate__(state_of(AGI, {"version": 1, "interviewed": True, "content": case["groups"]}))
        for i, (cmdClass, answers) in enumerate(case["listeners"]):
            node.supported[cmdClass].addListener(c13.Hears("%d" % i, answers))
        for i, answers in enumerate(case["general"]):
            node.addListener(c13.Hears("general %d" % i, {"onMessage": answers}))
        return node

    async def deliver(node, data, awaited, message):
        flags = {0: {}, 1: 0, 2: None}.get(len(data) % 5, object())
        waiting = None
        if awaited:
            waiting = asyncio.ensure_future(node.waitForMessage(message, timeout=3))
            for _ in range(5):
                await asyncio.sleep(0)
        del c13.LOG[:]
        del node.adapter.sent[:]
        result = await node.handleMessage(Message.decode(data), flags)
        for _ in range(5):
            await asyncio.sleep(0)
        calls = list(c13.LOG)
        for call in calls:
            if call[0] == "handler" or not call[1][0].startswith("general"):
                require(call[4] is flags or repr(call[4]) == repr(flags), "the flags for %s are %r", data.hex(), call[4])
        got = await waiting if waiting else None
        return result, calls, list(node.adapter.sent), got

    async def main(loop):  # pylint: disable=unused-argument
        bare, supervised = make(), make()
        for (awaited, data), session, updates in zip(case["ops"], case["sessions"], case["updates"]):
            raw = c13.command_of(data)[0]
            wrapped = bytes([0x6C, 0x01, (updates << 6 & 0xC0) | session, len(raw)]) + raw
            message = Message.decode(raw)
            one = await deliver(bare, raw, awaited, message)
            two = await deliver(supervised, wrapped, awaited, message)
            what = "%s, session %d" % (raw.hex(), session)
            same([c[:2] for c in two[1]], [c[:2] for c in one[1]], "called for the supervised %s", what)
            for first, second in zip(one[1], two[1]):
                with observing("the command of %s" % what):
                    require(type(first[3]) is type(second[3]), "%s got %s instead of %s", first[1], second[3], first[3])
                    same(second[3].hid(), message.hid(), "the command given for %s", what)
                    if "name" in data:
                        require(not differences(second[3], data["name"], data["fields"]), "%s got another command for %s", first[1], what)
            same(bool(two[0]), bool(one[0]), "whether the supervised %s is handled", what)
            if awaited:
                same(type(two[3]), type(one[3]), "what the request got for %s", what)
            same(len(reports(one[2])), 0, "supervision reports sent for the bare %s", what)
            sent = reports(two[2])
            same(len(sent), 1, "supervision reports sent for the supervised %s", what)
            check_report(sent[0], 5, 1 if case["endpoint"] else 0, session, bool(one[0]), what)
            same([s for s in two[2] if s not in sent], one[2], "other commands sent for the supervised %s", what)
            for cmdClass in (CONFIGURATION, AGI):
                if cmdClass in case["classes"]:
                    same(read(cmdClass, supervised.supported[cmdClass]), read(cmdClass, bare.supported[cmdClass]), "state after %s", what)
            rec.label("handled" if one[0] else "not handled")
            rec.nontrivial(bool(one[0]))

    with c13.Register():
        vloop.run(main)


# -- several at a time -------------------------------------------------------------------------------
class Command:
    def __init__(self, place, delay, answer):
        self.place, self.delay, self.answer = place, delay, answer
        self.calls = []


def run_network(case, rec):
    handling = {}  # command bytes: Command
    expected = {}
    overlap = [0]

    class Hears:
        def __init__(self, place):
            self.place = place

        async def onMessage(self, _speaker, message):
            with observing("a command delivered"):
                data = message.compose()
            require(data in handling, "%s was delivered, nobody sent it", data.hex())
            command = handling[data]
            command.calls.append(self.place)
            overlap[0] += 1
            if overlap[0] > 1:
                rec.nontrivial()
                rec.label("overlapping")
            await asyncio.sleep(command.delay * EIGHTH)
            overlap[0] -= 1
            return command.answer

    class AppListener:
        def nodeAdded(self, _speaker, node):
            node.addListener(Hears(node.nodeId))

    async def main(loop):
        sim = Sim(loop, [SimNode(5, b"\x60\x25", endpoints=[(16, 1, b"\x25"), (16, 1, b"\x20")]), SimNode(6, b"\x25")])
        loop.batch = case.get("batch", False)
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        app = Application(gateway, PersistantStorage())
        app.addListener(AppListener())
        await app.startup()
        await asyncio.sleep(2)
        before = len(sim.received)
        for i, (after, kind, place, session, own, ask, delay, answer, message) in enumerate(case["ops"]):
            await asyncio.sleep(after * EIGHTH + 1 / 1024)
            nodeId, endpoint = PLACES[place]
            raw = build(message["name"], message["fields"]) if message else bytes([0x25, 0x01, i])
            if kind == "empty":
                raw = b""
            elif kind == "report":
                raw = build("Supervision.Report", {"moreStatusUpdates": 0, "wakeUpRequest": 0, "sessionID": session, "status": 255, "duration": i})
            if raw in handling or (nodeId, endpoint, session) in expected:
                continue
            if raw:
                handling[raw] = Command("%d:%d" % (nodeId, endpoint), delay, answer)
            if kind in ("supervised", "empty"):
                data = bytes([0x6C, 0x01, session]) + (bytes([len(raw)]) + raw if raw else b"")
                expected[nodeId, endpoint, session] = bool(raw) and answer
                rec.nontrivial(bool(raw) and answer)
            else:
                data = raw
            rec.label(kind)
            socket = sim.node_socket(nodeId)
            if own and socket is not None:
                sim.reply(socket, 0, wire.packet(i, data, endpoint, 0))
                rec.label("on a node connection")
            else:
                sim.unsolicited(0, sim.nodes[nodeId].address, wire.packet(i, data, endpoint, 0, wire.ACK_REQUEST if ask else 0, options=[(False, 2, b"")] if ask else None))
        await asyncio.sleep(30)
        return sim, before

    (sim, before), _ = vloop.run(main, settle=1)
    for raw, command in handling.items():
        same(command.calls, [command.place], "deliveries of %s", raw.hex())
    sent = []
    owner = {node.address: node.nodeId for node in sim.nodes.values()}
    for _, address, packet in sim.received[before:]:
        if packet.kind != "zip" or packet.is_ack:
            continue
        require(packet.command[:2] == b"\x6c\x02", "%s was sent to %s", packet.command.hex(), address)
        require(address in owner, "a supervision report was sent to %s", address)
        sent.append((owner[address], packet.dest, packet.source, packet.command))
    same(
        sorted((n, e, d[2] & 0x3F) for n, e, _, d in sent if len(d) > 2),
        sorted(expected),
        "supervision reports sent (node, endpoint, session)",
    )
    for report in sent:
        session = report[3][2] & 0x3F
        check_report(report, report[0], report[1], session, expected[report[0], report[1], session], "session %d" % session)
