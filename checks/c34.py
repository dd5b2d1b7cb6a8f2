"""A multilevel sensor announces exactly the readings it supports."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import observing, require, same
from lib.device import TICK, Device, DeviceAdapter
from lib.layout import build, edge_ints, mostly
from lib.states import BASIC, SENSOR, VERSION
from pyzwave.node import Node, NodeEndPoint

PROPERTY = "C34"
RULE = """A case is one or two nodes or endpoints with a multilevel sensor of any version, any sensor types and scales, that
may be known from an earlier life, interviewed one to three times while commands are not acknowledged, fail, are not
answered, are answered too late or after an answer about something else, and while types and scales are added in the
node; after each interview readings of any type, scale and value arrive.  What was sent, the types and scales recorded,
the version, the interviewed flag and the readings that reach the listeners are compared with a reference model.
Non-trivial: a supported type is learned, and a reading arrives or a command fails."""
ASSUMPTIONS = [
    "answers to an interview are whole reports (scale reports may be cut short ahead of a whole one)",
    "sensor types that a node no longer has are not claimed",
]
QUICK = 330
THOROUGH = 22000

OUTCOMES = ["nack", "error", "mute", "late", "foreign", "foreign", "short", "early"]
TYPES = st.one_of(st.sampled_from([1, 3, 4, 5, 8, 9, 16, 17, 31, 200, 255]), edge_ints(1, 255))
FEW = st.dictionaries(TYPES.map(str), st.integers(0, 15), max_size=5)
CONTENT = mostly(FEW, states.many(SENSOR), 24)
VERSIONS = st.one_of(st.sampled_from([1, 4, 5, 5, 5, 6, 11, 12, 255]), st.integers(1, 255))
VALUE = st.sampled_from([1, 2, 4]).flatmap(
    lambda size: st.tuples(st.integers(0, 7), st.just(size), edge_ints(-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1))
).map(list)


@st.composite
def strategy_(draw):
    nodes = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        content = draw(CONTENT)
        known = sorted(content)
        mine = st.one_of(st.sampled_from(known).map(int), st.sampled_from(known).map(int), TYPES) if known else TYPES
        fault = st.tuples(st.sampled_from(["version", "types", "scales", "scales", "scales"]), st.integers(0, 6), st.sampled_from(OUTCOMES)).map(list)
        attempts = []
        for i in range(draw(st.integers(1, 3))):
            attempts.append(
                {
                    "faults": draw(st.lists(fault, max_size=2)),
                    "change": draw(st.lists(st.tuples(mine, st.integers(0, 15)).map(list), max_size=2)) if i else [],
                    "readings": draw(st.lists(st.tuples(mine, st.integers(0, 3), VALUE, st.sampled_from([0, 1, 8])).map(list), max_size=5)),
                }
            )
        nodes.append(
            {
                "endpoint": draw(st.integers(0, 3)) == 0,
                "classes": draw(st.permutations([SENSOR] + draw(st.lists(st.sampled_from([VERSION, BASIC]), max_size=2, unique=True)))),
                "version": draw(VERSIONS),
                "content": content,
                # what is known of the types from an earlier life: how many of them, and how their scales differed
                "before": draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 3), st.integers(0, 15), st.booleans()).map(list))),
                "attempts": attempts,
            }
        )
    return {"nodes": nodes, "whole": draw(st.integers(0, 2)) == 0}


def strategy():
    return strategy_()


class One:
    def __init__(self, node, device, what):
        self.node, self.device, self.what = node, device, what
        self.faults = []
        self.log = []  # (bytes, kind, outcome)
        self.asked = 0
        self.heard = {"class": [], "node": []}
        self.version = 0
        self.types = {}
        self.interviewed = False

    def script(self, data, answers):
        kind = {(VERSION, 0x13): "version", (SENSOR, 0x01): "types", (SENSOR, 0x03): "scales"}.get((data[0], data[1]))
        if kind is None or (kind == "version" and data[2] != SENSOR):
            return None
        if kind == "scales":
            self.asked += 1
        outcome = next((o for k, n, o in self.faults if k == kind and (kind != "scales" or n in (0, self.asked))), "good")
        self.log.append((data, kind, outcome))
        replies = [((2 + i) * TICK, answer) for i, answer in enumerate(answers)]
        if outcome in ("nack", "error"):
            return {"ack": False if outcome == "nack" else None, "delay": 1.0, "replies": []}
        if outcome == "mute":
            return {"ack": True, "delay": TICK, "replies": []}
        if outcome == "late":
            return {"ack": True, "delay": TICK, "replies": [(40 + d, a) for d, a in replies]}
        if outcome == "foreign":
            if kind == "version":
                other = [build("Version.VersionCommandClassReport", {"requestedCommandClass": 0x32, "commandClassVersion": 3})]
            else:
                number = data[2] if kind == "scales" else 1
                others = [n for n in sorted(int(k) for k in self.device.content(SENSOR)) if n != number] or [number % 255 + 1]
                other = [
                    build("SensorMultilevel.SupportedScaleReport", {"sensorType": n, "-1": 0, "scaleBitMask": 9}) for n in (others[0], others[-1])
                ]
            return {"ack": True, "delay": TICK, "replies": [((1.5 + i / 8) * TICK, o) for i, o in enumerate(other)] + replies}
        if outcome == "short" and kind == "scales":
            return {"ack": True, "delay": TICK, "replies": [(1.5 * TICK, bytes([SENSOR, 0x06, data[2]]))] + replies}
        return {"ack": True, "delay": 2.0 if outcome == "early" else TICK, "replies": replies}

    # -- the model ------------------------------------------------------------------------------
    def take(self, wanted, what, rec):
        require(self.log, "%s was not sent", what)
        data, _, outcome = self.log.pop(0)
        same(data.hex(), wanted.hex(), "command sent where %s belongs" % what)
        if outcome not in ("good", "early"):
            rec.label(outcome)
            rec.nontrivial()
        return outcome not in ("nack", "error", "mute", "late")

    def walk(self, content, rec):
        if self.version == 0:
            request = build("Version.VersionCommandClassGet", {"requestedCommandClass": SENSOR})
            if not self.take(request, "the request for the version", rec):
                return
            self.version = self.what["version"]
        if self.version < 5:
            rec.label("does not tell what is supported")
            self.interviewed = True
            return
        self.interviewed = False
        if not self.take(build("SensorMultilevel.SupportedGetSensor", {}), "the request for the types", rec):
            return
        left = {int(k) for k in content}
        while left:
            require(self.log and self.log[0][1] == "scales" and self.log[0][0][2] in left, "the scales of types %s were not asked for", sorted(left))
            number = self.log[0][0][2]
            left.discard(number)
            if not self.take(build("SensorMultilevel.SupportedGetScale", {"sensorType": number}), "the request for scales", rec):
                return
            self.types[str(number)] = content[str(number)]
            rec.label("types learned")
        self.interviewed = True

    def settle(self, what):
        same([d.hex() for d, _, _ in self.log], [], "commands sent that do not belong to %s" % what)
        obj = self.node.supported[SENSOR]
        with observing("sensor types after %s" % what):
            same(int(obj.version), self.version, "version after %s" % what)
            same(states.read(SENSOR, obj), dict(self.types), "types and scales after %s" % what)
            states.check_types(SENSOR, obj, "types and scales after %s" % what)
            require(obj.interviewed is self.interviewed, "interviewed is %r after %s, expected %r", obj.interviewed, what, self.interviewed)


def run(case, rec):
    async def main(_loop):
        ones = {}
        adapter = DeviceAdapter({})
        root = Node(99, adapter, [])
        for number, what in enumerate(case["nodes"]):
            learned = {SENSOR: {"version": what["version"], "content": dict(what["content"])}}
            device = Device(what["classes"], learned)
            node = Node(5 + number, adapter, list(what["classes"]))
            if what["endpoint"]:
                node = NodeEndPoint(root, 1 + number, adapter, list(what["classes"]))
            one = One(node, device, what)
            ones[(node.rootNodeId, node.endpoint)] = one
            adapter.devices[(node.rootNodeId, node.endpoint)] = device
            if what["before"]:
                count, other, done = what["before"]
                one.types = {k: v ^ other for k, v in sorted(what["content"].items())[:count]} if what["version"] >= 5 else {}
                one.version, one.interviewed = what["version"], done
                state = states.state_of(SENSOR, {"version": one.version, "interviewed": done, "content": one.types})
                node.supported[SENSOR].__setstate__(state)
                rec.label("known from an earlier life")

            class Hears:
                def __init__(self, got):
                    self.got = got

                async def onReport(self, _speaker, message, _flags):
                    self.got["class"].append(message)
                    return False

                async def onMessage(self, _speaker, message):
                    if type(message).__module__.endswith("SensorMultilevel") and type(message).__name__ == "Report":
                        self.got["node"].append(message)
                    return False

            node.supported[SENSOR].addListener(Hears(one.heard))
            node.addListener(Hears(one.heard))

        async def deliver(nodeId, endpoint, message, flags):
            await ones[(nodeId, endpoint)].node.handleMessage(message, flags)

        adapter.script = lambda nodeId, endpoint, data, answers: ones[(nodeId, endpoint)].script(data, answers)
        adapter.deliver = deliver
        usual = adapter.sendToNode

        async def sendToNode(nodeId, cmd, **kwargs):
            ack = await usual(nodeId, cmd, **kwargs)
            if ack is None:
                raise asyncio.TimeoutError()
            return ack

        adapter.sendToNode = sendToNode

        async def read(one, readings, what):
            """Readings arrive; returns nothing, what was heard of them is compared."""
            for got in one.heard.values():
                del got[:]
            expected = []
            for kind, scale, (precision, size, value), gap in readings:
                fields = {"sensorType": kind, "sensorValue": [precision, scale, size, value]}
                adapter.arrived(one.node.rootNodeId, one.node.endpoint, build("SensorMultilevel.Report", fields))
                await asyncio.sleep(gap / 8)
                if one.version < 5 or one.types.get(str(kind), 0) >> scale & 1:
                    expected.append([kind, scale, value / 10 ** precision])
                    rec.label("announced")
                else:
                    rec.label("not supported")
            await asyncio.sleep(1)
            rec.nontrivial(bool(readings and one.types))
            for who, got in one.heard.items():
                with observing("readings"):
                    heard = [[int(m.sensorType), int(m.sensorValue.scale), float(m.sensorValue)] for m in got]
                    same([h[:2] for h in heard], [e[:2] for e in expected], "type and scale of the readings the listeners of the %s got %s" % (who, what))
                    for mine, theirs in zip(heard, expected):
                        require(abs(mine[2] - theirs[2]) <= abs(theirs[2]) * 1e-12, "the reading %s was announced as %s", theirs, mine)

        async def attempts(number, one):
            await asyncio.sleep(number / 16)
            await read(one, one.what["attempts"][0]["readings"], "before any interview")
            for index, attempt in enumerate(one.what["attempts"]):
                one.faults, one.asked, one.log = attempt["faults"], 0, []
                content = one.device.content(SENSOR)
                for kind, scales in attempt["change"]:
                    content[str(kind)] = scales
                    rec.label("changed in the node")
                content = dict(content)
                if case["whole"]:
                    await one.node.interview()
                else:
                    await one.node.supported[SENSOR].interview()
                await asyncio.sleep(60)
                one.walk(content, rec)
                rec.label("complete" if one.interviewed else "not complete")
                one.settle("attempt %d" % index)
                await read(one, attempt["readings"], "after attempt %d" % index)
                one.settle("the readings after attempt %d" % index)

        await asyncio.gather(*(attempts(i, one) for i, one in enumerate(ones.values())))
        same(sorted({(n, e) for _, n, e, _ in adapter.sent if (n, e) not in ones}), [], "others commands were sent to")

    vloop.run(main)
