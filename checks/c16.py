"""Interviews learn versions and mark only complete interviews."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import contextlib

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import observing, require, same
from lib.device import TICK, Device, DeviceAdapter
from lib.layout import build, edge_ints
from lib.states import AGI, ASSOCIATION, BASIC, BATTERY, CONFIGURATION, MANUFACTURER, METER, NUMBERS, SENSOR, VERSION, ZWAVEPLUS
from pyzwave.node import Node, NodeEndPoint

PROPERTY = "C16"
RULE = """A case is one to three nodes or endpoints with command classes of which some versions are known already,
interviewed several times - the whole node or one class, several nodes at the same time - while any of the commands
sent is not acknowledged, fails, is not answered, is answered too late or is preceded by a report about something else,
and while the nodes' answers change.  What was sent, versions, interviewed flags and contents are compared with a
reference model walking along the commands that were sent.  Non-trivial: an interview with a fault, or with a class
whose version is asked for."""
ASSUMPTIONS = [
    "answers are whole reports",
    "sensor types a node no longer lists are not looked at",
    "a class whose version cannot be learned keeps the flag it had",
]
QUICK = 300
THOROUGH = 20000

CLASSES = [VERSION, MANUFACTURER, ZWAVEPLUS, SENSOR, AGI, CONFIGURATION, BASIC, BATTERY, METER, 0x25, 0xC3, 0x8E]
GETS = {VERSION: (0x8611, "Version.VersionGet"), MANUFACTURER: (0x7204, "ManufacturerSpecific.Get"), ZWAVEPLUS: (0x5E01, "ZwavePlusInfo.Get")}
OUTCOMES = ["nack", "error", "mute", "late", "foreign", "early"]
COMMANDS = [0x8613, 0x8613, 0x8611, 0x7204, 0x5E01, 0x3101, 0x3103, 0x3103, 0x5903]


def learned(cmdClass):
    if cmdClass == SENSOR:
        body = st.dictionaries(edge_ints(1, 60).map(str), st.integers(0, 15), max_size=4)
    elif cmdClass in NUMBERS or cmdClass == AGI:
        body = states.content(cmdClass)
    else:
        body = st.just({})
    versions = [4, 5, 6, 11, 0] if cmdClass == SENSOR else [1, 2, 3, 255, 0]
    return st.fixed_dictionaries({"version": st.sampled_from(versions[:4] * 3 + versions), "content": body})


@st.composite
def strategy_(draw):
    nodes = []
    for number in range(draw(st.sampled_from([1, 1, 2, 3]))):
        classes = draw(st.lists(st.sampled_from(CLASSES), min_size=1, max_size=5, unique=True))
        attempts = []
        for _ in range(draw(st.integers(1, 3))):
            attempts.append(
                {
                    "lock": draw(st.booleans()),
                    "class": draw(st.one_of(st.none(), st.none(), st.integers(0, 4))),
                    "faults": draw(st.lists(st.tuples(st.sampled_from(COMMANDS), st.integers(0, 3), st.sampled_from(OUTCOMES)).map(list), max_size=3)),
                    "change": draw(st.lists(st.sampled_from(classes).flatmap(lambda c: st.tuples(st.just(c), learned(c)).map(list)), max_size=2)),
                }
            )
        nodes.append(
            {
                "endpoint": draw(st.booleans()) if number else 0,
                "classes": classes,
                "learned": {str(c): draw(learned(c)) for c in classes},
                "known": {str(c): [draw(st.sampled_from([0, 0, 1, 4, 5, 9])), draw(st.booleans())] for c in draw(st.lists(st.sampled_from(classes), max_size=3, unique=True))},
                "attempts": attempts,
            }
        )
    return {"nodes": nodes}


def strategy():
    return strategy_()


def foreign(data):
    """Reports of the kind that is awaited, about something else."""
    hid = data[0] << 8 | data[1]
    if hid == 0x8613:
        return [build("Version.VersionCommandClassReport", {"requestedCommandClass": c, "commandClassVersion": 77}) for c in (data[2] ^ 1, 0, 255) if c != data[2]]
    if hid == 0x3103:
        return [build("SensorMultilevel.SupportedScaleReport", {"sensorType": t, "-1": 0, "scaleBitMask": 15}) for t in (data[2] ^ 0x80, 0) if t != data[2]]
    return [build("Basic.Report", {"value": 9})]


class One:
    """A node under interview and the model of it."""

    def __init__(self, node, device, what):
        self.node, self.device, self.what = node, device, what
        self.faults = []
        self.seen = {}
        self.log = []  # (bytes, outcome, answers)
        self.model = {}  # class: [version, interviewed, content]

    def script(self, data, answers):
        hid = data[0] << 8 | data[1]
        count = self.seen.get(hid, 0)
        self.seen[hid] = count + 1
        outcome = next((o for h, n, o in self.faults if h == hid and n == count), "good")
        self.log.append((data, outcome, answers))
        delays = [(2 + i) * TICK for i in range(len(answers))]
        if outcome == "nack":
            return {"ack": False, "delay": 1.0, "replies": []}
        if outcome == "error":
            return {"ack": None, "delay": 1.0, "replies": []}
        if outcome == "mute":
            return {"ack": True, "delay": TICK, "replies": []}
        if outcome == "late":
            return {"ack": True, "delay": TICK, "replies": [(3.5 + d, a) for d, a in zip(delays, answers)]}
        if outcome == "foreign":
            return {"ack": True, "delay": TICK, "replies": [(TICK * 1.5, f) for f in foreign(data)] + list(zip(delays, answers))}
        if outcome == "early":
            return {"ack": True, "delay": 2.0, "replies": list(zip(delays, answers))}
        return {"ack": True, "delay": TICK, "replies": list(zip(delays, answers))}

    # -- the model ------------------------------------------------------------------------------
    def step(self, name, fields, rec):
        """The next command must be this one; returns if it was answered."""
        require(self.log, "%s was not sent (%s)", name, fields)
        data, outcome, _ = self.log.pop(0)
        same(data.hex(), build(name, fields).hex(), "command sent where %s %s belongs" % (name, fields))
        if outcome not in ("good", "early"):
            rec.nontrivial()
            rec.label(outcome)
        return outcome in ("good", "foreign", "early")

    def version(self, cmdClass, rec):
        entry = self.model[cmdClass]
        if entry[0]:
            return True
        rec.nontrivial()
        rec.label("version asked for")
        if self.step("Version.VersionCommandClassGet", {"requestedCommandClass": cmdClass}, rec):
            entry[0] = self.device.version(cmdClass)
        return entry[0] != 0

    def interview(self, cmdClass, rec):
        if not self.version(cmdClass, rec):
            rec.label("version unknown")
            return
        entry = self.model[cmdClass]
        entry[1] = self.complete(cmdClass, entry, rec)
        rec.label("completed" if entry[1] else "timed out")

    def complete(self, cmdClass, entry, rec):
        if cmdClass in GETS:
            if not self.step(GETS[cmdClass][1], {}, rec):
                return False
            entry[2] = states.wanted(cmdClass, self.device.content(cmdClass))
        elif cmdClass == SENSOR and entry[0] >= 5:
            if not self.step("SensorMultilevel.SupportedGetSensor", {}, rec):
                return False
            left = set(self.device.content(SENSOR))
            while left:
                # in any order
                require(self.log and self.log[0][0][:2] == b"\x31\x03", "the scales of sensor types %s were not asked for", sorted(left))
                kind = str(self.log[0][0][2])
                require(kind in left, "the scales of sensor type %s were asked for, those of %s are missing", kind, sorted(left))
                if not self.step("SensorMultilevel.SupportedGetScale", {"sensorType": int(kind)}, rec):
                    return False
                entry[2][kind] = self.device.content(SENSOR)[kind]
                left.discard(kind)
        elif cmdClass == AGI:
            # names and commands are asked for when the reports arrive (see C23)
            require(self.log, "group information was not asked for")
            outcome = self.log[0][1]
            self.step("AssociationGrpInfo.GroupInfoGet", {"refreshCache": 0, "listMode": 1, "-2": 0, "groupingIdentifier": 0}, rec)
            if outcome == "error":
                return False
            if outcome in ("good", "late", "foreign", "early"):
                entry[2].update(states.wanted(AGI, self.device.content(AGI)))
        return True

    def settle(self, what):
        same([d.hex() for d, _, _ in self.log], [], "commands sent that do not belong to %s" % what)
        for cmdClass, (version, interviewed, content) in self.model.items():
            obj = self.node.supported[cmdClass]
            where = "%s after %s" % (obj.name, what)
            with observing(where):
                same(int(obj.version), version, "version of %s" % where)
                require(obj.interviewed is interviewed, "%s: interviewed is %r, expected %r", where, obj.interviewed, interviewed)
                now = states.read(cmdClass, obj)
                if cmdClass == SENSOR:
                    listed = self.device.content(SENSOR)
                    content = {k: v for k, v in content.items() if k in listed}
                    now = {k: v for k, v in now.items() if k in listed}
                if cmdClass == AGI:
                    # what is not reported for a group announced again is looked at in C23
                    announced = self.device.content(AGI)
                    content = {k: v for k, v in content.items() if k in announced and "name" in announced[k] and "commands" in announced[k]}
                    now = {k: v for k, v in now.items() if k in content}
                same(now, content, "content of %s" % where)
                states.check_types(cmdClass, obj, where)


def run(case, rec):
    async def main(_loop):
        ones = {}
        adapter = DeviceAdapter({})
        root = None
        for number, what in enumerate(case["nodes"]):
            device = Device(what["classes"], {c: {"version": v["version"], "content": dict(v["content"])} for c, v in what["learned"].items()})
            if what["endpoint"] and root is not None:
                node = NodeEndPoint(root, number, adapter, list(what["classes"]))
            else:
                node = Node(5 + number, adapter, list(what["classes"]))
                root = root or node
            key = (node.rootNodeId, node.endpoint)
            one = ones[key] = One(node, device, what)
            adapter.devices[key] = device
            for cmdClass in what["classes"]:
                version, interviewed = what["known"].get(str(cmdClass), [0, False])
                if str(cmdClass) in what["known"]:
                    node.supported[cmdClass].__setstate__({"version": version, "interviewed": interviewed})
                one.model[cmdClass] = [version, interviewed, states.wanted(cmdClass, {})]
            one.settle("what was known before")

        def script(nodeId, endpoint, data, answers):
            one = ones[(nodeId, endpoint)]
            if data[0] == AGI and data[1] in (1, 5):
                return None
            return one.script(data, answers)

        async def deliver(nodeId, endpoint, message, flags):
            await ones[(nodeId, endpoint)].node.handleMessage(message, flags)

        adapter.script = script
        adapter.deliver = deliver
        usual = adapter.sendToNode

        async def sendToNode(nodeId, cmd, **kwargs):
            ack = await usual(nodeId, cmd, **kwargs)
            if ack is None:
                raise asyncio.TimeoutError()
            return ack

        adapter.sendToNode = sendToNode

        async def attempts(number, one):
            await asyncio.sleep(number / 16)
            for index, attempt in enumerate(one.what["attempts"]):
                one.faults = attempt["faults"]
                one.seen = {}
                for cmdClass, what in attempt["change"]:
                    one.device.learned[cmdClass] = {"version": what["version"], "content": dict(what["content"])}
                if attempt["class"] is None:
                    with one.node.storageLock() if attempt.get("lock") else contextlib.nullcontext():
                        await one.node.interview()
                    todo = one.what["classes"]
                else:
                    todo = [one.what["classes"][attempt["class"] % len(one.what["classes"])]]
                    try:
                        await one.node.supported[todo[0]].interview()
                    except asyncio.TimeoutError:
                        rec.label("class interview raised a timeout")
                await asyncio.sleep(20)
                if len(case["nodes"]) > 1:
                    rec.label("several nodes")
                for cmdClass in todo:
                    one.interview(cmdClass, rec)
                one.settle("attempt %d" % index)

        await asyncio.gather(*(attempts(i, one) for i, one in enumerate(ones.values())))
        for one in ones.values():
            one.settle("everything")

    vloop.run(main)
