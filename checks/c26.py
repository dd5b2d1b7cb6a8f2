"""Messages, nodes and command classes never share mutable state."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import json
import os
import signal
import traceback

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import HarnessError, Violation, require
from lib.device import Device, DeviceAdapter
from lib.layout import LAYOUT, build, composable_messages, construct, edge_ints, find_class, keys_of, message_strategy
from lib.states import AGI, ASSOCIATION, BATTERY, CONFIGURATION, MANUFACTURER, METER, MULTI_CHANNEL_ASSOCIATION, SENSOR, VERSION, ZWAVEPLUS
from pyzwave.application import Application
from pyzwave.commandclass import Association, AssociationGrpInfo, Configuration
from pyzwave.mailbox import MailboxService
from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint
from pyzwave.persistantstorage import YamlStorage
from pyzwave.util import AttributesMixin, Listenable, MessageWaiter
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C26"
RULE = """A case, run in a process of its own, is two to six objects - messages decoded, built or empty, nodes and
endpoints with their command classes, parts of command classes, adapters, storages, applications, mailboxes - often
several of a kind, and a history of operations on one of them at a time: reading every attribute, changing every list,
set and dictionary it hands out, setting attributes, restoring state, reports, interviews, adding listeners, waiting for
messages, settings.  After each operation everything observable of all other objects must be as it was; at the end
objects made anew are like the first of their kind were.  Non-trivial: something of the object itself was changed."""
ASSUMPTIONS = [
    "an endpoint shows the state of its parent on purpose, and messages inside a message are part of it",
    "objects a user himself gives to two objects are not generated",
]
QUICK = 500
THOROUGH = 9000

CLASSES = [ASSOCIATION, AGI, CONFIGURATION, SENSOR, VERSION, MANUFACTURER, ZWAVEPLUS, MULTI_CHANNEL_ASSOCIATION, METER, BATTERY, 0x20, 0xC3]
HOLDERS = {
    "Association.Group": Association.Group, "Association.Groupings": Association.Groupings, "Association.Nodes": Association.Nodes,
    "AssociationGrpInfo.Group": AssociationGrpInfo.Group, "AssociationGrpInfo.Groupings": AssociationGrpInfo.Groupings,
    "Configuration.ConfigurationValue": Configuration.ConfigurationValue, "Configuration.parameters": dict(Configuration.Configuration.attributes)["parameters"],
}
# messages with lists, sets and dictionaries in them come more often
MUTABLE = [
    "Association.Report", "Association.Set", "MultiChannelAssociation.MultiChannelReport", "AssociationGrpInfo.GroupInfoReport",
    "AssociationGrpInfo.GroupCommandListReport", "NodeProvisioning.ListIterationReport", "Zip.ZipPacket", "SensorMultilevel.SupportedSensorReport",
    "NetworkManagementProxy.NodeListReport", "NetworkManagementProxy.FailedNodeListReport", "Supervision.Get", "Mailbox.Queue",
]
ALL = sorted(LAYOUT)
NAMES = st.sampled_from(ALL + [n for n in MUTABLE if n in LAYOUT] * 4)
AWAITED = ["Indicator.Report", "SwitchBinary.Report", "Battery.Report"]


def spec():
    decoded = NAMES.flatmap(lambda n: message_strategy([n])).map(lambda m: {"kind": "decoded", **m})
    built = composable_messages().map(lambda m: {"kind": "built", **m})
    empty = NAMES.map(lambda n: {"kind": "empty", "name": n})
    node = st.lists(st.sampled_from(CLASSES), min_size=1, max_size=4, unique=True).flatmap(
        lambda cs: st.fixed_dictionaries(
            {"kind": st.sampled_from(["node", "node", "endpoint"]), "classes": st.just(cs), "fresh": st.booleans(), "learned": st.fixed_dictionaries({str(c): states.contents(c) for c in cs})}
        )
    )
    holder = st.sampled_from(sorted(HOLDERS)).map(lambda n: {"kind": "holder", "name": n})
    thing = st.sampled_from(["gateway", "storage", "application", "mailbox"]).map(lambda k: {"kind": k})
    return st.one_of(decoded, built, empty, empty, node, node, node, holder, holder, thing)


OPS = ["read", "containers", "containers", "containers", "attributes", "listener", "wait", "restore", "report", "interview", "settings", "own", "delivered"]


@st.composite
def strategy_(draw):
    specs = []
    for _ in range(draw(st.integers(1, 3))):
        specs += [draw(spec())] * draw(st.sampled_from([1, 2, 2]))
    number = st.integers(0, 9)
    ops = draw(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(OPS), number).map(list), min_size=1, max_size=6))
    nodes = [i for i, s in enumerate(specs) if s["kind"] in ("node", "endpoint")]
    if nodes and draw(st.booleans()):
        ops[:0] = [[draw(st.sampled_from(nodes)), "interview", 0]] + [[0, "delivered", draw(number)]] * draw(st.integers(0, 1))
    return {"specs": specs, "ops": ops, "values": draw(st.lists(edge_ints(0, 255), min_size=1, max_size=4))}


def strategy():
    return strategy_()


def deep(value, seen=()):
    """What a user can see of a value."""
    if id(value) in seen:
        return "..."
    seen = seen + (id(value),)
    if isinstance(value, Message) or isinstance(value, AttributesMixin):
        return [type(value).__name__] + [[n, deep(getattr(value, n), seen)] for n in sorted({a[0] for a in value.attributes}) if n != "-"]
    if isinstance(value, dict):
        return {repr(k): deep(v, seen) for k, v in value.items()}
    if isinstance(value, (set, frozenset)):
        return sorted(repr(v) for v in value)
    if isinstance(value, (list, tuple)):
        return [deep(v, seen) for v in value]
    return repr(value) if type(value).__repr__ is not object.__repr__ else type(value).__name__


def containers(value, out, seen):
    """Every list, dictionary, set and attribute holder reachable from a value."""
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, AttributesMixin):
        out.append(value)
        for name, *_ in value.attributes:
            if name != "-":
                containers(getattr(value, name), out, seen)
    elif isinstance(value, dict):
        out.append(value)
        for item in list(value.values()):
            containers(item, out, seen)
    elif isinstance(value, (list, set, tuple)):
        if not isinstance(value, tuple):
            out.append(value)
        for item in list(value):
            containers(item, out, seen)


class Probe:
    def __init__(self, token):
        self.token = token

    def probe(self, *_args):
        return self.token


def heard(obj):
    """The listeners an object has, by asking."""
    return [f.result() for f in obj.speak("probe")]


class Thing:
    """An object under test with everything that belongs to it."""

    def __init__(self, what, index, adapter):
        self.what, self.index, self.adapter = what, index, adapter
        self.waits = []  # [(object, name)]
        kind = what["kind"]
        self.obj = getattr(self, "make_" + {"endpoint": "node", "decoded": "message", "built": "message", "empty": "message"}.get(kind, kind))(what)

    # -- making ---------------------------------------------------------------------------------
    @staticmethod
    def make_message(what):
        if what["kind"] == "empty":
            return find_class(what["name"])()
        return Message.decode(build(what["name"], what["fields"])) if what["kind"] == "decoded" else construct(what["name"], what["fields"])

    def make_node(self, what):
        nodeId = 10 + self.index
        self.classes = list(what["classes"])
        node = Node(nodeId, self.adapter, self.classes)
        if what["kind"] == "endpoint":
            node = NodeEndPoint(Node(nodeId, self.adapter, []), 1, self.adapter, self.classes)
        for cmdClass, obj in node.supported.items():
            if not what["fresh"]:
                obj.__setstate__(states.state_of(cmdClass, what["learned"][str(cmdClass)]))
        learned = {int(c): {"version": 5, "content": json.loads(json.dumps(v["content"]))} for c, v in what["learned"].items()}
        if ASSOCIATION in learned:
            learned[ASSOCIATION]["content"] = {k: v for k, v in learned[ASSOCIATION]["content"].items() if int(k) < 4}
        if SENSOR in learned:
            learned[SENSOR]["content"] = {k: v for k, v in learned[SENSOR]["content"].items() if int(k) < 60}
        self.adapter.devices[(node.rootNodeId, node.endpoint)] = Device(self.classes, learned)
        self.adapter.nodes_by_key[(node.rootNodeId, node.endpoint)] = node
        return node

    @staticmethod
    def make_holder(what):
        return HOLDERS[what["name"]]()

    @staticmethod
    def make_gateway(_what):
        return ZIPGateway("fd00::1", b"psk")

    def make_storage(self, _what):
        return YamlStorage("/nonexistent/%d" % self.index)

    def make_application(self, _what):
        return Application(DeviceAdapter({}), YamlStorage("/nonexistent"))

    def make_mailbox(self, _what):
        return MailboxService(DeviceAdapter({}))

    # -- looking --------------------------------------------------------------------------------
    def seen(self):
        """Everything observable."""
        obj = self.obj
        kind = self.what["kind"]
        if kind in ("node", "endpoint"):
            own = ["genericDeviceClass", "specificDeviceClass"] + (["basicDeviceClass", "flirs", "isFailed", "listening"] if kind == "node" else [])
            return [
                [repr(getattr(obj, n)) for n in own], list(self.classes), heard(obj), sorted(obj.supported),
                [[c, heard(o), deep(o), repr(o.version), o.interviewed, o.securityS0, o.id, o.name, o.node is obj] for c, o in sorted(obj.supported.items())],
            ]
        if kind == "gateway":
            return [heard(obj), repr(obj.nodeId)]
        if kind == "application":
            return [heard(obj), sorted(obj.nodes), heard(obj.adapter)]
        if kind == "storage":
            return [str(obj.path), str(obj.pathForNode("5:0"))]
        if kind == "mailbox":
            return [type(obj).__name__]
        return deep(obj)

    # -- doing ----------------------------------------------------------------------------------
    def parts(self):
        """The listenable, attribute holding parts of the object."""
        if self.what["kind"] in ("node", "endpoint"):
            return [self.obj] + [self.obj.supported[c] for c in sorted(self.obj.supported)]
        return [self.obj]

    def roots(self):
        if self.what["kind"] in ("node", "endpoint"):
            return [self.obj.supported[c] for c in sorted(self.obj.supported)]
        return [self.obj]

    def change_container(self, number, value):
        found = []
        for root in self.roots():
            containers(root, found, set())
        found = [f for f in found if not (isinstance(f, AttributesMixin) and f in self.roots())]
        if not found:
            return False
        target = found[number % len(found)]
        how = number // 3
        if isinstance(target, AttributesMixin):
            return change_attributes(target, number, value)
        if isinstance(target, dict):
            if target and how == 1:
                target.clear()
            elif target and how == 2:
                target.pop(next(iter(target)))
            else:
                dict.__setitem__(target, 99, value)
        elif isinstance(target, set):
            if target and how == 1:
                target.clear()
            else:
                target.add(500 + value)
        else:
            if target and how == 1:
                target.clear()
            elif target and how == 2:
                target.reverse()
                target[0] = 77
            else:
                target.append((value, 99))
        return True


def change_attributes(target, number, value):
    names = [a for a in target.attributes if a[0] != "-"]
    changed = False
    for name, *_ in names[number % 2 :] or names:
        for candidate in (value, bytes([value]), str(value), [(value, 1)], [[value, 1]], {1: value}, {"a": b"x"}, b"\x01" * 16):
            try:
                setattr(target, name, candidate)
                changed = True
                break
            except Exception:  # pylint: disable=broad-except
                continue
    return changed


async def act(thing, op, number, value, kept):
    obj = thing.obj
    kind = thing.what["kind"]
    node = kind in ("node", "endpoint")
    if op == "read":
        for root in thing.roots():
            deep(root)
            if hasattr(root, "debugString"):
                root.debugString()
            if hasattr(root, "__getstate__") and isinstance(root, AttributesMixin):
                # what was saved belongs to nobody else
                found = []
                state = root.__getstate__()
                containers(state, found, set())
                if node:
                    for item in found:
                        item.clear()
        return False
    if op == "containers":
        return thing.change_container(number, value)
    if op == "attributes":
        roots = [r for r in thing.roots() if isinstance(r, AttributesMixin)]
        return bool(roots) and change_attributes(roots[number % len(roots)], number, value)
    if op == "listener":
        parts = [p for p in thing.parts() if isinstance(p, Listenable)]
        if kind == "application" and number % 2:
            parts = [obj.adapter]
        if not parts:
            return False
        parts[number % len(parts)].addListener(Probe("%d/%d" % (thing.index, number)))
        return True
    if op == "wait":
        if not (node or kind == "gateway"):
            return False
        name = AWAITED[number % len(AWAITED)]
        obj.addWaitingSession(find_class(name))
        thing.waits.append(name)
        return True
    if op == "restore":
        if node:
            for cmdClass, part in obj.supported.items():
                part.__setstate__(json.loads(json.dumps(states.state_of(cmdClass, thing.what["learned"][str(cmdClass)]))))
            return True
        return False
    if op == "report" and node:
        data = [
            build("Configuration.Report", {"parameterNumber": number, "-1": 0, "value": [1, value]}),
            build("AssociationGrpInfo.GroupInfoReport", {"listMode": 0, "dynamicInfo": 0, "groups": [[number, 0, value, 0, 0]]}),
            build("AssociationGrpInfo.GroupCommandListReport", {"groupingIdentifier": 1, "commandClass": [[1, value]]}),
            build("Basic.Report", {"value": value}),
        ][number % 4]
        message = Message.decode(data)
        kept.append([message, deep(message)])
        await obj.handleMessage(message, 0)
        return True
    if op == "interview" and node:
        thing.adapter.kept = kept
        await obj.interview()
        return True
    if op == "settings" and node:
        obj.genericDeviceClass = value
        obj.specificDeviceClass = number
        if kind == "node":
            obj.basicDeviceClass, obj.flirs, obj.isFailed, obj.listening = value, not obj.flirs, not obj.isFailed, not obj.listening
        with obj.storageLock():
            obj.commandClassUpdated(None)
        return True
    if op == "own":
        if kind == "storage":
            obj.path = "/elsewhere/%d" % value
        elif kind == "gateway":
            obj.nodeId = value
        elif kind == "application":
            obj.nodes["%d:0" % value] = None
            obj.setNodeInfo(value, number, [value])
        elif kind == "holder" and hasattr(obj, "__setstate__"):
            state = {"Association.Nodes": ["1", "2:3"], "Association.Groupings": {"1": {"maxNodes": 3, "nodes": ["1"]}},
                     "AssociationGrpInfo.Groupings": {"1": {"name": "x", "commands": [[1, 2]]}}, "Configuration.parameters": {"1": {"value": 1, "size": 1}}}.get(thing.what["name"])
            if state is None:
                return False
            obj.__setstate__(state)
        elif node:
            thing.classes.append(0x99)
        else:
            return False
        return True
    return False


async def body(case, rec):
    adapter = DeviceAdapter({})
    adapter.nodes_by_key = {}
    adapter.kept = []

    async def deliver(nodeId, endpoint, message, flags):
        adapter.kept.append([message, deep(message)])
        await adapter.nodes_by_key[(nodeId, endpoint)].handleMessage(message, flags)

    adapter.deliver = deliver
    things = [Thing(what, i, adapter) for i, what in enumerate(case["specs"])]
    first = [t.seen() for t in things]
    kept = []  # messages objects have been given, with what they looked like
    for at, (which, op, number) in enumerate(case["ops"]):
        thing = things[which % len(things)]
        value = case["values"][at % len(case["values"])]
        before = [t.seen() for t in things]
        messages = list(kept)
        if op == "delivered" and kept:
            # change a message some object was given
            found = []
            for i in range(len(kept)):
                message = kept[(number + i) % len(kept)]
                found = []
                containers(message[0], found, set())
                if found[1:]:
                    break
            for item in found[1:]:
                if isinstance(item, (list, dict, set)):
                    item.clear()
            message[1] = deep(message[0])
            thing = None
            rec.label("message that was delivered")
            changed = bool(found[1:])
        else:
            try:
                changed = await act(thing, op, number, value, kept)
            except Exception as error:  # pylint: disable=broad-except
                # what was put in makes no sense to the object itself
                rec.label("%s in the object itself" % type(error).__name__)
                changed = True
        # what the operation had others send is not the work of a later one
        await asyncio.sleep(20)
        after = [t.seen() for t in things]
        what = "%s of a %s" % (op, thing.what["kind"] if thing else "message that was delivered")
        for other, old, new in zip(things, before, after):
            if other is not thing:
                require(old == new, "%s changed another object, a %s: %s became %s", what, other.what["kind"], old, new)
        for message in messages:
            if thing is not None:
                require(deep(message[0]) == message[1], "%s changed a message: %s became %s", what, message[1], deep(message[0]))
        if changed:
            rec.nontrivial()
            rec.label("%s %s" % (op, thing.what["kind"] if thing else ""))
    # objects of the same kind are still born the same
    for index, (what, seen) in enumerate(zip(case["specs"], first)):
        adapter.devices.pop((10 + index, 0), None)
        new = Thing(what, index, adapter).seen()
        require(new == seen, "a new %s is born different: %s, at first %s", what["kind"], new, seen)
    # nobody but the one who waits is given a message
    for name in AWAITED:
        message = Message.decode(build(name, {k: 0 for k in keys_of(name)}))
        for thing in things:
            if isinstance(thing.obj, MessageWaiter):
                taken = thing.obj.messageReceived(message) is True
                require(taken == (name in thing.waits), "a %s took a %s: %r, it waits for %s", thing.what["kind"], name, taken, thing.waits)


def child(case, pipe):
    from lib.core import Recorder  # pylint: disable=import-outside-toplevel

    rec = Recorder()
    result = {"violation": None, "harness": None}
    try:
        vloop.run(lambda _loop: body(case, rec), allow_failures=True)
    except Violation as error:
        result["violation"] = str(error)
    except BaseException as error:  # pylint: disable=broad-except
        frames = traceback.extract_tb(error.__traceback__)
        if any("/pyzwave/" in f.filename for f in frames[-3:]) and not isinstance(error, HarnessError):
            result["violation"] = "%s: %s" % (type(error).__name__, error)
        else:
            result["harness"] = "".join(traceback.format_exception(error))
    result["labels"], result["interesting"] = rec.labels, rec.interesting
    with os.fdopen(pipe, "w") as out:
        json.dump(result, out)


def run(case, rec):
    reading, writing = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(reading)
            child(case, writing)
        finally:
            os._exit(0)  # pylint: disable=protected-access
    os.close(writing)
    try:
        with os.fdopen(reading) as source:
            text = source.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not text:
        raise HarnessError("the process of the case ended without an answer")
    result = json.loads(text)
    for name, count in result["labels"].items():
        rec.label(name, count)
    rec.nontrivial(result["interesting"])
    if result["harness"]:
        raise HarnessError(result["harness"])
    if result["violation"]:
        raise Violation(result["violation"])
