"""The advertised command class list decides what a node supports."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop
from lib.core import observing, require, same
from lib.layout import mostly
from lib.sim import Sim, SimNode
from pyzwave.application import Application
from pyzwave.commandclass import CommandClass, ZWaveCommandClass, cmdClasses
from pyzwave.node import Node, NodeEndPoint
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C11"
RULE = """A case is a command class list with any of the marks anywhere, known and unknown classes and repetitions,
for a node or an endpoint, given directly or reported by a simulated gateway.  What the node supports, every object
in it and its security flag are compared with an independent reading of the list.  Non-trivial: the list has a mark
with classes on both sides."""
ASSUMPTIONS = [
    "two byte (extended) command classes are not generated",
    "the flag of a class listed on both sides of the security mark is left open",
]
QUICK = 1100
THOROUGH = 60000

SECURITY_MARK, CONTROL_MARK = [0xF1, 0x00], [0xEF]
KNOWN = {
    0x20: "BASIC", 0x31: "SENSOR_MULTILEVEL", 0x32: "METER", 0x59: "ASSOCIATION_GRP_INFO", 0x5E: "ZWAVEPLUS_INFO", 0x69: "MAILBOX",
    0x70: "CONFIGURATION", 0x72: "MANUFACTURER_SPECIFIC", 0x80: "BATTERY", 0x85: "ASSOCIATION", 0x86: "VERSION", 0x87: "INDICATOR",
}
CUSTOM = 0x9A
CLASSES = st.one_of(st.sampled_from(sorted(KNOWN) + [0x60, 0x6C, 0x8E, 0x25, CUSTOM]), st.integers(0x01, 0xEE), st.just(0x00), st.just(0xF0))
SECTION = st.lists(CLASSES, max_size=5)
FIRST = mostly(
    SECTION,
    st.tuples(st.integers(0x01, 0xA0), st.sampled_from([17, 33, 64, 100, 200])).map(lambda t: [c for c in range(t[0], 0xEF)][: t[1]]), 24,
)


@st.composite
def strategy_(draw):
    items = list(draw(FIRST))
    for _ in range(draw(st.integers(0, 4))):
        items += draw(st.sampled_from([SECURITY_MARK, CONTROL_MARK]))
        items += draw(SECTION)
        if draw(st.integers(0, 3)) == 0 and items:
            items += [c for c in draw(st.permutations(items)) if c not in (0xEF, 0xF1)][:2]
    return {
        "classes": items,
        "how": draw(st.sampled_from(["node", "node", "node", "endpoint", "endpoint", "gateway", "gateway endpoint"])),
        "custom": draw(st.booleans()),
    }


def strategy():
    return strategy_()


def reading(items):
    """({class: {flags it was listed with}}, {controlled}) of a node information frame."""
    supported, controlled = {}, set()
    position = 0
    section, secure = "supported", False
    while position < len(items):
        if items[position : position + 2] == SECURITY_MARK:
            section, secure, position = "supported", True, position + 2
            continue
        if items[position : position + 1] == CONTROL_MARK:
            section, position = "controlled", position + 1
            continue
        if section == "supported":
            supported.setdefault(items[position], set()).add(secure)
        else:
            controlled.add(items[position])
        position += 1
    return supported, controlled


def through_gateway(items, endpoint):
    async def main(loop):
        if endpoint:
            sim = Sim(loop, [SimNode(5, b"\x60", endpoints=[(16, 1, bytes(items))])])
        else:
            # not asked for endpoints unless it has them
            sim = Sim(loop, [SimNode(5, bytes(items))])
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        app = Application(gateway, PersistantStorage())
        await app.startup()
        await asyncio.sleep(5)
        with observing("the nodes after startup"):
            return app.nodes["5:1" if endpoint else "5:0"]

    node, _ = vloop.run(main, settle=1)
    return node


def run(case, rec):
    items = case["classes"]
    known = dict(KNOWN)

    class Custom(CommandClass):
        NAME = "OF_THE_USER"

    if case["custom"]:
        ZWaveCommandClass(CUSTOM)(Custom)
        known[CUSTOM] = "OF_THE_USER"
    try:
        if case["how"] == "node":
            node = Node(5, None, list(items))
        elif case["how"] == "endpoint":
            node = NodeEndPoint(Node(5, None, [0x60]), 1, None, list(items))
        else:
            node = through_gateway(items, case["how"] == "gateway endpoint")
        check(case, node, items, known, rec)
        if case["custom"] and CUSTOM in node.supported:
            require(isinstance(node.supported[CUSTOM], Custom), "the class registered by the user is %r", node.supported[CUSTOM])
    finally:
        if case["custom"]:
            ZWaveCommandClass.pop(CUSTOM, None)
            ZWaveCommandClass.reverseMapping.pop(Custom, None)
            cmdClasses.pop(CUSTOM, None)


def check(case, node, items, known, rec):
    supported, controlled = reading(items)
    rec.label(case["how"])
    if controlled - set(supported):
        rec.label("only controlled")
    if any(True in flags for flags in supported.values()):
        rec.label("secure")
    rec.nontrivial(len(supported) > 0 and (controlled or any(True in f for f in supported.values())))
    with observing("what a node with %s supports" % bytes(items).hex()):
        same(sorted(node.supported), sorted(supported), "classes supported with %s", bytes(items).hex())
        for cmdClass in range(256):
            require(node.supports(cmdClass) is (cmdClass in supported), "supports(0x%02x) is %r with %s", cmdClass, node.supports(cmdClass), bytes(items).hex())
        same(bool(node.isZWavePlus), 0x5E in supported, "isZWavePlus with %s", bytes(items).hex())
        for cmdClass, flags in supported.items():
            obj = node.supported[cmdClass]
            what = "class 0x%02x of %s" % (cmdClass, bytes(items).hex())
            require(isinstance(obj, CommandClass), "%s is %r", what, obj)
            same(obj.id, cmdClass, "id of %s", what)
            if cmdClass in known:
                same(obj.name, known[cmdClass], "name of %s", what)
                require(type(obj) is ZWaveCommandClass.get(cmdClass), "%s is a %s", what, type(obj))
                rec.label("known class")
            else:
                rec.label("generic class")
                require(isinstance(obj.name, str), "name of %s is %r", what, obj.name)
            if len(flags) == 1:
                require(bool(obj.securityS0) is (flags == {True}), "security flag of %s is %r", what, obj.securityS0)
            require(obj.node is node, "%s belongs to %r", what, obj.node)
            same(obj.version, 0, "version of %s", what)
            require(obj.interviewed is False, "%s is interviewed", what)
        objects = list(node.supported.values())
        same(len({id(o) for o in objects}), len(objects), "distinct objects of %s", bytes(items).hex())
