"""Stored node settings survive a restart unchanged."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import contextlib
import pathlib
import shutil
import tempfile

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import observing, require, same
from lib.device import Device, DeviceAdapter
from lib.layout import build, edge_ints, mostly
from lib.states import AGI, ASSOCIATION, BASIC, BATTERY, CONFIGURATION, MANUFACTURER, MULTI_CHANNEL, MULTI_CHANNEL_ASSOCIATION, SENSOR, VERSION, ZWAVEPLUS
from pyzwave.application import Application
from pyzwave.persistantstorage import YamlStorage

PROPERTY = "C14"
RULE = """A case is a network of nodes and endpoints that know things about themselves, and several lives of an
application on one storage directory: in each life nodes are interviewed (some of their answers missing), change, send
reports and leave and come back, inside and outside storage locks, and between two lives a node may lose or gain command
classes.  What the command classes of every node report after a restart is compared with what they reported before it,
and the files below and beside the storage path are listed.  Non-trivial: something that was learned is restored."""
ASSUMPTIONS = [
    "updates happen after a node was announced as added, and no lock is held and no interview runs at a restart",
    "what a command class knew that a node lost and gained again later is not claimed",
]
QUICK = 90
THOROUGH = 5000

CLASSES = states.STATEFUL + [MULTI_CHANNEL_ASSOCIATION, BASIC, BATTERY, 0x25, 0xC3]
NODES = [2, 3, 11, 23, 232]
MUTE = [0x8613, 0x8611, 0x7204, 0x5E01, 0x3101, 0x3103, 0x8505, 0x8502, 0x8E02, 0x5903, 0x5901, 0x5905]


def learned(cmdClass):
    if cmdClass == SENSOR:
        body = mostly(st.dictionaries(edge_ints(1, 255).map(str), st.integers(0, 15), max_size=4), states.many(SENSOR), 24)
    elif cmdClass == ASSOCIATION:
        body = st.dictionaries(st.integers(1, 4).map(str), st.tuples(st.integers(0, 255), states.MEMBERS).map(list), max_size=3)
        body = mostly(body, states.many(ASSOCIATION), 24)
    else:
        # group information is saved with each report: many groups would take minutes
        body = states.few(cmdClass) if cmdClass == AGI else states.content(cmdClass)
    version = st.sampled_from([5, 7, 11]) if cmdClass == SENSOR else st.integers(1, 255)
    return st.fixed_dictionaries({"version": version, "content": body})


def class_list(draw, endpoints):
    classes = draw(st.lists(st.sampled_from(CLASSES), min_size=1, max_size=5, unique=True))
    return ([MULTI_CHANNEL] if endpoints else []) + classes


def operation(keys):
    key = st.sampled_from(keys)
    return st.one_of(
        st.tuples(st.just("interview"), key).map(list),
        st.tuples(st.just("interview"), key).map(list),
        st.tuples(st.just("interview class"), key, st.integers(0, 5)).map(list),
        st.tuples(st.just("parameter"), key, st.sampled_from([1, 2, 200, 255]), st.sampled_from([1, 2, 4]), edge_ints(0, 255)).map(list),
        st.tuples(st.just("parameters"), key, st.integers(0, 255), st.sampled_from([3, 17, 33, 65, 101])).map(list),
        st.tuples(st.just("group"), key, st.integers(1, 3), edge_ints(0, 0xFFFF)).map(list),
        st.tuples(st.just("name"), key, st.integers(1, 3), states.NAMES).map(list),
        st.tuples(st.just("rejoin"), st.sampled_from(keys)).map(list),
        st.sampled_from(CLASSES).flatmap(lambda c: st.tuples(st.just("change"), key, st.just(c), learned(c))).map(list),
    )


@st.composite
def strategy_(draw):
    keys = []
    many = draw(st.integers(0, 11)) == 0
    if many:
        # many endpoints: only a few of them know something
        first, second, count = draw(st.sampled_from([(3, 31, 10), (2, 22, 20), (2, 3, 10), (2, 3, 16), (2, 3, 100)]))
        keys = ["%d:%d" % (first, e) for e in range(count + 1)] + ["%d:0" % second]
        busy = ["%d:%d" % (first, count), "%d:0" % second, "%d:1" % first]
    for nodeId in [] if many else draw(st.lists(st.sampled_from(NODES), min_size=1, max_size=2, unique=True)):
        keys += ["%d:%d" % (nodeId, e) for e in range(draw(st.sampled_from([0, 0, 1, 2])) + 1)]
    nodes = {}
    shared = draw(st.sampled_from(CLASSES))
    for key in keys:
        nodeId, endpoint = key.split(":")
        if many:
            classes = ([MULTI_CHANNEL] if endpoint == "0" and nodeId + ":1" in keys else []) + ([shared] if key in busy else [])
            nodes[key] = {"classes": classes, "learned": {str(c): draw(learned(c)) for c in classes}}
            continue
        classes = class_list(draw, endpoint == "0" and nodeId + ":1" in keys)
        nodes[key] = {"classes": classes, "learned": {str(c): draw(learned(c)) for c in classes}}
    if many:
        keys = busy
    lives = []
    for number in range(draw(st.integers(2, 3))):
        ops = []
        for _ in range(draw(st.integers(1, 4)) if number < 2 else 1):
            if draw(st.integers(0, 4)) == 0:
                ops.append(["lock", draw(st.sampled_from(keys)), draw(st.lists(operation(keys), max_size=3)), draw(st.booleans())])
            else:
                ops.append(draw(operation(keys)))
        lives.append(
            {
                "ops": ops,
                "mute": draw(st.lists(st.sampled_from(MUTE), max_size=2, unique=True)),
                "without": draw(st.lists(st.sampled_from(CLASSES), max_size=1)) if number else [],
            }
        )
    return {"nodes": nodes, "lives": lives, "path": draw(st.sampled_from(["settings", "a/b/settings", "pathlib", "set later", "exists"])), "per report": draw(st.integers(1, 3))}


def strategy():
    return strategy_()


def snapshot(node):
    """{command class: (type, version, interviewed, content)}"""
    out = {}
    for cmdClass, obj in node.supported.items():
        states.check_types(cmdClass, obj, "%s of %s" % (obj.name, node.nodeId))
        out[int(cmdClass)] = [type(obj).__name__, int(obj.version), obj.interviewed, states.read(cmdClass, obj)]
    return out


EMPTY = [0, False]


async def live(life, nodes, storage, before, rec, index):
    """One life of an application; returns what is known at its end."""
    devices = {}
    for key, what in nodes.items():
        nodeId, endpoint = (int(x) for x in key.split(":"))
        classes = [c for c in what["classes"] if c not in life["without"] or c == MULTI_CHANNEL]
        devices[(nodeId, endpoint)] = Device(classes, what["learned"])
    adapter = DeviceAdapter(devices)
    adapter.script = lambda _n, _e, data, _a: {"ack": True, "delay": 0.01, "replies": []} if data[0] << 8 | data[1] in life["mute"] else None
    app = Application(adapter, storage)
    await app.startup()
    known = {}

    def compare(node, expected, when):
        with observing("what is known about %s %s" % (node.nodeId, when)):
            now = snapshot(node)
            for cmdClass, (kind, version, interviewed, content) in now.items():
                if expected is None:
                    same([version, interviewed, content], EMPTY + [states.wanted(cmdClass, {})], "%s of %s, nothing stored" % (kind, node.nodeId))
                elif cmdClass in expected and expected[cmdClass] is not None:
                    same([kind, version, interviewed, content], expected[cmdClass], "%s of %s %s" % (kind, node.nodeId, when))
                    if version or content:
                        rec.nontrivial()
                        rec.label("restored %s" % kind)
            return now

    def known_now(node):
        """Also what another life has stored for classes this life does not have: not claimed."""
        now = {c: v for c, v in snapshot(node).items()}
        for cmdClass in before.get(node.nodeId) or {}:
            now.setdefault(cmdClass, None)
        return now

    with observing("nodes after startup"):
        same(sorted(app.nodes), sorted(nodes), "nodes after startup")
    for key in nodes:
        compare(app.nodes[key], before.get(key) if key in before else None, "after restart %d" % index)

    async def perform(op):
        kind, key = op[0], op[1]
        nodeId, endpoint = (int(x) for x in key.split(":"))
        node = app.nodes[key]
        device = devices[(nodeId, endpoint)]
        if kind == "interview":
            await node.interview()
        elif kind == "interview class":
            classes = list(node.supported.values())
            if classes:
                with contextlib.suppress(asyncio.TimeoutError):
                    await classes[op[2] % len(classes)].interview()
        elif kind == "parameter":
            adapter.arrived(nodeId, endpoint, build("Configuration.Report", {"parameterNumber": op[2], "-1": 0, "value": [op[3], op[4]]}))
        elif kind == "parameters":
            # many in one go, saved once
            with node.storageLock():
                for i in range(op[3]):
                    number, size = (op[2] + i) & 0xFF, (1, 2, 4)[i % 3]
                    value = (op[2] * 259 + i * 77) % (1 << 8 * size)
                    adapter.arrived(nodeId, endpoint, build("Configuration.Report", {"parameterNumber": number, "-1": 0, "value": [size, value]}))
                await asyncio.sleep(1)
        elif kind == "group":
            adapter.arrived(nodeId, endpoint, build("AssociationGrpInfo.GroupInfoReport", {"listMode": 0, "dynamicInfo": 0, "groups": [[op[2], 0, op[3], 0, 0]]}))
        elif kind == "name":
            adapter.arrived(nodeId, endpoint, build("AssociationGrpInfo.GroupNameReport", {"groupingIdentifier": op[2], "name": op[3]}))
        elif kind == "change":
            device.learned[op[2]] = {"version": op[3]["version"], "content": dict(op[3]["content"])}
            nodes[key]["learned"][str(op[2])] = device.learned[op[2]]
        elif kind == "rejoin":
            kept = {k: snapshot(app.nodes[k]) for k in nodes if k.startswith("%d:" % nodeId)}
            gone = {k: devices[k] for k in devices if k[0] == nodeId}
            for k in gone:
                del adapter.devices[k]
            await app.nodeListUpdated(adapter)
            require(not any(k in app.nodes for k in kept), "node %d left but is still there", nodeId)
            adapter.devices.update(gone)
            await app.nodeListUpdated(adapter)
            for k, expected in kept.items():
                require(k in app.nodes, "node %s came back but is not there", k)
                compare(app.nodes[k], expected, "after it left and came back")
            rec.label("left and came back")
        await asyncio.sleep(3)

    for op in life["ops"]:
        if op[0] == "lock":
            try:
                with app.nodes[op[1]].storageLock():
                    for inner in op[2]:
                        if inner[0] != "rejoin":
                            await perform(inner)
                    if op[3]:
                        raise KeyError("from inside the lock")
            except KeyError:
                pass
            rec.label("lock")
        else:
            await perform(op)
    await asyncio.sleep(30)
    for key in nodes:
        with observing("what is known about %s" % key):
            known[key] = known_now(app.nodes[key])
    return known


def run(case, rec):
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="verif-c14-"))
    try:
        sub = {"a/b/settings": "a/b/settings"}.get(case["path"], "settings")
        path = scratch / "home" / sub
        (scratch / "home").mkdir()
        (scratch / "elsewhere").mkdir()
        if case["path"] == "exists":
            path.mkdir(parents=True)
        nodes = {k: {"classes": v["classes"], "learned": dict(v["learned"])} for k, v in case["nodes"].items()}
        known = {}
        for index, life in enumerate(case["lives"]):
            if case["path"] == "set later":
                storage = YamlStorage(str(scratch / "elsewhere"))
                storage.path = str(path)
            else:
                storage = YamlStorage(path if case["path"] == "pathlib" else str(path))
            known = vloop.run(lambda _loop: live(life, nodes, storage, known, rec, index))[0]  # pylint: disable=cell-var-from-loop
        outside = [str(p.relative_to(scratch)) for p in scratch.rglob("*") if p.is_file() and path not in p.parents]
        require(not outside, "files were written outside the storage path: %s", outside)
    finally:
        shutil.rmtree(scratch)
