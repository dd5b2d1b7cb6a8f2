"""The application tracks the gateway's node list and announces every change."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import edge_ints, mostly
from lib.sim import CONTROLLERS, Sim, SimNode, node_address
from pyzwave.application import Application
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C10"
RULE = """A case is a gateway with a network and a history of node list reports on the unsolicited socket, starting
while the application is still starting: nodes appear, disappear and come back with other classes and endpoints, at
any pace, so that reports overlap with each other and with nodes still being loaded; node information may be slow or
never come and address lookups may fail.  Every announcement and the final node table are compared with what the
gateway reported.  Non-trivial: the node list changes at least twice."""
ASSUMPTIONS = [
    "no report arrives before startup() has been called",
    "answers that come too late are left out (known finding of C21)",
]
QUICK = 170
THOROUGH = 9000
EIGHTH = 1 / 8

POOL = [2, 3, 5, 6, 8, 232]
CLASSES = st.sampled_from(["", "60", "2560", "5e6086", "60ef20", "25ef60", "5e85ef2660", "f1006020", "2560f100ef"])
KIND = st.fixed_dictionaries(
    {
        "classes": CLASSES,
        "device": st.tuples(edge_ints(0, 255), edge_ints(0, 255), edge_ints(0, 255), st.integers(0, 1)).map(list),
        "individual": mostly(
            st.lists(st.tuples(edge_ints(0, 255), edge_ints(0, 255), st.sampled_from(["", "25", "6020"])).map(list), max_size=2),
            st.sampled_from([4, 4, 9, 9, 33, 126]).map(lambda n: [[16, 1, "25"]] * n), 48,
        ),
        "aggregated": st.lists(st.tuples(edge_ints(0, 255), edge_ints(0, 255), st.just("26")).map(list), max_size=1),
    }
)
NETWORK = mostly(
    st.lists(st.sampled_from(POOL), max_size=4, unique=True).map(sorted),
    st.tuples(st.integers(2, 12), st.sampled_from([9, 29, 30, 64])).map(lambda t: list(range(t[0], t[0] + t[1]))), 24,
)


@st.composite
def strategy_(draw):
    steps = []
    start = draw(NETWORK)
    history = [start]
    for _ in range(draw(st.integers(1, 6))):
        # one of an earlier time again, so that nodes come back
        network = draw(st.one_of(NETWORK, NETWORK, st.sampled_from(history)))
        history.append(network)
        steps.append([draw(st.sampled_from([0, 0, 1, 3, 8, 20, 200])), network, draw(st.booleans())])
    count = len(steps) + 1
    controller = draw(st.sampled_from(CONTROLLERS))
    return {
        "controller": controller,
        "batch": draw(st.booleans()),
        "start": [n for n in start if n != controller],
        "steps": [[gap, [n for n in network if n != controller], ask] for gap, network, ask in steps],
        # what a node is, by its life
        "kinds": {str(n): draw(st.lists(KIND, min_size=2, max_size=3)) for n in draw(st.just(POOL))},
        # requests for the node list that are not answered
        "no list": draw(st.sampled_from([0, 0, 0, 0, 1, 2])),
        "latency": draw(st.sampled_from([1, 1, 64, 300, 900])),
        "mute": draw(st.lists(st.sampled_from(POOL), max_size=1)),
        "lost": draw(st.lists(st.tuples(st.sampled_from(POOL), st.integers(0, count)).map(list), max_size=2)),
        "slow listener": draw(st.booleans()),
        "failed": draw(st.booleans()),
    }


def strategy():
    return strategy_()


def supports_endpoints(classes):
    supported = True
    classes = list(bytes.fromhex(classes))
    while classes:
        cls = classes.pop(0)
        if cls == 0xEF:
            supported = False
        elif cls == 0xF1 and classes[:1] == [0]:
            classes.pop(0)
            supported = True
        elif cls == 0x60 and supported:
            return True
    return False


def run(case, rec):
    step = [0]
    removed_at = {}  # node id: step in which its removal was announced last
    log = []  # ("added", node) ("removed", id) ("batch added", [nodes]) ("batch removed", [ids])

    class Hears:
        def nodeAdded(self, _speaker, node):
            log.append(("added", node))

        def nodeRemoved(self, _speaker, nodeId):
            log.append(("removed", nodeId))
            removed_at[nodeId] = step[0]

        def nodesAdded(self, _speaker, nodes):
            log.append(("batch added", list(nodes)))

        def nodesRemoved(self, _speaker, nodes):
            log.append(("batch removed", list(nodes)))

    class Slow:
        async def nodeAdded(self, _speaker, _node):
            await asyncio.sleep(2)

        async def nodeRemoved(self, _speaker, _node):
            await asyncio.sleep(1)

    lists = []

    async def main(loop):
        lives = {}

        def make(nodeId):
            kinds = case["kinds"].get(str(nodeId), [{"classes": "60" * (nodeId % 4 == 0), "device": [4, 16, 1, 0], "individual": [[16, 1, "25"]], "aggregated": []}])
            kind = kinds[lives.get(nodeId, 0) % len(kinds)]
            lives[nodeId] = lives.get(nodeId, 0) + 1
            basic, generic, specific, listening = kind["device"]
            return SimNode(
                nodeId, bytes.fromhex(kind["classes"]), basic, generic, specific, listening,
                [(g, s, bytes.fromhex(c)) for g, s, c in kind["individual"]], [(g, s, bytes.fromhex(c)) for g, s, c in kind["aggregated"]],
                address=node_address(nodeId, lives[nodeId]),
            )

        sim = Sim(loop, [make(n) for n in case["start"]], latency=case["latency"] / 1024, controller=case.get("controller", 1))
        loop.batch = case.get("batch", False)
        told = {}  # node id: the node as it was last reported
        unanswered = [case.get("no list", 0)]

        def script(_sim, address, transport, packet):
            if address != sim.gateway:
                return False
            if packet.kind == "solicitation":
                return any(n == packet.node and s == step[0] for n, s in case["lost"])
            if packet.kind == "zip" and not packet.is_ack and packet.command:
                code, args = packet.command[:2], packet.command[2:]
                if code == b"\x52\x01" and unanswered[0]:
                    unanswered[0] -= 1
                    sim.reply(transport, sim.latency, wire.ack(packet.seq))
                    return True
                if code == b"\x52\x03":
                    nodeId = args[-1]
                    told[nodeId] = {"node": sim.nodes.get(nodeId), "endpoints": {}, "count": None, "step": step[0]}
                    if nodeId in case["mute"]:
                        told[nodeId]["node"] = None
                        sim.reply(transport, sim.latency, wire.ack(packet.seq))
                        return True
                elif code == b"\x52\x05" and args[1] in told:
                    node = sim.nodes.get(args[1])
                    told[args[1]]["count"] = len(node.endpoints) + len(node.aggregated) if node else None
                elif code == b"\x52\x07" and args[1] in told:
                    node = sim.nodes.get(args[1])
                    known = node.endpoints + node.aggregated if node else []
                    told[args[1]]["endpoints"][args[2]] = known[args[2] - 1] if args[2] <= len(known) else None
            return False

        sim.script = script
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        if case["failed"]:
            sim.failed = case["start"]
        app = Application(gateway, PersistantStorage())
        app.addListener(Hears())
        if case["slow listener"]:
            app.addListener(Slow())
        # a second request for the list is made by startup()
        lists.append(set() if case.get("no list", 0) > 1 else set(case["start"]))
        starting = asyncio.ensure_future(app.startup())
        await asyncio.sleep(0)
        if case.get("no list", 0) == 1:
            # The answer does not say which list is the older one if a report overtakes it
            await asyncio.sleep(3 * sim.latency)
        for at, (gap, nodes, ask) in enumerate(case["steps"]):
            await asyncio.sleep(gap * EIGHTH + 1 / 4096)
            step[0] = at + 1
            sim.nodes = {n: sim.nodes[n] if n in sim.nodes else make(n) for n in nodes}
            lists.append(set(nodes))
            sim.unsolicited(0, sim.gateway, wire.packet(at + 1, sim.node_list(), flags0=wire.ACK_REQUEST if ask else 0))
            if not starting.done():
                rec.label("report during startup")
        # until nothing happens any more
        def activity():
            return sum(1 for _, _, p in sim.received if p.kind == "zip" and p.command) + len(log)

        for _ in range(100):
            before = activity()
            await asyncio.sleep(600)
            if before == activity():
                break
        require(starting.done(), "startup does not end")
        starting.result()
        rec.nontrivial(sum(a != b for a, b in zip(lists, lists[1:])) >= 2)

        with observing("the node table"):
            nodes = app.nodes
            wanted = set()
            for nodeId in lists[-1]:
                what = told.get(nodeId)
                require(what is not None, "node %d was never asked about", nodeId)
                node = what["node"]
                left = removed_at.get("%d:0" % nodeId)
                if left is not None:
                    absent = max(i for i in range(left + 1) if nodeId not in lists[i])
                    require(what["step"] >= absent, "node %d came back, what it is now was never asked", nodeId)
                    rec.label("nodes come back")
                wanted.add("%d:0" % nodeId)
                if node is not None and supports_endpoints(node.cmdClasses.hex()):
                    wanted.update("%d:%d" % (nodeId, e + 1) for e in range(what["count"] or 0))
            same(set(nodes), wanted, "nodes in the end")
            for nodeId, node in nodes.items():
                root, endpoint = (int(x) for x in nodeId.split(":"))
                same(node.nodeId, nodeId, "node id of node %s", nodeId)
                same((node.rootNodeId, node.endpoint), (root, endpoint), "root node and endpoint of %s", nodeId)
                source = told[root]["node"]
                if source is None:
                    rec.label("node information never came")
                    continue
                same(bool(node.listening), bool(source.listening), "listening state of %s", nodeId)
                same(int(node.basicDeviceClass), source.basic, "basic device class of %s", nodeId)
                if endpoint == 0:
                    generic, specific, classes = source.generic, source.specific, source.cmdClasses
                elif told[root]["endpoints"].get(endpoint):
                    generic, specific, classes = told[root]["endpoints"][endpoint]
                    parent = nodes["%d:0" % root]
                    require(node.parent is parent, "the parent of %s is another object", nodeId)
                    for flag in ("flirs", "isFailed"):
                        for value in (True, False):
                            setattr(parent, flag, value)
                            same(bool(getattr(node, flag)), value, "%s of %s when its node has it %s", flag, nodeId, value)
                    rec.label("endpoints")
                else:
                    continue
                same((int(node.genericDeviceClass), int(node.specificDeviceClass)), (generic, specific), "device classes of %s", nodeId)
                if b"\xef" not in classes and b"\xf1" not in classes:
                    same(sorted(int(c) for c in node.supported), sorted(set(classes)), "command classes of %s", nodeId)

        with observing("the announcements"):
            present = {}
            adds, removes = {}, {}
            added_batches, removed_batches = [], []
            for kind, what in log:
                if kind == "added":
                    require(what.nodeId not in present, "%s was announced as added twice", what.nodeId)
                    present[what.nodeId] = what
                    adds[what.nodeId] = adds.get(what.nodeId, 0) + 1
                elif kind == "removed":
                    require(what in present, "%s was announced as removed but was not there", what)
                    del present[what]
                    removes[what] = removes.get(what, 0) + 1
                elif kind == "batch added":
                    added_batches.extend(what)
                else:
                    removed_batches.extend(what)
            same(sorted(present), sorted(nodes), "nodes announced and not removed again")
            for nodeId, node in present.items():
                require(nodes[nodeId] is node, "node %s is not the one that was announced", nodeId)
            same([id(n) for n in added_batches], [id(w) for k, w in log if k == "added"], "nodes in the batches announced")
            same(sorted(removed_batches), sorted(w for k, w in log if k == "removed"), "nodes in the removed batches")
            # nothing is removed or added more often than the gateway's list changed
            for nodeId in set(adds) | set(removes):
                root = int(nodeId.split(":")[0])
                runs = [root in nodes_ for nodes_ in lists]
                gone = sum(1 for i, there in enumerate(runs) if not there and i > 0 and runs[i - 1])
                came = sum(1 for i, there in enumerate(runs) if there and (i == 0 or not runs[i - 1]))
                require(removes.get(nodeId, 0) <= gone, "%s was announced as removed %d times, it left the list %d times", nodeId, removes.get(nodeId, 0), gone)
                require(adds.get(nodeId, 0) <= came, "%s was announced as added %d times, it entered the list %d times", nodeId, adds.get(nodeId, 0), came)
            rec.label("added", sum(adds.values()))
            rec.label("removed", sum(removes.values()))
            if case["lost"]:
                rec.label("address lookups fail")

    vloop.run(main)
