"""Every received command reaches exactly the right node endpoint once."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import INNER, build, construct, differences, message_strategy, mostly
from lib.sim import CONTROLLERS, Sim, SimNode, node_address
from pyzwave.application import Application
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C08"
RULE = """A case is a network of nodes and endpoints and a history: commands of any type arriving on node
connections, on the gateway connection and on the unsolicited socket from nodes, the controller and strangers,
asking for acknowledgements or not, with and without header options, several in the same instant, between
changes of the node list that reuse addresses and lists without nodes.  What every listener got and every acknowledgement sent is compared
with what arrived.  Non-trivial: commands of at least two sources arrive, or one asks for an acknowledgement."""
ASSUMPTIONS = [
    "a packet asking for an acknowledgement on a node's own connection is not supported by the library",
    "nothing arrives while a new node list is still being processed",
]
QUICK = 220
THOROUGH = 8000
EIGHTH = 1 / 8

NODES = [2, 5, 6, 232]
EXCLUDED = ("NetworkManagementProxy.NodeListReport", "NetworkManagementInclusion.NodeAddStatus", "NetworkManagementInclusion.NodeRemoveStatus")
COMMANDS = st.one_of(
    message_strategy([n for n in INNER if n not in EXCLUDED]),
    message_strategy(["Basic.Report", "Basic.Set", "SwitchBinary.Report"]),
    st.builds(lambda a, b, c: {"raw": bytes([a, b]).hex() + c.hex()}, st.sampled_from([0x7A, 0xF0, 0x43]), st.integers(0, 255), st.binary(max_size=4)),
)
NETWORK = st.fixed_dictionaries({}, optional={str(n): st.tuples(mostly(st.integers(0, 3), st.sampled_from([9, 64, 127]), 10), st.integers(0, 2)).map(list) for n in NODES})
SOURCE = mostly(st.integers(0, 3), st.sampled_from([8, 9, 16, 64, 126, 127]), 6)

# where the sequence number of an operation is
SEQUENCE = {"unsolicited": 5, "own": 4, "gateway": 2}


@st.composite
def strategy_(draw):
    ops = []
    for _ in range(draw(st.integers(1, 9))):
        kind = draw(st.sampled_from(["unsolicited"] * 5 + ["own"] * 3 + ["gateway", "talk", "talk", "change", "again", "again", "short list"]))
        after = draw(st.sampled_from([0, 0, 0, 1, 3]))
        if kind == "unsolicited":
            ops.append(
                [
                    after, kind,
                    # whose address it comes from
                    draw(st.one_of(st.sampled_from(NODES), st.sampled_from(NODES), st.sampled_from(["controller", "gateway", "stranger"]))),
                    draw(SOURCE), draw(st.one_of(st.sampled_from([0, 0, 1, 127]), st.integers(0, 127))),
                    draw(st.integers(0, 255)), draw(st.booleans()), draw(st.sampled_from([None, None, [], [[0, 2, ""]], [[0, 4, "8001"], [0, 9, "aa"]]])), draw(COMMANDS),
                ]
            )
        elif kind == "own":
            ops.append([after, kind, draw(st.sampled_from(NODES)), draw(SOURCE), draw(st.integers(0, 255)), draw(COMMANDS)])
        elif kind == "gateway":
            ops.append([after, kind, draw(st.integers(0, 255)), draw(COMMANDS)])
        elif kind == "talk":
            ops.append([after, kind, draw(st.sampled_from(NODES))])
        elif kind == "short list":
            # a node list report that was cut off before the nodes
            ops.append([after, kind, draw(st.integers(0, 255)), draw(st.booleans()), draw(st.sampled_from(["", "01", "0100", "010001"]))])
        elif kind == "again":
            # the same command in the next packet
            traffic = [op for op in ops[-2:] if op[1] in SEQUENCE]
            if traffic:
                op = [after] + traffic[-1][1:]
                op[SEQUENCE[op[1]]] = (op[SEQUENCE[op[1]]] + draw(st.sampled_from([1, 1, 1, 2, 128, 255]))) % 256
                ops.append(op)
        else:
            ops.append([after, kind, draw(NETWORK), draw(st.booleans()), draw(st.booleans())])
    return {"network": draw(NETWORK.filter(bool)), "controller": draw(st.sampled_from(CONTROLLERS)), "batch": draw(st.booleans()), "ops": ops}


def strategy():
    return strategy_()


def command_bytes(command):
    return bytes.fromhex(command["raw"]) if "raw" in command else build(command["name"], command["fields"])


def sim_nodes(network):
    """nodeId: [endpoints, address generation] as simulated nodes; generation 2 swaps addresses around."""
    nodes = []
    for text, (endpoints, generation) in sorted(network.items()):
        nodeId = int(text)
        # with generation 1 a node has the address another one has with generation 0
        owner = NODES[(NODES.index(nodeId) + 1) % len(NODES)] if generation == 1 else nodeId
        nodes.append(
            SimNode(nodeId, b"\x60\x20", endpoints=[(16, 1, b"\x25")] * endpoints, address=node_address(owner, 1 if generation == 2 else 0))
        )
    addresses = [n.address for n in nodes]
    keep = [n for i, n in enumerate(nodes) if n.address not in addresses[:i]]
    return {n.nodeId: n for n in keep}


def flags_of(seq, options):
    """Second flags of a packet: more to come and secure origin are for others to care about."""
    return wire.CMD_INCLUDED | (0 if options is None else wire.HEADER_EXT) | (0 if seq & 1 else wire.SECURE) | (wire.MORE_INFO if seq & 2 else 0)


def check_message(message, command, what):
    with observing(what):
        if "raw" in command:
            same(message.hid(), int(command["raw"][:4], 16), "%s: command delivered", what)
            return
        found = differences(message, command["name"], command["fields"])
        require(not found, "%s: %s", what, "; ".join(found[:2]))


def run(case, rec):
    heard = []  # (listener, message) in order of delivery
    wanted = []  # (listener, command)
    acks = []  # (address, seq, source, dest)
    sources = set()
    optional = []

    class Hears:
        def __init__(self, key):
            self.key = key

        async def onMessage(self, _speaker, message):
            heard.append((self.key, message))

    class AppListener:
        async def messageReceived(self, _speaker, message):
            heard.append(("application", message))
            return True

        def nodeAdded(self, _speaker, node):
            node.addListener(Hears(node.nodeId))

    async def main(loop):
        sim = Sim(loop, sim_nodes(case["network"]).values(), controller=case.get("controller", 1))
        loop.batch = case.get("batch", False)
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        app = Application(gateway, PersistantStorage())
        app.addListener(AppListener())
        await app.startup()
        await asyncio.sleep(10)
        del sim.acks[:]
        previous = None
        for op in case["ops"]:
            # commands arrive in a known order only if they arrive on the same socket
            place = op[1] + (str(op[2]) if op[1] == "own" else "")
            if op[0] or place != previous:
                await asyncio.sleep(max(op[0] * EIGHTH, 1 / 1024))
            previous = place
            if op[1] == "unsolicited":
                _, _, sender, source, dest, seq, ask, options, command = op
                known = sender in sim.nodes
                address = {"controller": sim.controllerAddress, "gateway": sim.gateway, "stranger": "fd00:cccc::1"}.get(sender)
                if address is None:
                    address = sim.nodes[sender].address if known else node_address(sender, 7)
                data = wire.packet(
                    seq, command_bytes(command), source, dest, wire.ACK_REQUEST if ask else 0, flags_of(seq, options),
                    options=None if options is None else [(c, k, bytes.fromhex(d)) for c, k, d in options],
                )
                sim.unsolicited(0, address, data, port=4123 if seq % 2 else 40000 + seq)
                target = (address, 4123 if seq % 2 else 40000 + seq, 0, 0)
                if sender == "controller":
                    wanted.append(("application", command))
                elif known:
                    key = "%d:%d" % (sender, source)
                    if source <= len(sim.nodes[sender].endpoints):
                        wanted.append((key, command))
                    else:
                        rec.label("from an unknown endpoint")
                if ask and (known or sender == "controller"):
                    acks.append((target, seq, dest, source))
                    rec.nontrivial()
                elif ask:
                    optional.append((target, seq, dest, source))
                sources.add((sender, source))
                rec.label("unsolicited from " + ("a node" if known else "a stranger" if isinstance(sender, int) else sender))
            elif op[1] == "own":
                _, _, nodeId, source, seq, command = op
                if nodeId not in sim.nodes:
                    continue
                socket = sim.node_socket(nodeId)
                if socket is None:
                    require(await app.nodes["%d:0" % nodeId].send(construct("Basic.Get", {})) is True, "a node did not get a command")
                    socket = sim.node_socket(nodeId)
                sim.reply(socket, 0, wire.packet(seq, command_bytes(command), source, 0, 0, flags_of(seq, None)))
                if source <= len(sim.nodes[nodeId].endpoints):
                    wanted.append(("%d:%d" % (nodeId, source), command))
                sources.add((nodeId, source, "own"))
                rec.label("on a node connection")
            elif op[1] == "gateway":
                sim.reply(sim.gateway_socket(), 0, wire.packet(op[2], command_bytes(op[3]), flags1=flags_of(op[2], None)))
                wanted.append(("application", op[3]))
                sources.add("gateway connection")
                rec.label("on the gateway connection")
            elif op[1] == "talk":
                if op[2] in sim.nodes:
                    require(await app.nodes["%d:0" % op[2]].send(construct("Basic.Get", {})) is True, "a node did not get a command")
            elif op[1] == "short list":
                _, _, seq, ask, report = op
                sim.unsolicited(0, sim.controllerAddress, wire.packet(seq, b"\x52\x02" + bytes.fromhex(report), flags0=wire.ACK_REQUEST if ask else 0))
                if ask:
                    acks.append(((sim.controllerAddress, 4123, 0, 0), seq, 0, 0))
                rec.label("node list without nodes")
            else:
                # what was sent is handled first
                await asyncio.sleep(1)
                nodes = sim_nodes(op[2])
                for nodeId, node in nodes.items():
                    # nodes that stay keep their address and endpoints
                    if nodeId in sim.nodes:
                        nodes[nodeId] = sim.nodes[nodeId]
                taken = {}
                for nodeId in sorted(nodes, key=lambda n: (n not in sim.nodes, n)):
                    taken.setdefault(nodes[nodeId].address, nodeId)
                sim.nodes = {n: node for n, node in nodes.items() if taken[node.address] == n}
                pkt = wire.packet(9, sim.node_list(), flags0=wire.ACK_REQUEST if op[4] else 0)
                address = sim.controllerAddress if op[3] else sim.gateway
                if op[4]:
                    (acks if op[3] else optional).append(((address, 4123, 0, 0), 9, 0, 0))
                sim.unsolicited(0, address, pkt)
                await asyncio.sleep(10)
                require(
                    set(app.nodes) == {"%d:%d" % (n.nodeId, e) for n in sim.nodes.values() for e in range(len(n.endpoints) + 1)},
                    "the nodes are %s", sorted(app.nodes),
                )
                rec.label("node list changed")
        await asyncio.sleep(5)
        return sim

    sim, _ = vloop.run(main, settle=1)

    for key in sorted({k for k, _ in wanted} | {k for k, _ in heard}):
        mine = [m for k, m in heard if k == key]
        theirs = [c for k, c in wanted if k == key]
        same(len(mine), len(theirs), "number of commands delivered to %s (%s)", key, mine)
        for i, (message, command) in enumerate(zip(mine, theirs)):
            check_message(message, command, "command %d delivered to %s" % (i, key))
    # acknowledgements, in order of arrival
    sent = []
    for _, target, packet in sim.acks:
        require(packet.kind == "zip", "%s was sent from the unsolicited socket", packet)
        require(packet.flags0 == wire.ACK_RESPONSE and not packet.flags1 & wire.CMD_INCLUDED and not packet.command, "the acknowledgement is %s", packet)
        sent.append((tuple(target), packet.seq, packet.source, packet.dest))
    left = list(sent)
    for ack in acks:
        require(ack in left, "no acknowledgement (to, number, endpoints) %s among %s", ack, sent)
        left.remove(ack)
    for ack in left:
        require(ack in optional, "an acknowledgement %s nobody asked for", ack)
        optional.remove(ack)
    rec.label("acknowledged", len(acks))
    rec.nontrivial(len(sources) >= 2)


