"""Commands for a node are sent to that node's own address and endpoint."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import require, same
from lib.layout import build, composable_messages, construct
from lib.sim import CONTROLLERS, Sim, SimNode, hex16, node_address
from pyzwave.node import Node, NodeEndPoint
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C09"
RULE = """A case is a history of sends to endpoints of several nodes - concurrent, cancelled, unacknowledged - while
the gateway answers address requests late, never, repeatedly, negatively or for other nodes, and nodes are
removed and come back with another address.  Every transmission is compared with the addresses announced; the
outcome of every send with a model of what could be learned in time.  Non-trivial: sends to different nodes
overlap, or an address request is not simply answered."""
ASSUMPTIONS = [
    "a node's address changes only when it was removed in between",
    "an address that was announced before may be used without asking again",
]
QUICK = 250
THOROUGH = 8000
EIGHTH = 1 / 8
TICK = 1 / 1024

NODES = [2, 5, 6, 232]
# the answer to an address request: [eighths of a second, what]
ANSWER = st.lists(
    st.tuples(
        st.one_of(st.just(0), st.integers(0, 20), st.sampled_from([22, 23, 24, 25, 30])),
        st.sampled_from(["right", "right", "right", "not found", "other", "other not found", "nobody", "short"]),
    ).map(list),
    max_size=3,
)
PLAN = st.one_of(st.just([[0, "right"]]), st.just([[0, "right"]]), ANSWER)


@st.composite
def strategy_(draw):
    nodes = draw(st.lists(st.sampled_from(NODES), min_size=1, max_size=4, unique=True))
    ops = []
    listed = draw(st.booleans())
    for _ in range(draw(st.integers(1, 9))):
        # only a node that was in the list can be seen to go away
        kind = draw(st.sampled_from(["send"] * 7 + ["announce", "gateway"] + (["back", "torn"] if listed else ["send"])))
        after = draw(st.sampled_from([0, 0, 0, 0, 1, 8, 23, 24, 25]))
        if kind == "send":
            ops.append(
                [
                    after, kind, draw(st.sampled_from(nodes)), draw(st.sampled_from([0, 0, 1, 2, 127])),
                    draw(composable_messages()), draw(st.sampled_from(["node", "node", "gateway", "gateway"])),
                    draw(st.booleans()), draw(st.sampled_from([None] * 6 + [1, 9, 30])),
                ]
            )
        elif kind == "announce":
            ops.append([after, kind, draw(st.sampled_from(nodes)), draw(st.sampled_from(["right", "not found", "stranger", "nobody"]))])
        elif kind == "gateway":
            ops.append([after, kind])
        else:
            ops.append([after, kind, draw(st.sampled_from(nodes))])
    return {
        "controller": draw(st.sampled_from(CONTROLLERS)), "batch": draw(st.booleans()),
        "nodes": nodes,
        "listed": listed,
        "connect": draw(st.sampled_from([0, 0, 5, 30])),
        "unreachable": {str(n): draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2])) for n in nodes},
        "answers": {str(n): draw(st.lists(PLAN, min_size=1, max_size=3)) for n in nodes},
        "ops": ops,
    }


def strategy():
    return strategy_()


class Send:
    def __init__(self, node, endpoint, command, start, cancel, acked):
        self.node, self.endpoint, self.command, self.start = node, endpoint, command, start
        self.cancel = None if cancel is None else start + cancel * EIGHTH + TICK / 2
        self.acked = acked
        self.outcome = self.end = None


def run(case, rec):
    sends = []
    announced = []  # (time, node, address, valid)
    changes = {n: [] for n in case["nodes"]}  # times at which the node had gone away
    torn = {n: [] for n in case["nodes"]}  # times at which it went away while commands were on their way
    tick = [0]
    asked = {n: 0 for n in case["nodes"]}
    gatewayCommands = []
    errors = []

    def announce(sim, transport, delay, nodeId, kind):
        address = sim.address_of(nodeId)
        if address is None and kind == "right":
            # the node has gone away
            kind = "not found"
        address = address or node_address(nodeId)
        if kind in ("other", "other not found"):
            others = [n for n in sim.nodes if n != nodeId] or [99]
            nodeId = others[len(announced) % len(others)]
            address = sim.address_of(nodeId) or node_address(99, 3)
        elif kind in ("stranger", "nobody"):
            # no node at all, or one with a number that looks alike
            nodeId = 0 if kind == "nobody" else [n for n in (77, nodeId ^ 0x80, nodeId ^ 1, nodeId + 1 & 0xFF) if n not in case["nodes"]][tick[0] % 3 and -1]
            address = node_address(77)
        data = wire.advertisement(nodeId, hex16(address), validity=2 if kind == "other not found" else 0)
        if kind == "not found":
            data = wire.advertisement(nodeId, "00" * 16, validity=2)
        if kind == "short":
            data = data[:4]
        sim.reply(transport, delay, data)
        announced.append((sim.loop.now + delay, nodeId, address, kind in ("right", "other", "stranger", "nobody")))

    def script(sim, address, transport, packet):
        if address == sim.gateway:
            if packet.kind != "solicitation" or packet.node not in asked:
                return False
            require(packet.data == b"\x58\x04\x00" + bytes([packet.node]), "the address request is %s", packet.data.hex())
            plans = case["answers"][str(packet.node)]
            plan = plans[asked[packet.node] % len(plans)]
            asked[packet.node] += 1
            for after, kind in plan:
                tick[0] += 1
                announce(sim, transport, after * EIGHTH + tick[0] * TICK, packet.node, kind)
                rec.label("announced " + kind)
            rec.nontrivial(plan != [[0, "right"]])
            return True
        if packet.kind == "zip":
            for send in sends:
                if send.command == packet.command and not send.acked:
                    return True
        return False

    async def one(loop, send, coro):
        task = asyncio.ensure_future(coro)
        if send.cancel is not None:
            loop.call_at(1000.0 + send.cancel, task.cancel)
        try:
            send.outcome = await task
        except asyncio.TimeoutError:
            send.outcome = "timeout"
        except asyncio.CancelledError:
            send.outcome = "cancelled"
        except OSError:
            send.outcome = "unreachable"
        except Exception as error:  # pylint: disable=broad-except
            # reported below
            send.outcome = error
            errors.append(error)
        send.end = loop.now

    async def main(loop):
        sim = Sim(loop, [SimNode(n) for n in case["nodes"]] if case["listed"] else [], controller=case.get("controller", 1))
        loop.batch = case.get("batch", False)
        gateway = ZIPGateway(sim.gateway, b"psk")
        if case["listed"]:
            # what is learned while connecting is an announcement like any other
            for n in case["nodes"]:
                announced.append((0, n, sim.address_of(n), True))
        await gateway.connect()
        await asyncio.sleep(2)
        if not case["listed"]:
            sim.nodes = {n: SimNode(n) for n in case["nodes"]}
        addresses = {n: [sim.nodes[n].address] for n in case["nodes"]}
        loop.connect_delay = case["connect"] * TICK
        loop.unreachable = {sim.nodes[int(n)].address: count for n, count in case.get("unreachable", {}).items()}
        sim.script = script
        before = len(sim.received)
        tasks = []
        await asyncio.sleep(-loop.now % 1)
        for op in case["ops"]:
            await asyncio.sleep(op[0] * EIGHTH)
            if op[1] == "send":
                _, _, nodeId, endpoint, message, via, acked, cancel = op
                # every command can be told from the others
                index = len(sends)
                command = build(message["name"], message["fields"])
                if command == b"\x87\x02" or any(s.command == command for s in sends):
                    message = {"name": "Indicator.Set", "fields": {"value": index}}
                    command = build(message["name"], message["fields"])
                    if any(s.command == command for s in sends):
                        continue
                send = Send(nodeId, endpoint, command, loop.now, cancel, acked)
                sends.append(send)
                built = construct(message["name"], message["fields"])
                if via == "gateway":
                    coro = gateway.sendToNode(nodeId, built, destEP=endpoint)
                else:
                    node = Node(nodeId, gateway, [])
                    coro = (NodeEndPoint(node, endpoint, gateway, []) if endpoint else node).send(built)
                tasks.append(asyncio.ensure_future(one(loop, send, coro)))
                for _ in range(12):
                    await asyncio.sleep(0)
            elif op[1] == "announce":
                tick[0] += 1
                announce(sim, sim.gateway_socket(), tick[0] * TICK, op[2], op[3])
                rec.label("announced unasked " + op[3])
            elif op[1] == "gateway":
                gatewayCommands.append(build("Indicator.Get", {}))
                tasks.append(asyncio.ensure_future(gateway.send(construct("Indicator.Get", {}))))
            else:
                # the node leaves, maybe while commands are on their way, and comes back with another address
                if op[1] == "back":
                    await asyncio.sleep(40)
                    await asyncio.sleep(-loop.now % 1)
                    sim.script = None
                else:
                    await asyncio.sleep(3 * TICK / 4)
                    torn[op[2]].append(loop.now)
                    rec.label("left while commands were on their way", sum(1 for s in sends if s.node == op[2] and s.end is None))
                node = sim.nodes.pop(op[2])
                sim.unsolicited(0, sim.gateway, wire.packet(1, sim.node_list()))
                await asyncio.sleep(4 if op[1] == "back" else 40)
                await asyncio.sleep(-loop.now % 1)
                sim.script = None
                changes[op[2]].append(loop.now)
                node.address = node_address(op[2], len(addresses[op[2]]))
                addresses[op[2]].append(node.address)
                sim.nodes[op[2]] = node
                sim.unsolicited(0, sim.gateway, wire.packet(1, sim.node_list()))
                await asyncio.sleep(8)
                await asyncio.sleep(-loop.now % 1)
                for n in case["nodes"]:
                    # all of them may have been asked for
                    announced.append((loop.now, n, sim.address_of(n), True))
                sim.script = script
                rec.label("node came back")
        await asyncio.gather(*tasks)
        await asyncio.sleep(30)
        return sim, addresses, before

    (sim, addresses, before), loop = vloop.run(main, settle=1)
    require(not errors, "a send raised %r", errors[:1])
    wires = [r for r in sim.received[before:] if r[2].kind == "zip"]
    same(
        sorted(p.command for _, a, p in wires if a == sim.gateway),
        sorted(gatewayCommands),
        "commands sent to the gateway itself",
    )
    owner = {address: n for n, known in addresses.items() for address in known}
    for when, address, packet in wires:
        if address == sim.gateway:
            continue
        require(address in owner, "a command was sent to %s, which no node has", address)
    model(case, rec, sends, announced, changes, torn, wires, addresses, loop.attempts)
    for address, nodeId in owner.items():
        opened = [t for t in loop.transports if t.remote and t.remote[0] == address]
        require(len(opened) <= 1 or torn[nodeId], "%d connections were opened to node %d at %s", len(opened), nodeId, address)


def model(case, rec, sends, announced, changes, torn, wires, addresses, attempts):
    for i, a in enumerate(sends):
        if any(b.node != a.node and b.start <= a.end for b in sends[i + 1 :]):
            rec.label("sends to different nodes overlap")
            rec.nontrivial()
    for nodeId in case["nodes"]:
        free = 0
        connected = None
        generation = 0
        unsure = False
        # connecting failed: only what was sent afterwards, once nothing is under way, is certain again
        failed = [when for when, a, worked in attempts if a == addresses[nodeId][0] and not worked]
        failing = max(failed, default=-1)
        if failed:
            rec.label("could not be connected to")
        mineAll = [s for s in sends if s.node == nodeId]
        for send in mineAll:
            gone = [t for t in changes[nodeId] if t <= send.start]
            if len(gone) > generation:
                generation, connected, unsure = len(gone), None, False
            address = addresses[nodeId][generation]
            if generation == 0 and failed:
                if send.start <= failing:
                    unsure = True
                elif unsure and all(s.end is not None and s.end < send.start for s in mineAll[: mineAll.index(send)]):
                    connected = max((when for when, a, worked in attempts if a == address and worked and when < send.start), default=None)
                    unsure, free = False, 0
                    rec.label("connected after it failed")
            what = "the send of %s to endpoint %d of node %d at %s" % (send.command.hex(), send.endpoint, nodeId, send.start)
            start = max(send.start, free)
            lenient = any(n == nodeId and valid and a == address and when <= start for when, n, a, valid in announced)
            over = None
            if connected is not None:
                leaves = max(start, connected)
            else:
                heard = sorted(when for when, n, a, valid in announced if n == nodeId and valid and start < when < start + 3)
                if heard:
                    leaves = connected = heard[0] + case["connect"] * TICK
                    free = connected
                else:
                    leaves, over = None, start + 3
                    free = over
            mine = [(when, a, p) for when, a, p in wires if p.command == send.command and when >= send.start]
            for when, a, p in mine:
                same(a, address, "address %s went to", what)
                same((p.source, p.dest), (0, send.endpoint), "endpoints of %s", what)
            if any(send.start <= t and (send.end is None or send.end >= t) for t in torn[nodeId]):
                # whether it still leaves for the node that goes away is open
                require(len(mine) <= 1, "%s left %d times", what, len(mine))
                unsure = True
                continue
            if unsure or (send.cancel is not None and send.cancel < (leaves if leaves is not None else over)):
                # who asks for the address, and when, is open from here on
                unsure = True
                require(len(mine) <= 1, "%s left %d times", what, len(mine))
                if send.outcome in (True, False):
                    same(len(mine), 1, "transmissions of %s (outcome %r)", what, send.outcome)
                    if not send.acked:
                        same(send.outcome, False, "outcome of %s", what)
                elif send.outcome in ("timeout", "unreachable"):
                    require(not mine, "%s timed out but left", what)
                    require(send.outcome == "timeout" or send.start <= failing, "%s could not be sent", what)
                else:
                    require(send.cancel is not None, "%s was cancelled by itself", what)
                    require(not mine or mine[0][0] < send.cancel, "%s left after it was cancelled", what)
                rec.label("cancelled early, or after one that was")
                continue
            require(send.outcome != "unreachable", "%s could not be sent", what)
            if leaves is None:
                if lenient and send.outcome != "timeout":
                    same(len(mine), 1, "transmissions of %s", what)
                    connected = start
                    free = start
                    continue
                same(send.outcome, "timeout", "outcome of %s, the address could not be learned", what)
                require(not mine, "%s timed out but left", what)
                rec.label("address not learned")
                continue
            same(len(mine), 1, "transmissions of %s (outcome %r)", what, send.outcome)
            if send.outcome != "cancelled":
                require(send.outcome is send.acked, "%s gave %r", what, send.outcome)
            rec.label("sent")
