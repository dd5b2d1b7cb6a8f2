"""A send reports success exactly when its own packet was acknowledged."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import ipaddress

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import build, construct, composable_messages
from lib.wire import Packet
from pyzwave.node import Node
from pyzwave.zipconnection import ZIPConnection
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C05"
RULE = """A case is a history of sends (some overlapping, on two connections, some cancelled, some in bursts
that take the sequence number around, also while many others wait) and for each the answers of the peer: acknowledgements, waiting notices
with announced delays, refusals, repeated ones and ones with a foreign sequence number, at generated times.
The outcome and time of every send is compared with a model.  Non-trivial: sends overlap, or a waiting notice
or foreign acknowledgement arrives."""
ASSUMPTIONS = [
    "fewer than 256 packets are in flight on a connection",
    "no answer arrives at exactly the instant of a deadline",
]
QUICK = 200
THOROUGH = 12000
EIGHTH = 1 / 8

DELAYS = st.one_of(
    st.sampled_from([-1, 0, 1, 2, 5, 30, 120, -120, -(1 << 23), -2, 59, 60, 61, 255, 256, 600]),
    st.integers(-300, 300),
    st.integers(0, 9).flatmap(lambda n: st.sampled_from([3600, 40000, 90000, 180000] if n == 0 else [3, 300])),
)


# how the number of an answer differs from the packet's
OFFSETS = st.sampled_from([0] * 12 + [1, -1, 7, 128, 64, 16, 2]) | st.integers(0, 3).flatmap(lambda n: st.integers(1, 255) if n == 0 else st.just(0))
ENDPOINTS = st.one_of(st.just(0), st.sampled_from([1, 127]), st.integers(0, 127))


@st.composite
def answers(draw, patient=False):
    out = []
    waiting = False
    for _ in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(["ack", "ack", "wait", "wait", "nack", "full", "alive", "cmd"]))
        delay = draw(DELAYS) if kind == "wait" and draw(st.integers(0, 7)) else None
        # in eighths of a second after the previous answer
        if waiting:
            after = draw(st.one_of(st.integers(0, 40), st.sampled_from([470, 479, 480, 481, 488, 599, 601, 1439, 1440, 1441, 1599, 1601, 2400])))
        else:
            after = draw(st.one_of(st.integers(0, 40), st.sampled_from([23, 24, 25])))
        out.append([after, kind, delay, draw(OFFSETS)])
        if kind == "wait":
            waiting = True
    return out


@st.composite
def strategy_(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        after = draw(st.one_of(st.just(0), st.integers(0, 30), st.sampled_from([200, 500])))
        # 4: to the same node, by its object
        conn = draw(st.sampled_from([0, 0, 0, 0, 0, 1, 1, 2, 3, 3, 4]))
        if draw(st.integers(0, 12)) == 0:
            ops.append([after, "burst", conn, draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.sampled_from([250, 253, 254, 255, 256, 258])))])
            continue
        if draw(st.integers(0, 49)) == 0 and not any(op[1] == "hold" for op in ops):
            # many wait for a sleeping node while the numbers go around
            count = draw(st.sampled_from([2, 17, 33, 70, 130, 240]))
            script = [[draw(st.sampled_from([0, 8])), "wait", draw(st.sampled_from([600, 90])), 0], [draw(st.sampled_from([400, 900])), "ack", None, 0]]
            message = draw(composable_messages(["Basic.Set"]))
            ops.append([after, "hold", conn, count, message, script])
            ops.append([16, "burst", conn, 256 - count + draw(st.sampled_from([-2, 0, 1, 60]))])
            continue
        ops.append(
            [
                after, "send", conn,
                draw(st.sampled_from([None, None, None, None, 8, 4, 80, 240, 600, 1600])),
                draw(ENDPOINTS), draw(ENDPOINTS),
                draw(composable_messages(["Basic.Set", "SwitchBinary.Set", "Battery.Get", "Configuration.Get"])),
                draw(answers()),
                draw(st.sampled_from([None] * 7 + [3, 30])),
            ]
        )
    # whether answers right behind each other arrive in one go, as over DTLS
    return {"ops": ops, "batch": draw(st.booleans())}


def strategy():
    return strategy_()


# two connections, a gateway and a node behind it
ADDRESSES = ["fd00:aaaa::3", "fd00:bbbb::5", "fd00:aaaa::2", "fd00:bbbb::6"]
NODE = 6


class Sent:
    """One send and what is expected of it."""

    def __init__(self, conn, timeout, cancel, script, burst=False):
        self.node, conn = conn == 4, min(conn, 3)
        self.conn, self.timeout, self.cancel, self.script, self.burst = conn, timeout, cancel, script, burst
        self.start = self.seq = self.outcome = self.end = None
        self.packets = []


def answer_bytes(kind, seq, arg):
    if kind == "ack":
        return wire.ack(seq)
    if kind == "wait":
        return wire.waiting(seq, arg)
    if kind == "nack":
        return wire.nack(seq)
    if kind == "full":
        return wire.nack(seq, wire.QUEUE_FULL)
    if kind == "alive":
        return wire.keep_alive(0x40)
    return wire.packet(seq, build("Basic.Report", {"value": 1}))


def run(case, rec):
    sends = []
    events = {0: [], 1: [], 2: [], 3: []}  # (time, order, kind, seq, delay) delivered per connection
    order = [0]
    current = {}

    def on_sent(loop, transport, data, target):
        packet = Packet(data)
        if packet.kind == "solicitation":
            loop.inject(0, transport, wire.advertisement(packet.node, ipaddress.IPv6Address(ADDRESSES[3]).packed.hex()), (target[0], 4123))
        if packet.kind != "zip":
            return
        conn = ADDRESSES.index(target[0])
        sent = current.get(conn)
        require(sent is not None, "a packet was sent outside any send: %s", data.hex())
        sent.packets.append(packet)
        if len(sent.packets) > 1:
            return
        sent.seq, sent.start = packet.seq, loop.now
        when = 0
        for i, (after, kind, arg, offset) in enumerate(sent.script):
            when += after * EIGHTH
            seq = (packet.seq + offset) & 0xFF
            if i == 0 or after or not case.get("batch"):
                delay = when + (i + 1) * vloop_tick
            else:
                rec.label("answers in one go")
            loop.inject(delay, transport, answer_bytes(kind, seq, arg), (target[0], 4123))
            order[0] += 1
            events[conn].append((loop.now + delay, order[0], kind, seq, arg))
            rec.label("answer " + kind + (" with foreign number" if offset else ""))
            rec.nontrivial(kind == "wait" or offset)

    async def one(loop, connections, sent, message, source, dest):
        kwargs = {} if sent.timeout is None else {"timeout": sent.timeout * EIGHTH}

        async def send():
            current[sent.conn] = sent
            if sent.node:
                node = connections[4]
                node.endpoint = dest
                coro = node.send(message, **kwargs)
            elif sent.conn == 3:
                coro = connections[2].sendToNode(NODE, message, sourceEP=source, destEP=dest, **kwargs)
            else:
                coro = connections[sent.conn].send(message, sourceEP=source, destEP=dest, **kwargs)
            task = asyncio.ensure_future(coro)
            return await task

        task = asyncio.ensure_future(send())
        for _ in range(6):
            await asyncio.sleep(0)
        if sent.cancel is not None:
            handle = loop.call_later(sent.cancel * EIGHTH, task.cancel)
        try:
            sent.outcome = await task
        except asyncio.CancelledError:
            sent.outcome = "cancelled"
        sent.end = loop.now
        if sent.cancel is not None:
            handle.cancel()

    async def main(loop):
        loop.batch = case.get("batch", False)
        loop.listener = lambda transport, data, target: on_sent(loop, transport, data, target)
        connections = [ZIPConnection(address, b"psk") for address in ADDRESSES[:2]]
        gateway = ZIPGateway(ADDRESSES[2], b"psk")
        connections += [gateway, None, Node(NODE, gateway, [])]
        for connection in connections[:2]:
            await connection.connect()
        await ZIPConnection.connect(gateway)
        await gateway.connectToNode(NODE)
        tasks = []
        ops = []
        for op in case["ops"]:
            if op[1] == "hold":
                _, _, conn, count, message, script = op
                ops += [[op[0] if i == 0 else 0, "send", conn, None, 0, 0, message, script, None] for i in range(count)]
                rec.label("many are waiting")
            else:
                ops.append(op)
        for op in ops:
            await asyncio.sleep(op[0] * EIGHTH)
            if op[1] == "burst":
                _, _, conn, count = op
                for _ in range(count):
                    sent = Sent(conn, None, None, [[0, "ack", None, 0]], burst=True)
                    sends.append((sent, b"\x25\x02", 0, 0))
                    await one(loop, connections, sent, construct("SwitchBinary.Get", {}), 0, 0)
                # back to a whole eighth
                await asyncio.sleep(-loop.now % EIGHTH)
                rec.label("burst")
                continue
            _, _, conn, timeout, source, dest, message, script, cancel = op
            sent = Sent(conn, timeout, cancel, script)
            if sent.node:
                source = 0
            if sent.conn:
                rec.label("by the node" if sent.node else "on connection %d" % sent.conn)
            sends.append((sent, build(message["name"], message["fields"]), source, dest))
            tasks.append(asyncio.ensure_future(one(loop, connections, sent, construct(message["name"], message["fields"]), source, dest)))
            # let it send before the next one starts
            for _ in range(12):
                await asyncio.sleep(0)
        if tasks:
            await asyncio.gather(*tasks)

    vloop.run(main, settle=1, max_iterations=400000)

    for sent, command, source, dest in sends:
        with observing("the packet of a send"):
            same(len(sent.packets), 1, "number of packets transmitted by a send of %s", command.hex())
            packet = sent.packets[0]
            same(packet.command, command, "command in the packet")
            same((packet.source, packet.dest), (source, dest), "endpoints in the packet")
            same(packet.flags0, wire.ACK_REQUEST, "first flags of the packet")
            require(packet.flags1 & wire.CMD_INCLUDED and not packet.flags1 & wire.HEADER_EXT, "second flags of the packet are %#x", packet.flags1)

    for i, (sent, command, _, _) in enumerate(sends):
        what = "send %d (%s, number %d at %s)" % (i, command.hex(), sent.seq, sent.start)
        for other, _, _, _ in sends[:i]:
            if other.conn == sent.conn and other.end > sent.start:
                rec.label("overlapping sends")
                rec.nontrivial()
                require(other.seq != sent.seq, "%s has the number of a packet sent at %s that is still in flight", what, other.start)
        outcome, end, refused = expected(sent, events[sent.conn])
        if sent.outcome == "cancelled":
            require(end >= sent.end, "%s was not over at %s when it was cancelled at %s", what, end, sent.end)
            rec.label("cancelled")
            continue
        rec.label("succeeded" if outcome else "failed")
        require(sent.outcome is outcome, "%s returned %r at %s instead of %r at %s", what, sent.outcome, sent.end, outcome, end)
        if not outcome and refused is not None:
            require(refused <= sent.end <= end, "%s failed at %s", what, sent.end)
        else:
            same(sent.end, end, "end of %s", what)


vloop_tick = 1 / 1024


def expected(sent, events):
    """(outcome, time, time of the first refusal before it) of a send, from the answers that arrived."""
    deadline = sent.start + (3 if sent.timeout is None else sent.timeout * EIGHTH)
    refused = None
    for when, _, kind, seq, delay in sorted(e[:5] for e in events if e[0] > sent.start):
        if seq != sent.seq:
            continue
        if when > deadline:
            break
        if kind == "ack":
            return True, when, refused
        if kind == "wait":
            delay = delay or 0
            deadline = when + (delay + 60 if delay >= 0 else 180)
        elif kind in ("nack", "full") and refused is None:
            refused = when
    return False, deadline, refused
