"""A connection is kept alive whenever it has been idle for 25 seconds."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import require, same
from lib.layout import build, construct, composable_messages
from lib.wire import Packet
from pyzwave.commandclass import Basic
from pyzwave.zipconnection import ZIPConnection

PROPERTY = "C06"
RULE = """A case is a history on one or two connections: commands sent (answered, refused, lost, several at
once, or impossible to compose), received commands, acknowledgements, keep-alives and garbage, and idle times
around multiples of 25 seconds.  Every transmission and its time is compared with what idle times require.
Non-trivial: something was received or sent while a keep-alive was pending, and at least one became due."""
ASSUMPTIONS = [
    "a command sent at the very instant a keep-alive is due may or may not come with the keep-alive",
]
QUICK = 500
THOROUGH = 12000
EIGHTH = 1 / 8
IDLE = 25.0
ADDRESSES = ["fd00:aaaa::3", "fd00:bbbb::5"]

TIMES = st.one_of(st.integers(0, 60), st.integers(0, 700), st.sampled_from([192, 199, 200, 201, 208, 399, 400, 401, 600]))
# how the peer treats a command: acknowledge after so many eighths, and so on
ANSWERS = st.sampled_from(["ack", "late ack", "lost", "wait", "nack", "ack twice"])
RECEIVED = st.sampled_from(["alive ack", "alive ack", "alive request", "alive", "ack", "command", "asks for ack", "garbage", "advertisement", "nothing"])


@st.composite
def strategy_(draw):
    count = draw(st.sampled_from([1, 1, 2]))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        conn = draw(st.integers(0, count - 1))
        after = draw(TIMES)
        kind = draw(st.sampled_from(["send", "send", "receive", "receive", "receive", "refused", "idle"]))
        if kind == "send":
            ops.append([after, kind, conn, draw(composable_messages(["Basic.Set", "Battery.Get", "Indicator.Set"])), draw(ANSWERS), draw(st.booleans()), draw(st.sampled_from([{}, {}, {"destEP": 1}, {"destEP": 127}, {"sourceEP": 3}, {"timeout": 9}]))])
            if draw(st.integers(0, 29)) == 0:
                # many of them before anything can be answered
                ops.extend([[0] + ops[-1][1:]] * draw(st.sampled_from([5, 30, 70, 120])))
        elif kind == "receive":
            ops.append([after, kind, conn, draw(RECEIVED)])
        else:
            ops.append([after, kind, conn])
    return {
        "connections": count,
        "connect": draw(st.sampled_from([0, 0, 3, 40])),
        "alive": draw(st.sampled_from(["ack", "lost", "twice", "command"])),
        "ops": ops,
        "rest": draw(TIMES),
        "disconnect": draw(st.booleans()),
    }


def strategy():
    return strategy_()


def run(case, rec):
    sent = [[] for _ in ADDRESSES]  # (time, kind)
    established = [None, None]
    answer = {}
    received_at = [[] for _ in ADDRESSES]

    def inject(loop, transport, delay, data, conn):
        loop.inject(delay, transport, data, (ADDRESSES[conn], 4123))
        received_at[conn].append(loop.now + delay)

    def on_sent(loop, transport, data, target):
        conn = ADDRESSES.index(target[0])
        packet = Packet(data)
        if packet.kind == "keepalive" and packet.flags0 == 0x40:
            # answering a keep-alive of the peer is neither a command nor a keep-alive
            return
        sent[conn].append((loop.now, packet.kind))
        if packet.kind == "keepalive":
            require(packet.flags0 is not None and packet.flags0 & 0x80, "keep-alive %s does not ask for an acknowledgement", data.hex())
            require(not packet.flags0 & 0x40 and len(data) == 3, "keep-alive is %s", data.hex())
            reaction = case["alive"]
            if reaction in ("ack", "twice"):
                inject(loop, transport, 3 / 1024, wire.keep_alive(0x40), conn)
            if reaction == "twice":
                inject(loop, transport, 2 + 3 / 1024, wire.keep_alive(0x40), conn)
            if reaction == "command":
                inject(loop, transport, 1 + 3 / 1024, wire.packet(1, build("Basic.Report", {"value": 3})), conn)
        elif packet.kind == "zip":
            how = answer[conn]
            if how in ("ack", "ack twice"):
                inject(loop, transport, 5 / 1024, wire.ack(packet.seq), conn)
            if how == "ack twice":
                inject(loop, transport, 1 + 5 / 1024, wire.ack(packet.seq), conn)
            if how == "late ack":
                inject(loop, transport, 2 + 7 / 1024, wire.ack(packet.seq), conn)
            if how == "wait":
                inject(loop, transport, 5 / 1024, wire.waiting(packet.seq, 5), conn)
                inject(loop, transport, 30 + 5 / 1024, wire.ack(packet.seq), conn)
            if how == "nack":
                inject(loop, transport, 5 / 1024, wire.nack(packet.seq), conn)
        else:
            require(False, "an unknown datagram was sent: %s", data.hex())

    def received(kind):
        return {
            "alive ack": wire.keep_alive(0x40),
            "alive request": wire.keep_alive(0x80),
            "alive": wire.keep_alive(0),
            "ack": wire.ack(77),
            "command": wire.packet(9, build("SwitchBinary.Report", {"value": 255})),
            "asks for ack": wire.packet(9, build("SwitchBinary.Report", {"value": 255}), flags0=wire.ACK_REQUEST),
            "garbage": b"\x23\x02\x80",
            "advertisement": wire.advertisement(5, "00" * 16),
            "nothing": b"",
        }[kind]

    async def main(loop):
        loop.connect_delay = case["connect"] * EIGHTH
        loop.listener = lambda transport, data, target: on_sent(loop, transport, data, target)
        connections = [ZIPConnection(address, b"psk") for address in ADDRESSES[: case["connections"]]]
        for i, connection in enumerate(connections):
            await connection.connect()
            established[i] = loop.now
        tasks = []
        for op in case["ops"]:
            await asyncio.sleep(op[0] * EIGHTH)
            conn = op[2]
            if op[1] == "send":
                answer[conn] = op[4]
                task = asyncio.ensure_future(connections[conn].send(construct(op[3]["name"], op[3]["fields"]), **(op[6] if len(op) > 6 else {})))
                tasks.append(task)
                for _ in range(12):
                    # it is sent before anything else happens
                    await asyncio.sleep(0)
                require(sent[conn] and sent[conn][-1] == (loop.now, "zip"), "the command was not sent at once")
                if not op[5]:
                    # wait for it and get back to a whole eighth
                    await task
                    await asyncio.sleep(-loop.now % EIGHTH)
            elif op[1] == "receive":
                for transport in loop.sockets(remote=ADDRESSES[conn]):
                    inject(loop, transport, 0, received(op[3]), conn)
                rec.label("received " + op[3])
            elif op[1] == "refused":
                try:
                    # a command without its value cannot be sent
                    await connections[conn].send(Basic.Set())
                except AttributeError:
                    pass
                rec.label("refused")
        await asyncio.sleep(case["rest"] * EIGHTH)
        await asyncio.gather(*tasks)
        end = loop.now
        if case["disconnect"]:
            for connection in connections:
                connection.disconnect()
            await asyncio.sleep(80)
        return end

    end, _ = vloop.run(main)
    for conn in range(case["connections"]):
        last = established[conn]
        due = 0
        log = sent[conn]
        for i, (when, kind) in enumerate(log):
            if when > end:
                require(not case["disconnect"], "%s sent at %s after the connection was closed at %s", kind, when, end)
                break
            require(when <= last + IDLE, "nothing was sent on connection %d between %s and %s", conn, last, when)
            if kind == "keepalive":
                due += 1
                # a command in the same instant may come before or after it
                tie = i > 0 and log[i - 1] == (when, "zip") and (log[i - 2][0] if i > 1 else established[conn]) + IDLE == when
                if not tie:
                    same(when, last + IDLE, "time of the keep-alive on connection %d after the last transmission at %s", conn, last)
                if any(last < t < when for t in received_at[conn]):
                    rec.label("received while pending")
                    rec.nontrivial()
                if last > established[conn]:
                    rec.nontrivial()
            last = when
        require(end <= last + IDLE or (end == last + IDLE), "nothing was sent on connection %d from %s to %s", conn, last, end)
        rec.label("keep-alives", due)
