"""The mailbox delivers every queued message once, in order."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import collections
import functools
import ipaddress

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import require, same
from lib.layout import construct, mostly
from lib.sim import CONTROLLERS, Sim, SimNode
from pyzwave.mailbox import MailboxService
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C18"
RULE = """A case is a history of mailbox traffic of several queues - messages pushed (some of them again), wake-ups,
acknowledgements with and without handle - arriving one after the other or while earlier ones are still being dealt
with, while the simulated gateway acknowledges what the mailbox sends at once, late or not at all.  At the end every
queue is emptied.  What is sent for each queue is compared with a queue per handle.  Non-trivial: a queue gets two
messages or more, or something sent is not acknowledged."""
ASSUMPTIONS = [
    "queue handle 0 in an acknowledgement stands for the queue that woke up last",
    "different messages of equal checksum are not generated, the protocol wants the second one discarded",
    "histories end before the first heartbeat (C19)",
]
QUICK = 330
THOROUGH = 15000
EIGHTH = 1 / 8

PUSH, POP, WAITING, PING, ACK = range(5)
HANDLES = [1, 2, 7, 255]
MESSAGES = st.one_of(st.sampled_from(["2001ff", "2002", "25010a", "700502", "00", "ffffffff"]), st.binary(min_size=1, max_size=12).map(bytes.hex))


@st.composite
def alike(draw):
    """Messages of any length that differ in one place, or in length."""
    base = draw(st.one_of(st.binary(min_size=1, max_size=20), st.tuples(st.binary(min_size=1, max_size=8), st.integers(2, 30)).map(lambda t: (t[0] * t[1])[:120])))
    out = [base]
    for _ in range(draw(st.integers(1, 3))):
        at = draw(st.one_of(st.sampled_from([0, len(base) - 1, len(base) // 2]), st.integers(0, len(base) - 1)))
        how = draw(st.sampled_from(["change", "change", "bit", "without", "twice"]))
        if how == "change":
            other = base[:at] + bytes([draw(st.integers(0, 255))]) + base[at + 1 :]
        elif how == "bit":
            other = base[:at] + bytes([base[at] ^ 1 << draw(st.integers(0, 7))]) + base[at + 1 :]
        elif how == "without":
            other = base[:at] + base[at + 1 :]
        else:
            other = base[: at + 1] + base[at:]
        if other and other not in out:
            out.append(other)
    return [m.hex() for m in out]


# more messages than a byte counts, each of them another one
FLOOD = st.tuples(st.sampled_from([20] * 9 + [40] * 9 + [70] * 4 + [130, 270]), st.integers(0, 65535)).map(lambda t: [(i * 7 + t[1]).to_bytes(3, "big").hex() for i in range(t[0])])
OUTCOMES = st.sampled_from(["ack", "ack", "ack", "ack", "late", "lost"])


@functools.lru_cache(4096)
def crc(data):
    value = 0x1D0F
    for byte in data:
        value ^= byte << 8
        for _ in range(8):
            value = (value << 1 ^ 0x1021 if value & 0x8000 else value << 1) & 0xFFFF
    return value


@st.composite
def strategy_(draw):
    handles = draw(st.lists(st.sampled_from(HANDLES), min_size=1, max_size=3, unique=True))
    pool = draw(st.one_of(st.lists(MESSAGES, min_size=1, max_size=4, unique=True), alike()))
    ops = []
    for _ in range(draw(mostly(st.integers(1, 9), st.sampled_from([18, 40])))):
        kind = draw(st.sampled_from(["push"] * 5 + ["wake", "wake", "ack", "ack", "bare ack", "other"]))
        ops.append(
            [
                draw(st.sampled_from([0, 0, 0, 1, 4, 8])), kind, draw(st.sampled_from(handles)),
                draw(st.sampled_from(pool)) if kind == "push" else draw(st.sampled_from([1, 2, 3, 5, 6])) if kind == "other" else "",
            ]
        )
    if draw(st.integers(0, 60)) == 60:
        at = draw(st.integers(0, len(ops)))
        ops[at:at] = [[draw(st.sampled_from([0, 1])), "push", handles[i % len(handles)], m] for i, m in enumerate(draw(FLOOD))]
    return {
        "controller": draw(st.sampled_from(CONTROLLERS)), "batch": draw(st.booleans()),
        "ops": ops,
        "outcomes": {str(h): draw(st.lists(OUTCOMES, max_size=6)) for h in handles},
    }


def strategy():
    return strategy_()


def queue_packet(operation, handle, entry=b"", last=0):
    return bytes([0x69, 0x04, last << 3 | operation]) + (b"" if handle is None else bytes([handle])) + entry


def run(case, rec):
    arrived = {}  # handle: [(kind, message)]
    sent = {}  # handle: [(operation, last, message, outcome)]
    left = {int(h): list(outcomes) for h, outcomes in case["outcomes"].items()}
    seen = {}
    busy = [0.0]

    def script(sim, address, transport, packet):
        if address != sim.controllerAddress or packet.kind != "zip" or packet.is_ack or packet.command[:1] != b"\x69":
            return False
        data = packet.command
        require(len(data) >= 4 and data[1] == 4, "the mailbox sent %s", data.hex())
        same((packet.source, packet.dest), (0, 0), "endpoints of %s", data.hex())
        handle = data[3]
        outcome = left[handle].pop(0) if left.get(handle) else "ack"
        if outcome != "lost":
            sim.reply(transport, 20 * EIGHTH if outcome == "late" else 1 / 1024, wire.ack(packet.seq))
        sent.setdefault(handle, []).append((data[2] & 7, bool(data[2] & 8), data[4:], outcome != "lost"))
        rec.label("sent, " + outcome)
        rec.nontrivial(outcome != "ack")
        busy[0] = sim.loop.now
        return True

    async def main(loop):
        sim = Sim(loop, [SimNode(5, b"\x25")], controller=case.get("controller", 1))
        loop.batch = case.get("batch", False)
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        await asyncio.sleep(2)
        mailbox = MailboxService(gateway)
        require(await mailbox.initialize(ipaddress.IPv6Address("fd00::9"), 41230) is True, "the mailbox could not be set up")
        set_up = [p for _, a, p in sim.received if a == sim.gateway and p.kind == "zip" and p.command[:2] == b"\x69\x02"]
        same([p.command.hex() for p in set_up], ["690202" + ipaddress.IPv6Address("fd00::9").packed.hex() + "%04x" % 41230], "what set up the mailbox")
        await gateway.sendToNode(sim.controller, construct("Basic.Get", {}))
        sim.script = script
        await asyncio.sleep(4)
        woken = [None]

        def arrive(kind, handle, message=b""):
            if kind == "push":
                data = queue_packet(PUSH, handle, message)
            elif kind == "wake":
                data = bytes([0x69, 0x05, handle])
                woken[0] = handle
            elif kind == "bare ack":
                handle = woken[0]
                data = queue_packet(ACK, None if len(arrived.get(handle, [])) % 2 else 0)
            elif kind == "ack":
                data = queue_packet(ACK, handle)
            else:
                data = queue_packet(message, handle)
            sim.unsolicited(0, sim.controllerAddress, wire.packet(0, data))
            if kind != "other" and handle is not None:
                arrived.setdefault(handle, []).append(("pop" if kind.endswith("ack") or kind == "wake" else kind, message))

        for after, kind, handle, message in case["ops"]:
            await asyncio.sleep(after * EIGHTH)
            message = message if kind == "other" else bytes.fromhex(message)
            if kind == "push":
                # two messages with the same checksum cannot be told apart
                if seen.setdefault(handle, {}).setdefault(crc(message), message) != message:
                    continue
            arrive(kind, handle, message)
        # until everything is handed over
        left.clear()
        while loop.now - busy[0] < 4:
            await asyncio.sleep(1)
        for handle in sorted(seen):
            for _ in range(len(seen[handle]) + 14):
                await asyncio.sleep(EIGHTH)
                waiting = model(arrived.get(handle, []), sent.get(handle, []))[1]
                arrive("ack", handle)
                if not waiting:
                    break
                if len(waiting) > 1:
                    rec.nontrivial()
        await asyncio.sleep(4)
        return sim

    vloop.run(main, settle=1)
    for handle in sorted(set(arrived) | set(sent)):
        wanted, waiting = model(arrived.get(handle, []), sent.get(handle, []))
        same([s[:3] for s in sent.get(handle, [])], wanted, "sent for queue %d (operation, last, message), %s arrived", handle, arrived.get(handle))
        same(waiting, [], "messages left in queue %d", handle)


def model(arrivals, transmissions):
    """What has to be sent for one queue, and what is left in it."""
    wanted, waiting, there = [], collections.deque(), set()
    for kind, message in arrivals:
        if kind == "push":
            if message in there:
                continue
            wanted.append((WAITING, False, message))
        elif waiting:
            wanted.append((POP, len(waiting) == 1, waiting[0]))
        else:
            wanted.append((POP, True, b""))
            continue
        acked = len(wanted) > len(transmissions) or transmissions[len(wanted) - 1][3]
        if not acked:
            continue
        if kind == "push":
            waiting.append(message)
            there.add(message)
        else:
            there.remove(waiting.popleft())
    return wanted, list(waiting)
