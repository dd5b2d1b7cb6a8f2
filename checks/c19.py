"""Queued mailbox messages are announced every minute until delivered."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from checks import c18
from lib import vloop
from lib.core import require, same
from lib.layout import edge_ints, mostly
from pyzwave.adapter import Adapter
from pyzwave.mailbox import MailboxService
from pyzwave.message import Message

PROPERTY = "C19"
RULE = """A case is a set of messages pushed into queues of the mailbox at generated times, taken or refused, and handed
over at generated times or never, or taken for that without success, over up to half an hour, rarely five hours, of virtual time, with an adapter whose sends succeed at once
or late, are not acknowledged, time out or raise.  The time, kind and content of every heartbeat is compared with the
schedule of each message.  Non-trivial: two messages wait at the same time, a heartbeat or handing over fails, or ten of one are due."""
ASSUMPTIONS = ["a heartbeat is due 60 seconds after the one before it was dealt with"]
QUICK = 420
THOROUGH = 16000
TICK = 1 / 1024

PUSH, POP, WAITING, PING, ACK = range(5)
POOL = ["2001ff", "2002", "25010a", "700502", "00", "31050101"]
ENTRY = st.tuples(st.binary(min_size=1, max_size=4), st.sampled_from([0, 0, 1, 60, 197, 198, 199, 230, 260, 1000])).map(lambda t: (t[0] + b"\xa5" * t[1]).hex())
# [what, seconds]
RESULT = st.sampled_from([["ack", 0]] * 6 + [["ack", 2], ["ack", 30], ["no ack", 3], ["no ack", 100], ["timeout", 3], ["timeout", 0], ["error", 0], ["os error", 1]])


@st.composite
def strategy_(draw):
    ops = []
    proxy = draw(st.one_of(st.sampled_from([1, 1, 6, 232]), edge_ints(1, 232)))
    # the number of a queue may be that of the node
    handles = draw(st.one_of(st.just([3, 9]), st.tuples(edge_ints(0, 255), st.just(proxy)).map(list), st.lists(edge_ints(0, 255), min_size=2, max_size=2)))
    pool = draw(st.lists(st.one_of(st.sampled_from(POOL), ENTRY), min_size=1, max_size=4))
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["push"] * 4 + ["wake"]))
        ops.append([draw(st.sampled_from([0, 1, 20, 59, 61, 130, 600])), kind, draw(st.sampled_from(handles)), draw(st.sampled_from(pool))])
    return {
        "proxy": proxy,
        "first": draw(st.lists(st.sampled_from(["ack", "ack", "ack", "no ack", "timeout"]), max_size=4)),
        "results": draw(st.lists(RESULT, max_size=12)),
        "pops": draw(st.lists(st.sampled_from([["ack", 0], ["ack", 0], ["ack", 5], ["no ack", 0], ["no ack", 3], ["timeout", 3]]), max_size=4)),
        "ops": ops,
        "last": draw(mostly(st.sampled_from([70, 200, 650, 1300]), st.sampled_from([4000, 8000, 20000]), 24)),
    }


def strategy():
    return strategy_()


class Item:
    """One message as the reference sees it."""

    def __init__(self, handle, entry, accepted):
        self.handle, self.entry, self.accepted = handle, entry, accepted
        self.due = accepted + 60
        self.number = 0
        self.gone = None


class FakeAdapter:
    """Sends commands to nobody; only what MailboxService uses."""

    def __init__(self):
        self.listeners = []
        self.on_send = None

    def addListener(self, listener):
        self.listeners.append(listener)

    async def sendToNode(self, nodeId, cmd, **_kwargs):
        return await self.on_send(nodeId, cmd)

    async def send(self, _cmd, **_kwargs):
        return True


assert hasattr(Adapter, "sendToNode")


def run(case, rec):
    proxy = case.get("proxy", 1)
    first, results, pops = list(case["first"]), list(case["results"]), list(case.get("pops", []))
    items = []
    waiting = {}
    problems = []

    async def main(loop):
        adapter = FakeAdapter()
        mailbox = MailboxService(adapter)
        require(adapter.listeners == [mailbox], "the mailbox does not listen to the adapter")
        pushing = {}

        async def on_send(nodeId, cmd):
            data = cmd.compose()
            operation, last, handle, entry = data[2] & 7, data[2] >> 3, data[3], data[4:]
            if data[:2] != b"\x69\x04" or nodeId != proxy:
                problems.append("%s was sent to node %s" % (data.hex(), nodeId))
                return True
            if operation == POP:
                if not waiting.get(handle):
                    return True
                taken = waiting[handle][0]
                if entry != taken.entry:
                    problems.append("%s was handed over where %s was first in the queue" % (data.hex(), taken.entry.hex()))
                outcome, after = pops.pop(0) if pops else ("ack", 0)
                if after:
                    await asyncio.sleep(after)
                if outcome == "ack":
                    waiting[handle].pop(0)
                    taken.gone = loop.now
                    rec.label("handed over")
                    return True
                rec.label("could not be handed over: " + outcome)
                rec.nontrivial()
                if outcome == "timeout":
                    raise asyncio.TimeoutError()
                return False
            if pushing.get(handle) == entry and operation == WAITING:
                # the first notice, which decides whether it is accepted
                del pushing[handle]
                outcome = first.pop(0) if first else "ack"
                if outcome == "timeout":
                    raise asyncio.TimeoutError()
                if outcome == "ack":
                    item = Item(handle, entry, loop.now)
                    items.append(item)
                    waiting.setdefault(handle, []).append(item)
                rec.label("accepted" if outcome == "ack" else "not accepted")
                return outcome == "ack"
            mine = [i for i in waiting.get(handle, []) if i.entry == entry]
            if not mine:
                problems.append("a heartbeat %s at %s for a message that does not wait in queue %d" % (data.hex(), loop.now, handle))
                return True
            item = mine[0]
            item.number += 1
            if abs(loop.now - item.due) > 1e-6:
                problems.append("heartbeat %d of %s came at %s, due at %s" % (item.number, entry.hex(), loop.now, item.due))
            if operation != (PING if item.number % 10 == 0 else WAITING) or last:
                problems.append("heartbeat %d of %s is %s" % (item.number, entry.hex(), data.hex()))
            if item.number == 10:
                rec.label("ping")
                rec.nontrivial()
            if sum(len(w) for w in waiting.values()) > 1:
                rec.nontrivial()
                rec.label("several wait")
            outcome, after = results.pop(0) if results else ("ack", 0)
            item.due = None
            try:
                if after:
                    await asyncio.sleep(after)
            finally:
                item.due = loop.now + 60
            if outcome != "ack":
                rec.label("heartbeat fails: " + outcome)
                rec.nontrivial()
            if outcome == "timeout":
                raise asyncio.TimeoutError()
            if outcome == "error":
                raise ValueError("something went wrong")
            if outcome == "os error":
                raise OSError("network is unreachable")
            return outcome == "ack"

        adapter.on_send = on_send

        def overdue(what):
            for item in items:
                if item.gone is None and item.due is not None and item.due < loop.now - 1e-6:
                    raise_(what, item)

        def raise_(what, item):
            require(False, "heartbeat %d of %s was due at %s (%s at %s)", item.number + 1, item.entry.hex(), item.due, what, loop.now)

        count = 0
        for after, kind, handle, entry in case["ops"] + [[case["last"], "end", 0, ""]]:
            # nothing else happens at the same time
            count += 1
            end = loop.now + after + count * TICK
            while loop.now < end:
                await asyncio.sleep(min(7, end - loop.now))
                overdue("looking")
                require(not problems, "%s", "; ".join(problems[:2]))
            entry = bytes.fromhex(entry)
            if kind == "push":
                if any(i.entry != entry and c18.crc(i.entry) == c18.crc(entry) for i in waiting.get(handle, [])):
                    # the two cannot be told apart
                    continue
                if any(i.entry == entry for i in waiting.get(handle, [])):
                    rec.label("pushed again")
                else:
                    pushing[handle] = entry
                await mailbox.messageReceived(adapter, proxy, 0, Message.decode(bytes([0x69, 4, PUSH, handle]) + entry), 0)
                same(pushing, {}, "messages pushed without a first notice")
            elif kind == "wake":
                mine = waiting.get(handle, [])
                if mine and mine[0].due is None:
                    rec.label("handed over while a heartbeat is being sent")
                await mailbox.messageReceived(adapter, proxy, 0, Message.decode(bytes([0x69, 5, handle])), 0)
        require(not problems, "%s", "; ".join(problems[:2]))
        same(sum(i.gone is not None for i in items) + sum(len(w) for w in waiting.values()), len(items), "messages")

    vloop.run(main)
