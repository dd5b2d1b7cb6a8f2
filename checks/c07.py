"""A request returns the matching reply or times out, independent of others."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import build, construct, find_class
from lib.sim import Sim, SimNode
from pyzwave.application import Application
from pyzwave.commandclass import Indicator
from pyzwave.persistantstorage import PersistantStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C07"
RULE = """A case is a history of requests to the gateway, to two nodes and an endpoint - overlapping, for the
same or different message types, with their own timeouts, some with a condition, cancelled, impossible to
send, unacknowledged or queued for a sleeping node - and of messages arriving at generated times,
some twice or several in one iteration of the event loop.  Outcome and
time of every request and everything the listeners got is compared with a model.  Non-trivial: requests for the
same type overlap, or a reply overtakes its acknowledgement, or a message arrives after a request ended."""
ASSUMPTIONS = [
    "requests waiting at the same time for the same message all take it",
    "a request to a node whose command was not acknowledged may time out even if the reply arrived",
    "no message arrives at the very instant of a deadline",
]
QUICK = 240
THOROUGH = 8000
EIGHTH = 1 / 8
TICK = 1 / 1024

TARGETS = ["gateway", "5:0", "5:1", "6:0"]
TYPES = ["Basic.Report", "SwitchBinary.Report", "Battery.Report"]
FIELD = {"Basic.Report": "value", "SwitchBinary.Report": "value", "Battery.Report": "batteryLevel"}

TIMES = st.one_of(st.integers(0, 30), st.integers(0, 30), st.sampled_from([7, 8, 9, 23, 24, 25, 31, 32, 33, 47, 48, 49, 79, 81, 100, 119, 121, 300]))


@st.composite
def strategy_(draw):
    ops = []
    target = st.sampled_from(draw(st.sampled_from([TARGETS, ["gateway"], ["5:0"], ["5:0", "5:1"], ["5:0", "6:0"]])))
    kind = st.sampled_from(draw(st.sampled_from([TYPES, TYPES[:1], TYPES[:2]])))
    messages = st.tuples(TIMES, st.one_of(st.none(), st.none(), st.none(), target), st.one_of(st.none(), st.none(), kind), st.sampled_from([0, 0, 0, 1]), st.booleans(), st.sampled_from([False, False, True])).map(list)
    for _ in range(draw(st.integers(1, 6))):
        ops.append(
            {
                "after": draw(st.one_of(st.just(0), TIMES)),
                "how": draw(st.sampled_from(["request"] * 6 + ["wait", "unsendable", "nothing"])),
                "target": draw(target),
                # ask through a command class of the node
                "class": draw(st.integers(0, 3)) == 0,
                "type": draw(kind),
                "timeout": draw(st.one_of(st.none(), st.sampled_from([1, 8, 16, 24, 25, 40, 80, 120, 330]))),
                "ack": draw(st.sampled_from([["ack", 0], ["ack", 0], ["ack", 3], ["ack", 20], ["lost"], ["queued", 2, 5, 100], ["queued", 20, 0, 470]])),
                "parity": draw(st.sampled_from([None, None, 0, 1])),
                "cancel": draw(st.sampled_from([None] * 6 + [2, 10, 24, 30])),
                # delay, target (default: this one), type (default: the awaited one), parity, unsolicited socket, twice
                "messages": draw(st.lists(messages, max_size=3)),
            }
        )
    if draw(st.integers(0, 24)) == 24:
        # many at the same time
        crowd = dict(ops[0], after=0, messages=[], cancel=None, ack=draw(st.sampled_from([["ack", 0], ["ack", 3]])))
        parities = draw(st.sampled_from([[None], [0], [0, 1], [None, 1, 0]]))
        ops[:0] = [dict(crowd, parity=parities[i % len(parities)]) for i in range(draw(st.sampled_from([7, 9, 16, 17, 33])))]
    return {"ops": ops, "batch": draw(st.booleans())}


def strategy():
    return strategy_()


class Request:
    """A request made, and what became of it."""

    def __init__(self, op, start):
        self.op, self.start = op, start
        self.value = self.error = self.end = None


def run(case, rec):
    requests = []
    messages = []  # [time, target, type, value]
    heard = {t: [] for t in TARGETS}
    tick = [0]

    def offset():
        """Every event gets its own place within an eighth of a second."""
        tick[0] += 1
        return tick[0] * TICK

    def script(sim, address, transport, packet):
        if packet.kind != "zip" or packet.command[:2] != b"\x87\x01":
            return False
        request = requests[packet.command[2]]
        plan = request.op["ack"]
        if plan[0] == "ack":
            when = plan[1] * EIGHTH + offset()
            sim.reply(transport, when, wire.ack(packet.seq))
            request.sendEnd = sim.loop.now + when
        elif plan[0] == "queued":
            when = plan[1] * EIGHTH + offset()
            sim.reply(transport, when, wire.waiting(packet.seq, plan[2]))
            when += plan[3] * EIGHTH
            sim.reply(transport, when, wire.ack(packet.seq))
            request.sendEnd = sim.loop.now + when
        else:
            request.sendEnd = sim.loop.now + 3
        request.start = sim.loop.now
        return True

    def emit(sim, op):
        for after, target, kind, parity, unsolicited, *twice in op["messages"]:
            delay = after * EIGHTH + offset()
            # the second one right behind the first
            for _ in range(2 if twice and twice[0] else 1):
                message(sim, delay, target or op["target"], kind or op["type"], parity, unsolicited)

    def message(sim, delay, target, kind, parity, unsolicited):
        value = 2 * len(messages) + parity
        messages.append((sim.loop.now + delay, target, kind, value))
        data = build(kind, {FIELD[kind]: value})
        if target == "gateway":
            sim.reply(sim.gateway_socket(), delay, wire.packet(0, data))
            return
        nodeId, endpoint = map(int, target.split(":"))
        pkt = wire.packet(value, data, source=endpoint)
        if unsolicited:
            sim.unsolicited(delay, sim.nodes[nodeId].address, pkt)
        else:
            sim.reply(sim.node_socket(nodeId), delay, pkt)

    async def perform(loop, speakers, request):
        op = request.op
        speaker = speakers[op["target"]]
        if op.get("class") and op["target"] != "gateway" and op["how"] != "wait":
            # does the same as the node itself
            speaker = next(iter(speaker.supported.values()))
        waitFor = find_class(op["type"])
        kwargs = {} if op["timeout"] is None else {"timeout": op["timeout"] * EIGHTH}
        if op["parity"] is not None and op["target"] != "gateway" and op["how"] == "request":
            kwargs["matches"] = lambda report: int(getattr(report, FIELD[op["type"]])) % 2 == op["parity"]
        try:
            if op["how"] == "wait":
                answer = await speaker.waitForMessage(waitFor, **kwargs)
            elif op["how"] == "unsendable":
                answer = await speaker.sendAndReceive(Indicator.Set(), waitFor, **kwargs)
            else:
                answer = await speaker.sendAndReceive(construct("Indicator.Set", {"value": requests.index(request)}), waitFor, **kwargs)
            request.value = answer
        except asyncio.TimeoutError:
            request.error = "timeout"
        except asyncio.CancelledError:
            request.error = "cancelled"
        except AttributeError:
            request.error = "refused"
            require(op["how"] == "unsendable", "a request raised an AttributeError")
        request.end = loop.now

    async def main(loop):
        nodes = [
            SimNode(5, b"\x60\x20\x80", endpoints=[(16, 1, b"\x25\x20")]),
            SimNode(6, b"\x25"),
        ]
        sim = Sim(loop, nodes)
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        app = Application(gateway, PersistantStorage())
        await app.startup()
        require(set(app.nodes) == {"5:0", "5:1", "6:0"}, "nodes after startup are %s", sorted(app.nodes))
        speakers = dict(app.nodes, gateway=gateway)
        loop.batch = case.get("batch", False)
        for nodeId in ("5:0", "6:0"):
            await app.nodes[nodeId].send(construct("Basic.Get", {}))

        class Hears:
            """Takes what nobody waited for."""

            def __init__(self, target):
                self.target = target

            async def onMessage(self, _speaker, message):
                heard[self.target].append(message)

            async def messageReceived(self, _speaker, message):
                heard[self.target].append(message)

        for target in TARGETS[1:]:
            app.nodes[target].addListener(Hears(target))
        app.addListener(Hears("gateway"))
        sim.script = script
        await asyncio.sleep(1 - loop.now % 1)
        tasks = []
        for op in case["ops"]:
            await asyncio.sleep(op["after"] * EIGHTH)
            if op["how"] != "nothing":
                request = Request(op, loop.now)
                request.sendEnd = loop.now
                requests.append(request)
                task = asyncio.ensure_future(perform(loop, speakers, request))
                tasks.append(task)
                if op["cancel"] is not None:
                    loop.call_later(op["cancel"] * EIGHTH + TICK / 2, task.cancel)
                for _ in range(12):
                    await asyncio.sleep(0)
            emit(sim, op)
        await asyncio.gather(*tasks)
        await asyncio.sleep(120)

    vloop.run(main)
    check(rec, requests, messages, heard)


def check(rec, requests, messages, heard):
    for request in requests:
        op = request.op
        timeout = 3 if op["timeout"] is None else op["timeout"] * EIGHTH
        if op["how"] == "unsendable":
            request.limit = request.start
        elif op["target"] != "gateway" and op["ack"][0] == "lost" and op["how"] == "request":
            request.limit = request.sendEnd
        else:
            request.limit = request.sendEnd + timeout
        request.cancelled = None if op["cancel"] is None else request.start + op["cancel"] * EIGHTH + TICK / 2
        request.reply = None
    unsolicited = {t: [] for t in TARGETS}
    for when, target, kind, value in sorted(messages, key=lambda m: m[0]):
        taken = False
        for request in requests:
            op = request.op
            if (op["target"], op["type"]) != (target, kind):
                continue
            if op["parity"] is not None and op["target"] != "gateway" and op["how"] == "request" and value % 2 != op["parity"]:
                continue
            if not request.start < when < request.limit:
                if when > request.limit:
                    rec.label("message after the end")
                    rec.nontrivial()
                continue
            if request.cancelled is not None and when > request.cancelled:
                rec.label("message after being cancelled")
                rec.nontrivial()
                continue
            if request.reply is not None:
                continue
            if taken:
                rec.label("several take a message")
                rec.nontrivial()
            request.reply = (when, value)
            taken = True
            if when < request.sendEnd:
                rec.label("reply before acknowledgement")
                rec.nontrivial()
        if not taken:
            unsolicited[target].append((kind, value))
        rec.label("message taken" if taken else "message unsolicited")
    for i, request in enumerate(requests):
        op = request.op
        what = "request %d to %s for %s made at %s" % (i, op["target"], op["type"], request.start)
        outcome = request.error or "answered"
        rec.label("%s %s" % (op["how"], outcome))
        if op["how"] == "unsendable":
            same(request.error, "refused", what)
            continue
        done = None if request.reply is None else max(request.reply[0], request.sendEnd)
        over = request.limit if done is None else done
        if request.cancelled is not None and request.cancelled < over:
            # a reply that was there when the cancellation came may still be returned
            same(request.error, "cancelled", what)
            same(request.end, request.cancelled, "end of " + what)
            continue
        lost = op["target"] != "gateway" and op["ack"][0] == "lost" and op["how"] == "request"
        if request.reply is None or (lost and request.error):
            require(request.error == "timeout", "%s: nothing arrived in time but it %s", what, request.error or "returned %s" % request.value)
            same(request.end, request.limit, "end of " + what)
            continue
        require(request.error is None, "%s: %s although %s arrived at %s", what, request.error, request.reply[1], request.reply[0])
        with observing(what):
            require(type(request.value) is find_class(op["type"]), "%s returned %r", what, request.value)
            same(int(getattr(request.value, FIELD[op["type"]])), request.reply[1], "value returned by %s", what)
        require(request.reply[0] <= request.end <= done, "%s ended at %s, the reply came at %s", what, request.end, request.reply[0])
    for target in TARGETS:
        with observing("what listeners heard"):
            actual = [("%s.%s" % (type(m).__module__.split(".")[-1], type(m).__name__)) for m in heard[target]]
            actual = [(kind, int(getattr(m, FIELD[kind]))) for kind, m in zip(actual, heard[target])]
        same(actual, unsolicited[target], "messages of %s delivered to its listeners", target)
    for i, a in enumerate(requests):
        for b in requests[i + 1 :]:
            if (a.op["target"], a.op["type"]) == (b.op["target"], b.op["type"]) and b.start < (a.end or 0):
                rec.label("overlapping requests")
                rec.nontrivial()
