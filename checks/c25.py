"""Configuration parameters are read, cached and set per parameter number."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import observing, require, same
from lib.device import DeviceAdapter
from lib.layout import build, edge_ints
from lib.states import CONFIGURATION
from pyzwave.commandclass import Configuration
from pyzwave.node import Node, NodeEndPoint

PROPERTY = "C25"
RULE = """A case is a node that may know parameters (up to all 256) from an earlier life and a history of reads (cached or fresh, some of
them cancelled), writes and reports nobody asked for, at any pace so that they overlap; every request is answered with
any reports at any time, also about other parameters, cut short, too late, or is not acknowledged.  What was sent, the
values returned, the parameters known and what was known at each signal for storage are compared with a reference
model.  Non-trivial: a read while something is asked of the node, and a report."""
ASSUMPTIONS = ["sizes are 1, 2 or 4 bytes", "when several reports arrive between a request and its end any of them may be returned"]
QUICK = 380
THOROUGH = 40000

NUMBERS = st.one_of(st.sampled_from([1, 1, 1, 2, 2, 255, 0]), st.integers(0, 255))
SIZED = st.sampled_from([1, 2, 4]).flatmap(lambda s: st.tuples(st.just(s), edge_ints(0, (1 << 8 * s) - 1))).map(list)
REPLY = st.tuples(st.sampled_from([1, 1, 2, 8, 16, 25, 40]), st.sampled_from(["own", "own", "own", "own", "other", "short", "no value"]), SIZED).map(list)
SENDING = st.tuples(st.sampled_from([True, True, True, True, False]), st.sampled_from([0, 0, 0, 4, 20])).map(list)


@st.composite
def strategy_(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        gap = draw(st.sampled_from([0, 0, 1, 4, 8, 30, 60]))
        kind = draw(st.sampled_from(["get", "get", "get", "report", "set"]))
        if kind == "get":
            cancel = draw(st.sampled_from([None, None, None, None, 1, 6, 20]))
            ops.append([gap, "get", draw(NUMBERS), draw(st.sampled_from([True, False, None])), draw(SENDING), draw(st.lists(REPLY, max_size=3)), cancel])
        elif kind == "report":
            ops.append([gap, "report", draw(NUMBERS), draw(st.sampled_from(["own", "own", "own", "short", "no value"])), draw(SIZED)])
        else:
            ops.append([gap, "set", draw(NUMBERS), draw(SIZED), draw(SENDING)])
    if draw(st.integers(0, 15)) == 0:
        # the whole configuration of a node
        first, size, seed = draw(st.integers(0, 255)), draw(SIZED)[0], draw(st.integers(0, 255))
        at = draw(st.integers(0, len(ops)))
        ops[at:at] = [
            [0, "report", (first + i) & 0xFF, "own", [size, (seed * 65537 + 4099 * i) % (1 << 8 * size)]] for i in range(draw(st.sampled_from([16, 33, 65, 101, 129, 256])))
        ]
    return {"endpoint": draw(st.booleans()), "known": draw(st.one_of(st.just({}), states.content(CONFIGURATION))), "ops": ops}


def strategy():
    return strategy_()


def report(kind, number, sized):
    data = build("Configuration.Report", {"parameterNumber": number ^ 1 if kind == "other" else number, "-1": 0, "value": sized})
    return data[: {"short": 3, "no value": 4}.get(kind, len(data))]


def run(case, rec):
    async def main(loop):
        adapter = DeviceAdapter({})
        node, other = Node(5, adapter, [CONFIGURATION]), Node(6, adapter, [CONFIGURATION])
        if case["endpoint"]:
            node = NodeEndPoint(other, 2, adapter, [CONFIGURATION])
        obj = node.supported[CONFIGURATION]
        start = states.wanted(CONFIGURATION, case["known"])
        for each in (node, other):
            each.supported[CONFIGURATION].__setstate__(states.state_of(CONFIGURATION, {"version": 1, "interviewed": True, "content": case["known"]}))
        model = {k: list(v) for k, v in start.items()}
        history = []  # (time, number, value) of every report
        signals = []
        sending = {}  # bytes: [(ack, delay, replies)] in the order of the calls
        wanted = []

        class Storage:
            def nodeUpdated(self, speaker):
                signals.append((speaker, states.read(CONFIGURATION, obj)))

        node.addListener(Storage())
        other.addListener(Storage())

        def script(nodeId, endpoint, data, _answers):
            same((nodeId, endpoint), (node.rootNodeId, node.endpoint), "node and endpoint a command was sent to")
            todo = sending.get(data.hex())
            require(todo, "sent %s, which nobody asked for", data.hex())
            ack, delay, replies = todo.pop(0)
            return {"ack": ack, "delay": delay, "replies": replies}

        usual = adapter.arrived

        def arrived(nodeId, endpoint, data):
            if len(data) > 4:
                value = int.from_bytes(data[4:], "big")
                model[str(data[2])] = [value, len(data) - 4]
                history.append((loop.now, data[2], value))
                rec.label("reports")
            usual(nodeId, endpoint, data)

        async def deliver(_nodeId, _endpoint, message, flags):
            before = len(signals)
            known = {k: list(v) for k, v in model.items()}
            await node.handleMessage(message, flags)
            if message.value is not None and known == model:
                require(len(signals) > before, "a configuration report was not signalled for storage")
                same(states.read(CONFIGURATION, obj), known, "parameters after a report")

        adapter.arrived, adapter.script, adapter.deliver = arrived, script, deliver

        async def get(index, op):
            _, _, number, cached, (ack, delay), replies, _ = op
            arguments = {} if cached is None else {"cached": cached}
            known = model.get(str(number))
            began = loop.now
            if known is not None and cached is not False:
                rec.label("from the cache")
                value = await obj.get(number, **arguments)
                same(value, known[0], "value of parameter %d from the cache" % number)
                same(loop.now, began, "time when a cached value was returned")
                return
            rec.nontrivial(bool(replies))
            data = build("Configuration.Get", {"parameterNumber": number})
            wanted.append(data.hex())
            arrivals = [(r[0] / 8 + (k + 1) / 65536, report(r[1], number, r[2])) for k, r in enumerate(replies)]
            sending.setdefault(data.hex(), []).append((ack, delay / 8, arrivals))
            value, error = None, None
            try:
                value = await obj.get(number, **arguments)
            except asyncio.TimeoutError:
                error = "timeout"
            deadline = began + delay / 8 + 3
            possible = [v for t, n, v in history if n == number and began < t < deadline and t <= loop.now]
            if not ack or not possible:
                require(error, "parameter %d was read as %r, the node never reported it in time", number, value)
                require(loop.now <= deadline, "gave up too late")
                rec.label("not acknowledged" if not ack else "no answer")
                return
            require(not error, "reading parameter %d timed out, the node reported %s", number, possible)
            require(value in possible, "parameter %d was read as %r, the node reported %s", number, value, possible)
            require(isinstance(value, int) and not isinstance(value, bool), "value is %r", value)
            rec.label("asked")

        async def put(index, op):
            _, _, number, (size, value), (ack, delay) = op
            data = build("Configuration.Set", {"parameterNumber": number, "default": 0, "-2": 0, "value": [size, value]})
            wanted.append(data.hex())
            sending.setdefault(data.hex(), []).append((ack, delay / 8, []))
            result = await obj.set(number, Configuration.Size(size) if index % 2 else size, value)
            require(bool(result) is ack, "set returned %r, acknowledged %r", result, ack)
            rec.label("set")

        tasks = []
        for index, op in enumerate(case["ops"]):
            await asyncio.sleep(op[0] / 8 + 1 / 4096)
            if op[1] == "report":
                arrived(node.rootNodeId, node.endpoint, report(op[3], op[2], op[4]))
                continue
            task = asyncio.ensure_future(get(index, op) if op[1] == "get" else put(index, op))
            if op[1] == "get" and op[6] is not None:
                loop.call_later(op[6] / 8 + 1 / 32768, task.cancel)
            tasks.append(task)
            if any(not t.done() for t in tasks[:-1]):
                rec.label("overlapping")
        for task in tasks:
            try:
                await task
            except asyncio.CancelledError:
                rec.label("cancelled")
        await asyncio.sleep(60)
        with observing("parameters"):
            same(states.read(CONFIGURATION, obj), model, "parameters known in the end")
            states.check_types(CONFIGURATION, obj, "parameters")
            for speaker, _ in signals:
                require(speaker is node, "another node was signalled for storage")
            require(len(signals) >= len(history), "%d reports but %d signals for storage", len(history), len(signals))
            if history:
                same(signals[-1][1], model, "parameters at the last signal for storage")
            same(states.read(CONFIGURATION, other.supported[CONFIGURATION]), start, "parameters of another node")
        same(sorted(d.hex() for _, _, _, d in adapter.sent), sorted(wanted), "commands sent")

    vloop.run(main)
