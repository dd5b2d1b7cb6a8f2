"""Updates are signalled for storage at once, or once when the lock ends."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop
from lib.core import require, same
from lib.layout import construct
from lib.states import AGI, BATTERY, CONFIGURATION, SENSOR, VERSION
from pyzwave.node import Node, NodeEndPoint

PROPERTY = "C15"
RULE = """A case is a set of nodes and endpoints and several concurrent tasks, each a nest of storage locks around
updates of command classes, pauses and further locks; locks end normally, by an exception or by cancelling the task.
After every single step the signals sent so far are compared with a count of the locks held.  Non-trivial: locks of
one node nest or overlap, or one ends by an exception."""
ASSUMPTIONS = ["updates are made by reports and by the notification command classes send"]
QUICK = 450
THOROUGH = 30000
TICK = 1 / 1024

CLASSES = [CONFIGURATION, AGI, SENSOR, VERSION, BATTERY, 0x25]
HOW = st.sampled_from(["class", "class", "configuration report", "group report", "group name"])
ERRORS = {"ValueError": ValueError, "TimeoutError": asyncio.TimeoutError, "KeyError": KeyError, "CancelledError": asyncio.CancelledError, "BaseException": BaseException}


def steps(nodes, depth=0):
    update = st.tuples(st.just("update"), st.integers(0, nodes - 1), HOW, st.integers(0, len(CLASSES) - 1)).map(list)
    pause = st.tuples(st.just("pause"), st.integers(0, 6)).map(list)
    options = [update, update, pause]
    if depth < 3:
        lock = st.tuples(
            st.just("lock"), st.integers(0, nodes - 1), st.sampled_from(["", "", ""] + sorted(ERRORS)), st.deferred(lambda: steps(nodes, depth + 1))
        ).map(list)
        options += [lock, lock]
    return st.lists(st.one_of(options), max_size=4)


@st.composite
def strategy_(draw):
    nodes = draw(st.integers(1, 3))
    return {
        "nodes": nodes,
        "tasks": draw(
            st.lists(st.fixed_dictionaries({"steps": steps(nodes), "cancel": st.one_of(st.none(), st.none(), st.integers(1, 20))}), min_size=1, max_size=3)
        ),
    }


def strategy():
    return strategy_()


class Adapter:
    async def sendToNode(self, _nodeId, _cmd, **_kwargs):
        return True


class Storage:
    def __init__(self, log):
        self.log = log

    def nodeUpdated(self, node):
        self.log.append(node.nodeId)


class Failing:
    def nodeUpdated(self, node):
        raise RuntimeError("cannot store %s" % node.nodeId)


def run(case, rec):
    log, expected = [], []
    depth, dirty = {}, {}

    async def main(loop):
        nodes = [Node(5, Adapter(), list(CLASSES))]
        for i in range(1, case["nodes"]):
            nodes.append(NodeEndPoint(nodes[0], i, Adapter(), list(CLASSES)) if i == 1 else Node(5 + i, Adapter(), list(CLASSES)))
        for node in nodes:
            node.addListener(Failing())
            node.addListener(Storage(log))
            # announced, so that a report about it is an update
            await node.handleMessage(construct_group(), 0)
        del log[:]

        def updated(index, times=1):
            nodeId = nodes[index].nodeId
            if depth.get(nodeId):
                dirty[nodeId] = True
            else:
                expected.extend([nodeId] * times)

        def settled(what):
            same(log, expected, "nodes signalled for storage after %s", what)

        async def perform(task, todo, count):
            for step in todo:
                if step[0] == "pause":
                    count[0] += 1
                    # no two tasks go on at the same time
                    await asyncio.sleep(step[1] / 8 + TICK * (1 + 7 * task + count[0]) / (64 if count[0] > 300 else 1))
                elif step[0] == "update":
                    await update(step)
                    settled("an update of %s" % nodes[step[1]].nodeId)
                else:
                    await locked(task, step, count)

        async def update(step):
            _, index, how, which = step
            node = nodes[index]
            updated(index)
            if how == "class":
                node.supported[CLASSES[which]].speak("commandClassUpdated")
            elif how == "configuration report":
                await node.handleMessage(construct("Configuration.Report", {"parameterNumber": which, "-1": 0, "value": [1, which]}), 0)
            elif how == "group report":
                await node.handleMessage(construct_group(), 0)
            else:
                await node.handleMessage(construct("AssociationGrpInfo.GroupNameReport", {"groupingIdentifier": 1, "name": "a name"}), 0)

        async def locked(task, step, count):
            _, index, ending, todo = step
            nodeId = nodes[index].nodeId
            error = ERRORS[ending]("from inside the lock") if ending else None
            caught = None
            try:
                with nodes[index].storageLock():
                    depth[nodeId] = depth.get(nodeId, 0) + 1
                    rec.nontrivial(depth[nodeId] > 1 or error is not None)
                    if depth[nodeId] > 1:
                        rec.label("nested or overlapping")
                    settled("a lock of %s began" % nodeId)
                    try:
                        await perform(task, todo, count)
                        if error is not None:
                            raise error
                    finally:
                        depth[nodeId] -= 1
                        if not depth[nodeId] and dirty.pop(nodeId, False):
                            expected.append(nodeId)
                            rec.label("signalled at the end")
            except BaseException as raised:  # pylint: disable=broad-except
                if raised is not error:
                    # a cancellation, or a violation
                    if isinstance(raised, asyncio.CancelledError):
                        rec.label("cancelled inside a lock")
                        rec.nontrivial()
                        settled("a lock of %s ended by a cancellation" % nodeId)
                    raise
                caught = raised
            if error is not None:
                require(caught is error, "the lock swallowed %r", error)
                rec.label("ended by an exception")
            settled("a lock of %s ended" % nodeId)

        tasks = []
        for i, task in enumerate(case["tasks"]):
            future = asyncio.ensure_future(perform(i, task["steps"], [i * 100]))
            if task["cancel"] is not None:
                loop.call_later(task["cancel"] / 16 + TICK / 2, future.cancel)
            tasks.append(future)
        for future in tasks:
            try:
                await future
            except asyncio.CancelledError:
                rec.label("cancelled")
        settled("everything")
        # nothing is left behind
        for i, node in enumerate(nodes):
            updated(i)
            node.supported[CONFIGURATION].speak("commandClassUpdated")
            settled("an update of %s after all locks ended" % node.nodeId)

    vloop.run(main)


def construct_group():
    from pyzwave.message import Message  # pylint: disable=import-outside-toplevel

    return Message.decode(bytes.fromhex("590401" + "01000001000000"))
