"""Notifications reach every listener, in order, whatever the others do."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop
from lib.core import require, same
from pyzwave.commandclass import CommandClass
from pyzwave.node import Node
from pyzwave.util import Listenable

PROPERTY = "C20"
RULE = """A case is a set of listeners - with and without the method, synchronous or asynchronous, fast or slow,
answering anything or raising - registered in any order with one or more speakers of different kinds, once or
several times, and a history of speaking and asking with any arguments, one after the other or overlapping.  Who was
called with what, in which order, and the values returned are compared with the registrations.  Non-trivial: three
listeners or more are called, or one of them raises."""
ASSUMPTIONS = ["what asking does when an asynchronous listener raises is left open, except that all are called"]
QUICK = 600
THOROUGH = 30000
EIGHTH = 1 / 8

NAMES = ["onMessage", "nodeUpdated", "report"]
VALUES = st.sampled_from([None, True, False, 0, 1, "", "text", [], [1]])
METHOD = st.one_of(
    st.tuples(st.just("sync"), VALUES, st.just(0)),
    st.tuples(st.just("sync"), VALUES, st.just(0)),
    st.tuples(st.just("sync raises"), st.integers(0, 4), st.just(0)),
    st.tuples(st.just("async"), VALUES, st.integers(0, 12)),
    st.tuples(st.just("async"), VALUES, st.integers(0, 12)),
    st.tuples(st.just("async raises"), st.integers(0, 4), st.integers(0, 12)),
).map(list)
ERRORS = [ValueError, RuntimeError, KeyError, AttributeError, asyncio.TimeoutError]
SPEAKERS = ["plain", "node", "command class"]


@st.composite
def strategy_(draw):
    listeners = draw(st.lists(st.dictionaries(st.sampled_from(NAMES), METHOD, max_size=3), min_size=1, max_size=6))
    if draw(st.integers(0, 14)) == 0:
        # many of them
        listeners = listeners * draw(st.integers(2, 16))
    speakers = draw(st.lists(st.sampled_from(SPEAKERS), min_size=1, max_size=2))
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(["add", "add", "add", "speak", "ask", "ask", "ask together"]))
        speaker = draw(st.integers(0, len(speakers) - 1))
        if kind == "add":
            ops.append([kind, speaker, draw(st.integers(0, len(listeners) - 1))])
        else:
            ops.append([kind, speaker, draw(st.sampled_from(NAMES)), draw(st.integers(0, 3))])
    ops += [["ask", 0, draw(st.sampled_from(NAMES)), 1]]
    return {"listeners": listeners, "speakers": speakers, "ops": [["add", 0, i] for i in range(len(listeners))] + ops}


def strategy():
    return strategy_()


class Values:
    """Holds a value so that its identity can be checked."""

    def __init__(self, value):
        self.value = value


def make_listener(index, methods, log):
    class Hears:
        pass

    listener = Hears()
    for name, (kind, value, delay) in methods.items():
        setattr(listener, name, make_method(index, name, kind, value, delay, log))
    return listener


def make_method(index, name, kind, value, delay, log):
    if kind == "sync":
        def method(speaker, *args):
            log.append(("sync", index, name, speaker, args))
            return value
    elif kind == "sync raises":
        def method(speaker, *args):
            log.append(("sync", index, name, speaker, args))
            raise ERRORS[value]("a listener went wrong")
    elif kind == "async":
        async def method(speaker, *args):
            log.append(("async", index, name, speaker, args))
            if delay:
                await asyncio.sleep(delay * EIGHTH)
            log.append(("done", index, name, speaker, args))
            return value
    else:
        async def method(speaker, *args):
            log.append(("async", index, name, speaker, args))
            if delay:
                await asyncio.sleep(delay * EIGHTH)
            log.append(("done", index, name, speaker, args))
            raise ERRORS[value]("a listener went wrong")
    return method


def make_speaker(kind):
    if kind == "node":
        return Node(2, None, [])
    if kind == "command class":
        # without the node as listener
        return CommandClass(False, None)
    return Listenable()


def run(case, rec):
    async def main(loop):  # pylint: disable=unused-argument
        log = []
        listeners = [make_listener(i, methods, log) for i, methods in enumerate(case["listeners"])]
        speakers = [make_speaker(kind) for kind in case["speakers"]]
        registered = [[] for _ in speakers]
        together = []
        for op in case["ops"]:
            if op[0] == "add":
                speakers[op[1]].addListener(listeners[op[2]])
                registered[op[1]].append(op[2])
                continue
            _, at, name, count = op
            args = tuple(Values(i) for i in range(count))
            wanted = [(i, case["listeners"][i][name]) for i in registered[at] if name in case["listeners"][i]]
            rec.nontrivial(len(wanted) > 2 or any(k.endswith("raises") for _, (k, _, _) in wanted))
            rec.label("listeners called", len(wanted))
            what = "%s %s to %s" % (op[0], name, ", ".join("%d (%s)" % (i, m[0]) for i, m in wanted))
            begin = len(log)
            if op[0] == "speak":
                futures = speakers[at].speak(name, *args)
                check_calls([e for e in log[begin:] if e[0] == "sync"], [w for w in wanted if w[1][0].startswith("sync")], name, speakers[at], args, what)
                results = await asyncio.gather(*futures, return_exceptions=True)
                check_values([r for r in results if not isinstance(r, BaseException)], wanted, what)
                same(len([r for r in results if isinstance(r, BaseException)]), len([w for w in wanted if w[1][0] == "async raises"]), "errors of %s", what)
            elif op[0] == "ask":
                await asking(speakers[at], name, args, wanted, what)
                # an asynchronous listener that raised ends the wait
                await asyncio.sleep(2 if any(m[0] == "async raises" for _, m in wanted) else 0)
            else:
                together.append((asyncio.ensure_future(asking(speakers[at], name, args, wanted, what)), speakers[at], name, args, wanted, what))
                await asyncio.sleep(0)
                rec.label("overlapping")
                continue
            calls = [e for e in log[begin:] if e[4] and e[4] == args or not args and not e[4]]
            if not args and together:
                # cannot be told from the ones that overlap
                continue
            check_calls([e for e in calls if e[0] == "sync"], [w for w in wanted if w[1][0].startswith("sync")], name, speakers[at], args, what)
            check_calls([e for e in calls if e[0] == "async"], [w for w in wanted if w[1][0].startswith("async")], name, speakers[at], args, what)
            same(len([e for e in calls if e[0] == "done"]), len([w for w in wanted if w[1][0].startswith("async")]), "listeners finished when %s was over", what)
        for task, speaker, name, args, wanted, what in together:
            await task
            await asyncio.sleep(2)
            if args:
                calls = [e for e in log if e[4] == args]
                check_calls([e for e in calls if e[0] == "sync"], [w for w in wanted if w[1][0].startswith("sync")], name, speaker, args, what)
                check_calls([e for e in calls if e[0] == "async"], [w for w in wanted if w[1][0].startswith("async")], name, speaker, args, what)

    vloop.run(main, allow_failures=True)


async def asking(speaker, name, args, wanted, what):
    raising = [m for _, m in wanted if m[0] == "async raises"]
    try:
        values = await speaker.ask(name, *args)
    except tuple(ERRORS) as error:
        require(raising, "%s raised %r", what, error)
        return
    check_values(values, wanted, what)


def check_values(values, wanted, what):
    expected = [m[1] for _, m in wanted if m[0] in ("sync", "async")]
    require(isinstance(values, list), "%s returned %r", what, values)
    same(values, expected, "values returned by %s", what)
    for actual, value in zip(values, expected):
        require(actual is value or actual == value and type(actual) is type(value), "%s returned %r for %r", what, actual, value)


def check_calls(calls, wanted, name, speaker, args, what):
    same([e[1] for e in calls], [i for i, _ in wanted], "listeners called by %s", what)
    for event in calls:
        same(event[2], name, "the method called by %s", what)
        require(event[3] is speaker, "%s passed %r as speaker", what, event[3])
        require(len(event[4]) == len(args) and all(a is b for a, b in zip(event[4], args)), "%s passed %r", what, event[4])
