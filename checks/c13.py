"""A node routes each command to its command class handler, then its listeners."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop
from lib.core import observing, require, same
from lib.layout import LAYOUT, build, message_strategy
from lib.states import AGI, ASSOCIATION, BASIC, BATTERY, CONFIGURATION, METER, SENSOR, VERSION, ZWAVEPLUS, read, state_of, content
from pyzwave.commandclass import CommandClass, Configuration, ZWaveCommandClass, ZWaveMessage, ZWaveMessageHandler, cmdClasses
from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint
from pyzwave.types import uint8_t

PROPERTY = "C13"
RULE = """A case is a node with built-in command classes and with classes of the user (some derived from others, with
handlers of their own), listeners with any methods and any answers on the classes and on the node, what the node
announced about its sensors, and a sequence of commands, some of them awaited by a request.  Which handlers and
listeners were called, in which order and with what, and whether the command counts as handled, is compared with a
routing model; nobody of a second, equal node may be called.  Non-trivial: a command reaches a handler or a listener
of a class."""
QUICK = 400
THOROUGH = 25000

FIRST, SECOND, DERIVED, QUIRK = 0x9A, 0x9B, 0x9C, 0x9D
BUILTIN = [SENSOR, SENSOR, SENSOR, SENSOR, CONFIGURATION, AGI, BASIC, BATTERY, METER, VERSION, ASSOCIATION, ZWAVEPLUS, 0x25, 0x22, 0x58, 0x69, 0x72, 0x87]
OWN = [FIRST, SECOND, DERIVED, QUIRK]
NAMES = [n for n, (hid, _) in LAYOUT.items() if hid >> 8 in BUILTIN]
# command class, command, name of the method of listeners
OWN_COMMANDS = [
    (FIRST, 1, "onReport"), (FIRST, 2, "onTheOtherReport"), (SECOND, 1, "onReport"), (SECOND, 3, "onUnheardOf"), (SECOND, 4, "onANameOfManyPartsS2Set"),
    (DERIVED, 1, "onReport"), (DERIVED, 2, "onDerivedReport"), (QUIRK, 1, "onQuirkReport"),
]
# commands with a handler, by class
HANDLED = {FIRST: [1, 2], SECOND: [1], DERIVED: [1, 2], QUIRK: [1]}
ANSWERS = st.sampled_from([["sync", True], ["sync", False], ["sync", None], ["sync", 1], ["raises", None], ["async", True], ["async", False], ["async", None]])
CLASS_METHODS = sorted({"on" + n.split(".")[1] for n in NAMES} | {name for _, _, name in OWN_COMMANDS})


def methods(common):
    return st.dictionaries(st.one_of(st.sampled_from(common), st.sampled_from(common), st.sampled_from(CLASS_METHODS)), ANSWERS, min_size=1, max_size=3)


@st.composite
def strategy_(draw):
    classes = draw(st.lists(st.sampled_from(BUILTIN + OWN), min_size=1, max_size=6, unique=True))
    # most of it is about one of them
    focus = draw(st.sampled_from(classes + [SENSOR] * (2 if SENSOR in classes else 0)))
    controlled = draw(st.one_of(st.just([]), st.lists(st.sampled_from(BUILTIN + OWN), max_size=3, unique=True)))
    controlled = [c for c in controlled if c not in classes]
    common_of = focus
    if controlled and draw(st.booleans()):
        # commands of a class the node only controls
        focus = controlled[0]
    names = [n for n in NAMES if LAYOUT[n][0] >> 8 == focus] or ["Basic.Report"]
    common = sorted({"on" + n.split(".")[1] for n in names if LAYOUT[n][0] >> 8 == focus} | {m for c, _, m in OWN_COMMANDS if c == focus}) or ["onReport"]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kinds = ["own"] * 4 if focus in OWN else ["sensor"] * 4 + ["mine"] if focus == SENSOR else ["mine"] * 4
        kind = draw(st.sampled_from(kinds + ["own", "any", "unknown"]))
        if kind == "own":
            cmdClass, cmd, _ = draw(st.sampled_from([c for c in OWN_COMMANDS if c[0] == focus or c[0] in classes and focus not in OWN] or OWN_COMMANDS))
            data = {"raw": bytes([cmdClass, cmd, draw(st.integers(0, 255))]).hex()}
        elif kind == "unknown":
            data = {"raw": bytes([draw(st.sampled_from(classes + [0x98])), draw(st.integers(0xC0, 0xFF))]).hex()}
        elif kind == "sensor":
            data = draw(message_strategy(["SensorMultilevel.Report"]))
            data["fields"]["sensorType"] = draw(st.sampled_from([1, 3, 4, 200]))
        else:
            data = draw(message_strategy(names if kind == "mine" else NAMES))
        ops.append([draw(st.integers(0, 5)) == 0, data])
    return {
        "classes": classes,
        "controlled": controlled,
        "endpoint": draw(st.booleans()),
        "version": draw(st.sampled_from([0, 4, 4, 5, 5, 6, 11, 12, 255])),
        "sensors": draw(st.dictionaries(st.sampled_from(["1", "3", "4", "200"]), st.sampled_from([0, 1, 2, 5, 7, 8, 10, 15, 15]), min_size=2, max_size=4)),
        "groups": draw(content(AGI)),
        "handlers": {"%d:%d" % (c, cmd): draw(st.sampled_from([True, False, None, False])) for c, cmds in HANDLED.items() for cmd in cmds},
        "listeners": draw(
            st.lists(
                st.tuples(st.sampled_from([common_of] * 4 + classes), methods(common)).map(list),
                max_size=5,
            )
        ),
        "general": draw(st.lists(ANSWERS, max_size=3)),
        "ops": ops,
    }


def strategy():
    return strategy_()


LOG = []
ANSWER = {}


def make_message(cmdClass, cmd, name):
    @ZWaveMessage(cmdClass, cmd)
    class Own(Message):
        NAME = name
        attributes = (("value", uint8_t),)

    return Own


class Register:
    """The user's command classes, known to the library as long as a case runs."""

    def __enter__(self):
        self.messages = dict(ZWaveMessage), dict(ZWaveMessage.reverseMapping)
        self.classes = dict(ZWaveCommandClass), dict(ZWaveCommandClass.reverseMapping), dict(cmdClasses)
        firstReport, firstOther = make_message(FIRST, 1, "REPORT"), make_message(FIRST, 2, "THE_OTHER_REPORT")
        secondReport = make_message(SECOND, 1, "REPORT")
        make_message(SECOND, 3, "UNHEARD_OF")
        make_message(SECOND, 4, "A_NAME_OF_MANY_PARTS_S2_SET")
        derivedReport, derivedOther = make_message(DERIVED, 1, "REPORT"), make_message(DERIVED, 2, "DERIVED_REPORT")
        quirkReport = make_message(QUIRK, 1, "QUIRK_REPORT")

        def record(obj, cmdClass, cmd, message, flags):
            LOG.append(("handler", "%d:%d" % (cmdClass, cmd), obj, message, flags))
            return ANSWER["%d:%d" % (cmdClass, cmd)]

        @ZWaveCommandClass(FIRST)
        class First(CommandClass):
            NAME = "FIRST"

            @ZWaveMessageHandler(firstReport)
            async def __report__(self, message, flags):
                return record(self, FIRST, 1, message, flags)

            @ZWaveMessageHandler(firstOther)
            async def __other__(self, message, flags):
                await asyncio.sleep(0)
                return record(self, FIRST, 2, message, flags)

        @ZWaveCommandClass(SECOND)
        class Second(CommandClass):
            NAME = "SECOND"

            @ZWaveMessageHandler(secondReport)
            async def __report__(self, message, flags):
                return record(self, SECOND, 1, message, flags)

        @ZWaveCommandClass(DERIVED)
        class Derived(First):
            NAME = "DERIVED"

            @ZWaveMessageHandler(derivedReport)
            async def __report__(self, message, flags):
                return record(self, DERIVED, 1, message, flags)

            @ZWaveMessageHandler(derivedOther)
            async def __other__(self, message, flags):
                return record(self, DERIVED, 2, message, flags)

            # What a class does with this is its own business
            @ZWaveMessageHandler(firstReport)
            async def __first__(self, message, flags):
                return record(self, DERIVED, 99, message, flags)

        @ZWaveCommandClass(QUIRK)
        class Quirk(Configuration.Configuration):
            NAME = "QUIRK"

            @ZWaveMessageHandler(quirkReport)
            async def __quirk__(self, message, flags):
                return record(self, QUIRK, 1, message, flags)

            @ZWaveMessageHandler(Configuration.Report)
            async def __report__(self, message, flags):
                return record(self, QUIRK, 99, message, flags)

        self.types = First, Second, Derived, Quirk
        return self

    def __exit__(self, *_args):
        for current, before in zip((ZWaveMessage, ZWaveMessage.reverseMapping), self.messages):
            current.clear()
            current.update(before)
        for current, before in zip((ZWaveCommandClass, ZWaveCommandClass.reverseMapping, cmdClasses), self.classes):
            current.clear()
            current.update(before)


def make_method(who, name, kind, answer):
    def called(speaker, args):
        LOG.append(("listener", (who, name), speaker) + args)
        if kind == "raises":
            raise RuntimeError("a listener went wrong")
        return answer

    if kind == "async":
        async def method(speaker, *args):
            return called(speaker, args)
    else:
        def method(speaker, *args):
            return called(speaker, args)
    return method


class Hears:
    def __init__(self, who, answers):
        for name, (kind, answer) in answers.items():
            setattr(self, name, make_method(who, name, kind, answer))


def command_of(data):
    """(bytes, class, command, method name, layout name)"""
    if "raw" in data:
        raw = bytes.fromhex(data["raw"])
        names = [name for c, cmd, name in OWN_COMMANDS if (c, cmd) == (raw[0], raw[1])]
        return raw, raw[0], raw[1], names[0] if names else None, None
    raw = build(data["name"], data["fields"])
    return raw, raw[0], raw[1], "on" + data["name"].split(".")[1], data["name"]


def truthy(answers):
    return any(kind != "raises" and answer for kind, answer in answers)


class Adapter:
    async def sendToNode(self, _nodeId, _cmd, **_kwargs):
        return True


def run(case, rec):
    del LOG[:]
    ANSWER.clear()
    ANSWER.update(case["handlers"])
    ANSWER.update({"%d:99" % c: True for c in (DERIVED, QUIRK)})

    def make():
        classes = list(case["classes"])
        if case.get("controlled"):
            classes += [0xEF] + case["controlled"]
        root = Node(5, Adapter(), list(classes))
        node = NodeEndPoint(root, 1, Adapter(), list(classes)) if case["endpoint"] else root
        if SENSOR in case["classes"]:
            node.supported[SENSOR].__setstate__(state_of(SENSOR, {"version": case["version"], "interviewed": True, "content": case["sensors"]}))
        if AGI in case["classes"]:
            node.supported[AGI].__setstate__(state_of(AGI, {"version": 1, "interviewed": True, "content": case["groups"]}))
        return node

    async def main(loop):  # pylint: disable=unused-argument
        node, other = make(), make()
        for target, prefix in ((node, ""), (other, "other ")):
            for i, (cmdClass, answers) in enumerate(case["listeners"]):
                target.supported[cmdClass].addListener(Hears(prefix + "%d" % i, answers))
            for i, answers in enumerate(case["general"]):
                target.addListener(Hears(prefix + "general %d" % i, {"onMessage": answers}))
        for awaited, data in case["ops"]:
            raw, cmdClass, cmd, method, name = command_of(data)
            message = Message.decode(raw)
            flags = object()
            waiting = None
            if awaited:
                waiting = asyncio.ensure_future(node.waitForMessage(message, timeout=3))
                for _ in range(5):
                    await asyncio.sleep(0)
                rec.label("awaited")
            del LOG[:]
            result = await node.handleMessage(message, flags)
            for _ in range(5):
                await asyncio.sleep(0)
            what = "%s for a node with %s" % (raw.hex(), ", ".join("0x%02x" % c for c in case["classes"]))
            expected = compare(case, node, rec, message, flags, awaited, cmdClass, cmd, method, name, data, what)
            require(bool(result) is expected, "handled: %s counts as %r", what, result)
            if waiting:
                require(await waiting is message, "the request for %s got another message", what)
        return node, other

    with Register():
        vloop.run(main)


def compare(case, node, rec, message, flags, awaited, cmdClass, cmd, method, name, data, what):
    wanted = []
    done = False
    if cmdClass in case["classes"]:
        obj = node.supported[cmdClass]
        key = "%d:%d" % (cmdClass, cmd)
        if key in case["handlers"]:
            wanted.append(("handler", key, obj))
            done = bool(case["handlers"][key])
            rec.nontrivial()
            rec.label("handler of the user")
        elif name == "SensorMultilevel.Report" and case["version"] >= 5:
            fields = data["fields"]
            scales = case["sensors"].get(str(fields["sensorType"]), 0)
            done = not scales >> scale_of(fields) & 1
            rec.label("sensor suppressed" if done else "sensor announced")
            rec.nontrivial()
        elif name == "SensorMultilevel.Report":
            rec.label("sensor of an old version")
        elif name in ("Configuration.Report", "AssociationGrpInfo.GroupNameReport", "AssociationGrpInfo.GroupCommandListReport", "AssociationGrpInfo.GroupInfoReport"):
            done = True
            rec.label("built-in handler")
        if not done and method is not None:
            mine = [(i, answers[method]) for i, (c, answers) in enumerate(case["listeners"]) if c == cmdClass and method in answers]
            wanted += [("listener", ("%d" % i, method), obj) for i, _ in mine]
            if mine:
                rec.label("listener of the class")
                rec.nontrivial()
            done = truthy([answers for _, answers in mine])
    if not done and not awaited:
        wanted += [("listener", ("general %d" % i, "onMessage"), node) for i in range(len(case["general"]))]
        rec.label("general listeners asked")
        done = truthy(case["general"])
    # asynchronous listeners run after all have been called
    same(sorted(e[1] if isinstance(e[1], str) else " ".join(e[1]) for e in LOG), sorted(w[1] if isinstance(w[1], str) else " ".join(w[1]) for w in wanted), "called for %s", what)
    order = {"handler": 0, "listener": 1}
    ranks = [order[e[0]] if e[0] == "handler" or not e[1][0].startswith("general") else 2 for e in LOG]
    require(ranks == sorted(ranks), "wrong order for %s: %s", what, [e[1] for e in LOG])
    for event in LOG:
        with observing("a call for %s" % what):
            obj = next(w[2] for w in wanted if w[1] == event[1])
            require(event[2] is obj, "%s of %s was called by %r", event[1], what, event[2])
            require(event[3] is message, "%s of %s got another message", event[1], what)
            if event[0] == "handler" or not event[1][0].startswith("general"):
                require(event[4] is flags, "%s of %s got the flags %r", event[1], what, event[4])
    if name == "Configuration.Report" and CONFIGURATION in case["classes"]:
        number, (size, value) = data["fields"]["parameterNumber"], data["fields"]["value"]
        same(read(CONFIGURATION, node.supported[CONFIGURATION]).get(str(number)), [value, size], "parameter %d after %s", number, what)
    return bool(done or awaited)


def scale_of(fields):
    return fields["sensorValue"][1]
