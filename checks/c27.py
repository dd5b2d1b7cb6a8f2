"""Every message can be shown as text."""
from lib import bootstrap  # noqa: F401  isort:skip
import copy
import re

from hypothesis import strategies as st

from pyzwave.commandclass import CommandClass
from lib import layout, states, wire
from lib.core import Violation, observing, require, same
from pyzwave.message import Message
from pyzwave.types import dsk_t

PROPERTY = "C27"
RULE = """A case is a frame of any message type (also shortened, without a message type or within
several wrappers) and the same frame
with one field changed, a message built from values (possibly with fields left out), a command class in
a generated state, or a key.  Text forms must not raise; the debug text must name the command and the
fields that are set, must differ when a field value differs, and showing must change nothing.  Non-trivial: a
message with at least one field set, or a command class with learned content."""
ASSUMPTIONS = ["two values of a field are told apart by their text; the scale of a decimal value is not part of its text"]
QUICK = 1200
THOROUGH = 50000


@st.composite
def frames(draw):
    case = draw(layout.message_strategy(layout.LAYOUT))
    cuts = layout.boundaries(case["name"], case["fields"])
    case["cut"] = draw(st.one_of(st.none(), st.none(), st.sampled_from(cuts)))
    fields = [(k, f) for k, f in zip(layout.keys_of(case["name"]), layout.FIELDS[case["name"]]) if f.checked]
    if fields:
        key, field = draw(st.sampled_from(fields))
        case["change"] = [key, draw(field.strategy())]
    case["kind"] = "frame"
    return case


@st.composite
def built(draw):
    case = draw(layout.composable_messages())
    count = len(layout.arguments(case["name"], case["fields"]))
    case["unset"] = draw(st.lists(st.integers(0, max(0, count - 1)), max_size=2))
    case["kind"] = "built"
    return case


@st.composite
def nested(draw):
    """A message within others, and with one field changed."""
    case = draw(frames())
    case["kind"], case["cut"] = "nested", None
    case["within"] = draw(st.lists(st.sampled_from(["packet", "supervised"]), min_size=1, max_size=6))
    return case


@st.composite
def command_classes(draw):
    ident = draw(st.one_of(st.sampled_from(states.STATEFUL), st.integers(0, 255)))
    return {"kind": "class", "id": ident, "s0": draw(st.booleans()), "learned": draw(st.one_of(st.none(), states.contents(ident)))}


def strategy():
    unknown = st.fixed_dictionaries({"kind": st.just("raw"), "data": st.binary(max_size=12).map(bytes.hex)})
    keys = st.fixed_dictionaries(
        {"kind": st.just("key"), "data": st.one_of(st.just(""), st.binary(min_size=16, max_size=16).map(bytes.hex))}
    )
    return st.one_of(frames(), frames(), frames(), built(), nested(), command_classes(), unknown, keys)


def show(obj, what):
    """(text, debug text)"""
    try:
        text = str(obj)
        rep = repr(obj)
        debug = obj.debugString() if hasattr(obj, "debugString") else text
        nested = obj.debugString(2) if hasattr(obj, "debugString") else text
        formatted = "%s" % (obj,) + "{}".format(obj)
    except Exception as error:
        raise Violation("showing %s raises %s: %s" % (what, type(error).__name__, error)) from error
    for item in (text, rep, debug, nested, formatted):
        require(isinstance(item, str), "showing %s gives %r", what, item)
    return text, debug


def plain(obj):
    """What would be stored of a command class."""
    with observing("the state of a command class"):
        return copy.deepcopy(obj.__getstate__())


def message_text(message, what):
    text, debug = show(message, what)
    with observing(what):
        if message.NAME:
            require(message.NAME in text, "the text %r of %s does not name the command", text, what)
            require(message.NAME in debug, "the debug text %r of %s does not name the command", debug, what)
    again = show(message, what)
    same(again, (text, debug), "%s shown a second time" % what)
    return debug


def wrapped_text(data, within, what):
    """Debug text of a frame within others."""
    for i, kind in enumerate(reversed(within)):
        if kind == "supervised" and len(data) < 256:
            data = bytes([0x6C, 0x01, i, len(data)]) + data
        else:
            data = wire.packet(i, data)
    return message_text(Message.decode(data), what)


def changed(case):
    """The same message with one field changed, or None if the value is the same to a user."""
    key, value = case["change"]
    fields = dict(case["fields"])
    field = dict(zip(layout.keys_of(case["name"]), layout.FIELDS[case["name"]]))[key]
    old = field.expect(fields[key], fields)
    fields[key] = value
    new = field.expect(value, fields)
    if isinstance(field, layout.Decimal):
        old, new = old[0], new[0]
    if isinstance(field, layout.Command):
        # nested messages have fields of their own; a different kind of message is enough here
        if case["fields"][key]["name"] == value["name"]:
            return None
    if repr(old) == repr(new):
        return None
    return fields


def run(case, rec):
    kind = case["kind"]
    rec.label(kind)
    if kind == "key":
        key = dsk_t(bytes.fromhex(case["data"]))
        show(key, "key %s" % case["data"])
        rec.nontrivial(case["data"])
        return
    if kind == "class":
        ident, learned = case["id"], case["learned"]
        obj = CommandClass.load(ident, case["s0"], None)
        fresh = plain(obj)
        show(obj, "a new command class %02x" % ident)
        same(plain(obj), fresh, "the state of a new command class %02x after showing it", ident)
        if learned:
            obj.__setstate__(states.state_of(ident, learned))
            before = states.read(ident, obj)
            kept = plain(obj)
            show(obj, "command class %02x with %s" % (ident, learned))
            same(plain(obj), kept, "the state of command class %02x after showing it", ident)
            with observing("reading command class %02x" % ident):
                same(states.read(ident, obj), before, "command class %02x after showing it" % ident)
                require(isinstance(obj.name, str), "name of command class %02x is %r", ident, obj.name)
            rec.nontrivial(learned["content"])
        return
    if kind == "raw":
        try:
            message = Message.decode(bytes.fromhex(case["data"]))
        except Exception:  # pylint: disable=broad-except
            rec.label("undecodable")
            return
        debug = message_text(message, "the message decoded from %s" % case["data"])
        hid = message.hid()
        if hid not in layout.HIDS:
            with observing("text of an unknown message"):
                numbers = re.findall(r"0x[0-9A-Fa-f]+", debug)
                require("0x%02X" % (hid & 0xFF) in debug or numbers, "debug text %r of an unknown message lacks its number", debug)
        return
    name, fields = case["name"], case["fields"]
    if kind == "nested":
        data, number = layout.build(name, fields), 0
        inner = "%s with %s within %s" % (name, data.hex(), case["within"])
        debug = wrapped_text(data, case["within"], inner)
        named = layout.find_class(name).NAME or ""
        require(named in debug, "the debug text %r of %s does not name the command", debug, inner)
        message = Message.decode(data)
        for field in layout.FIELDS[name]:
            if field.checked and not layout.unset(getattr(message, field.name), field):
                require(field.name in debug, "the debug text %r of %s does not name %s", debug, inner, field.name)
                number += 1
        if "change" in case:
            other = changed(case)
            if other is not None:
                second = wrapped_text(layout.build(name, other), case["within"], inner)
                require(second != debug, "the debug text of %s does not show that %s is not %s", inner, case["change"][0], case["change"][1])
                rec.label("told apart")
        rec.nontrivial(number)
        return
    if kind == "built":
        arguments = [a for i, a in enumerate(layout.arguments(name, fields)) if i not in case["unset"]]
        message = layout.find_class(name)(**dict(arguments))
        debug = message_text(message, "%s with %s" % (name, arguments))
        for attribute, _ in arguments:
            require(attribute in debug, "the debug text %r of %s does not name %s", debug, name, attribute)
        if not case["unset"]:
            same(bytes(message.compose()).hex(), layout.build(name, fields).hex(), "%s composed after showing it" % name)
        rec.nontrivial(arguments)
        return
    cut = case["cut"]
    data = layout.build(name, fields, cut)
    message = Message.decode(data)
    debug = message_text(message, "%s decoded from %s" % (name, data.hex()))
    with observing("reading %s after showing it" % name):
        wrong = layout.differences(message, name, fields, cut)
        require(not wrong, "%s after showing it: %s", name, "; ".join(wrong[:3]))
    for i, field in enumerate(layout.FIELDS[name]):
        if cut is not None and i >= cut:
            break
        if field.checked and not layout.unset(getattr(message, field.name), field):
            require(field.name in debug, "the debug text %r of %s does not name %s", debug, data.hex(), field.name)
    if "change" in case and cut is None:
        other = changed(case)
        if other is not None:
            second = message_text(Message.decode(layout.build(name, other)), "%s with %s" % (name, other))
            require(second != debug, "the debug text of %s does not show that %s is %s and not %s", name, case["change"][0], fields[case["change"][0]], case["change"][1])
            rec.label("told apart")
    rec.nontrivial(any(data[2:]))
