"""Composed commands have the exact wire layout or are refused."""
from lib import bootstrap  # noqa: F401  isort:skip
from hypothesis import strategies as st

import pyzwave.commandclass  # noqa: F401
from lib import layout
from lib.core import Violation, observing, require, same
from pyzwave.message import Message

PROPERTY = "C02"
RULE = """A case is a message type that can be composed with generated values for all fields, given to the
constructor or assigned in some order, possibly replacing earlier values; or with one value that does
not fit its field; or with an embedded command about as long as its length can say; or with one mandatory field left unset.  Non-trivial: a composed frame with a
nonzero field, or a refusal."""
ASSUMPTIONS = [
    "the layout table in lib/layout.py, written from the Z-Wave command class layouts, is right",
    "flags are given as booleans; a header extension is not composed (documented as empty)",
]
QUICK = 1400
THOROUGH = 60000


def settable(name):
    """Fields that hold a plain number, with the number of bits."""
    out = []
    for field in layout.FIELDS[name]:
        if isinstance(field, layout.Flag):
            continue
        if isinstance(field, layout.U) and not isinstance(field, layout.NodeInfoLength):
            out.append((field.name, field.size))
        if isinstance(field, layout.SizedValue):
            out.append((field.name, None))
            out.append(("size", 3))
        if isinstance(field, layout.PartialDsk):
            out.append(("inputDSKLength", 4))
        if isinstance(field, layout.DskLength) and field.length_name:
            out.append((field.length_name, 8))
        if isinstance(field, layout.QueueHandle):
            out.append((field.name, 8))
    return out


def mandatory(name):
    out = []
    for field in layout.FIELDS[name]:
        if isinstance(field, (layout.Reserved, layout.HeaderExtension)) or field.default is not None:
            continue
        out.append(field.name)
        if isinstance(field, layout.SizedValue):
            out.append("size")
    return out


def optional(name):
    return [f.name for f in layout.FIELDS[name] if f.default is not None and not isinstance(f, (layout.Reserved, layout.HeaderExtension))]


SETTABLE = sorted(n for n in layout.COMPOSABLE + layout.WRAPPERS if settable(n))
MANDATORY = sorted(n for n in layout.COMPOSABLE + layout.WRAPPERS if mandatory(n))
OPTIONAL = sorted(n for n in layout.COMPOSABLE if optional(n))


@st.composite
def good(draw):
    case = draw(layout.composable_messages())
    case["kind"] = "good"
    case["how"] = draw(st.sampled_from(["constructor", "assign", "mixed"]))
    count = len(layout.arguments(case["name"], case["fields"]))
    case["order"] = draw(st.permutations(range(count)))
    case["split"] = draw(st.integers(0, count))
    # values set first and replaced
    case["before"] = draw(st.one_of(st.none(), layout.composable_messages(names=[case["name"]]).map(lambda c: c["fields"])))
    return case


@st.composite
def too_large(draw):
    name = draw(st.sampled_from(SETTABLE))
    case = draw(layout.composable_messages(names=[name]))
    field, size = draw(st.sampled_from(settable(name)))
    if size is None:
        size = 8 * case["fields"][field][0]
    case["kind"] = "large"
    case["field"] = field
    low = 1 << size
    case["value"] = draw(
        st.one_of(
            st.just(low),
            st.just(-1),
            st.integers(low, 4 * low),
            st.integers(low, 1 << 40),
            st.integers(-low, -1),
            st.integers(0, low - 1).map(lambda v: v | low),
        )
    )
    case["how"] = draw(st.sampled_from(["constructor", "assign"]))
    return case


@st.composite
def missing(draw):
    name = draw(st.sampled_from(MANDATORY))
    case = draw(layout.composable_messages(names=[name]))
    case["kind"] = "missing"
    case["field"] = draw(st.sampled_from(mandatory(name)))
    return case


@st.composite
def left_out(draw):
    name = draw(st.sampled_from(OPTIONAL))
    case = draw(layout.composable_messages(names=[name]))
    case["kind"] = "left out"
    case["field"] = draw(st.sampled_from(optional(name)))
    return case


@st.composite
def too_long(draw):
    """A command of a given number of bytes within another."""
    case = draw(layout.composable_messages(names=["Supervision.Get"]))
    size = draw(st.one_of(st.integers(240, 270), st.integers(256, 600), st.sampled_from([255, 256, 257, 511, 512, 513])))
    entry = bytes((size + 7 * i) & 0xFF for i in range(size - 4)).hex()
    inner = {"-0": 0, "last": 1, "operation": draw(st.integers(0, 7)), "queueHandle": draw(st.integers(0, 255)), "mailboxEntry": entry}
    # a wrapper of its own adds seven bytes
    if draw(st.booleans()):
        case["fields"]["command"] = {"name": "Mailbox.Queue", "fields": inner}
    else:
        outer = draw(layout.composable_messages(names=["Zip.ZipPacket"]))
        inner["mailboxEntry"] = entry[14:]
        outer["fields"]["command"] = {"name": "Mailbox.Queue", "fields": inner}
        case["fields"]["command"] = outer
    case["kind"] = "long"
    return case


def strategy():
    return st.one_of(good(), good(), too_large(), missing(), left_out(), too_long())


def recomposable(name, fields):
    """An empty key at the end of a frame cannot be told from a missing one."""
    key, field = layout.keys_of(name)[-1:], layout.FIELDS[name][-1:]
    if not key:
        return True
    if isinstance(field[0], layout.Command):
        return recomposable(fields[key[0]]["name"], fields[key[0]]["fields"])
    return not (isinstance(field[0], (layout.DskLength, layout.PartialDsk)) and not fields[key[0]])


def composed(message, name, what):
    data = message.compose()
    require(isinstance(data, (bytes, bytearray)), "%s composed to %r", name, data)
    again = message.compose()
    same(bytes(again), bytes(data), "%s %s composed a second time", name, what)
    return bytes(data)


def run(case, rec):
    name, fields = case["name"], case["fields"]
    cls = layout.find_class(name)
    if case["kind"] == "long":
        inner = fields["command"]
        within = layout.build(inner["name"], inner["fields"])
        rec.label("long")
        rec.nontrivial()
        message = cls(statusUpdates=fields["statusUpdates"], sessionID=fields["sessionID"], command=layout.construct(inner["name"], inner["fields"]))
        try:
            data = bytes(message.compose())
        except Exception as error:  # pylint: disable=broad-except
            require(len(within) > 255, "a command of %d bytes in another is refused with %r", len(within), error)
            return
        require(len(within) < 256, "a command of %d bytes in another was composed to %s", len(within), data[:8].hex())
        same(data.hex(), layout.build(name, fields).hex(), "%s with a command of %d bytes composes to", name, len(within))
        return
    arguments = layout.arguments(name, fields)
    rec.label("msg " + name)
    rec.label(case["kind"])
    if case["kind"] == "good":
        if case["before"] is not None:
            message = layout.construct(name, case["before"])
        elif case["how"] == "constructor":
            message = cls(**dict(arguments))
        else:
            split = case["split"] if case["how"] == "mixed" else 0
            first = [arguments[i] for i in case["order"][:split]]
            message = cls(**dict(first))
        if case["before"] is not None or case["how"] != "constructor":
            start = 0 if case["before"] is not None or case["how"] == "assign" else case["split"]
            for i in case["order"][start:]:
                setattr(message, *arguments[i])
        data = composed(message, name, fields)
        wire = layout.build(name, fields)
        same(data.hex(), wire.hex(), "%s with %s composes to", name, fields)
        back = Message.decode(data)
        with observing("reading a composed %s" % name):
            wrong = layout.differences(back, name, fields)
            require(not wrong, "decoding the composed %s: %s", data.hex(), "; ".join(wrong[:3]))
        if not recomposable(name, fields):
            rec.label("not composed again")
            return
        same(bytes(back.compose()).hex(), wire.hex(), "composing the decoded %s gives", name)
        if any(isinstance(f, layout.AssocNodes) and f.mixed(fields[k]) for k, f in zip(layout.keys_of(name), layout.FIELDS[name])):
            rec.label("members in any order")
        else:
            require(back == message, "the decoded %s differs from the message that was composed (%s)", name, wire.hex())
        rec.nontrivial(any(data[2:]))
        return
    if case["kind"] == "left out":
        # an optional part that was never set is sent empty
        kwargs = dict(a for a in arguments if a[0] != case["field"])
        values = dict(fields)
        for key, field in zip(layout.keys_of(name), layout.FIELDS[name]):
            if field.name == case["field"]:
                values[key] = [[], []] if isinstance(field, layout.AssocNodes) else ""
        data = composed(cls(**kwargs), name, kwargs)
        same(data.hex(), layout.build(name, values).hex(), "%s without %s composes to", name, case["field"])
        rec.nontrivial()
        return
    if case["kind"] == "missing":
        kwargs = dict(a for a in arguments if a[0] != case["field"])
        try:
            data = cls(**kwargs).compose()
        except AttributeError:
            rec.nontrivial()
            return
        except Exception as error:
            raise Violation("%s without %s is refused with %r, not with an AttributeError" % (name, case["field"], error)) from error
        raise Violation("%s without %s was composed to %s" % (name, case["field"], bytes(data).hex()))
    kwargs = dict(arguments)
    try:
        if case["how"] == "constructor":
            kwargs[case["field"]] = case["value"]
            message = cls(**kwargs)
        else:
            message = cls(**kwargs)
            setattr(message, case["field"], case["value"])
        data = bytes(message.compose())
    except Exception:  # pylint: disable=broad-except
        rec.nontrivial()
        return
    raise Violation("%s with %s = %d, which does not fit, was composed to %s" % (name, case["field"], case["value"], data.hex()))
