"""Independent description of the Z-Wave / Z/IP command layouts.

Written from the command class specifications, never calling the library's codec.  A message is a
list of fields; a field turns a plain JSON value into a string of bits and into the Python value a
user must see.  `build()` gives the bytes of a message, `expected()` the attribute values.
"""
import functools
import ipaddress
import random
import struct

from hypothesis import strategies as st

from lib.core import HarnessError


class Missing:
    """Marks a field that must be unset (or have its documented default)."""

    def __repr__(self):
        return "<unset>"


MISSING = Missing()


def bits_of(value, size):
    if not 0 <= value < 1 << size:
        raise HarnessError("%r does not fit %d bits" % (value, size))
    return format(value, "0%db" % size) if size else ""


def bits_of_bytes(data):
    return "".join(format(b, "08b") for b in data)


def to_bytes(bits):
    if len(bits) % 8:
        raise HarnessError("message is not a whole number of bytes")
    return bytes(int(bits[i : i + 8], 2) for i in range(0, len(bits), 8))


class Field:
    """One field; `default` is what an unset field reads as."""

    default = None
    composable = True
    checked = True

    def __init__(self, name):
        self.name = name

    def strategy(self):
        raise NotImplementedError

    def encode(self, value, ctx):
        raise NotImplementedError

    def expect(self, value, ctx):  # pylint: disable=unused-argument
        """What the attribute must be equal to, in comparable form (see `plain`)."""
        return value

    def assign(self, value):
        """The Python value handed to the library when composing."""
        return value

    def same(self, actual, wanted):
        return plain(actual) == wanted


def plain(value):
    """Numbers as numbers whatever their (declared) type."""
    if value is None or isinstance(value, (str, bytes, list, tuple, dict, set)):
        return value
    if isinstance(value, float):
        return float(value)
    try:
        return int(value)
    except (TypeError, ValueError):
        return value


def edge_ints(low, high):
    """All values, the ends and single bits more often."""
    special = {low, high, 0, 1, high >> 1, (high >> 1) + 1}
    special |= {1 << i for i in range(high.bit_length())}
    special |= {-(1 << i) for i in range(high.bit_length() + 1)}
    special = sorted(v for v in special if low <= v <= high)
    return st.one_of(st.integers(low, high), st.sampled_from(special))


def mostly(usual, rare, one_in=16):
    """Now and then something of another kind, which is usually costly."""
    return st.integers(0, one_in - 1).flatmap(lambda i: rare if i == one_in - 1 else usual)


def blob(small, long=(), least=0):
    """Bytes: mostly a few, with many zeros or ones now and then, and seldom one of the given long sizes."""
    usual = st.one_of(
        st.binary(min_size=least, max_size=small),
        st.binary(min_size=least, max_size=small),
        st.lists(st.sampled_from([0, 0, 0, 1, 0x7F, 0x80, 0xFF]), min_size=least, max_size=small).map(bytes),
    )
    if not long:
        return usual
    many = st.tuples(st.sampled_from(list(long)), st.integers(0, 255), st.sampled_from([0, 1, 7, 37])).map(
        lambda t: bytes((t[1] + i * t[2]) & 0xFF for i in range(t[0]))
    )
    return mostly(usual, many, 12)


def node_ids(low, few, many=True):
    """Some node ids in order; now and then very many, up to a full network."""
    usual = st.lists(edge_ints(low, 232), max_size=few, unique=True).map(sorted)
    if not many:
        return usual
    crowd = st.tuples(st.integers(low, 40), st.sampled_from([1, 1, 2, 3, 8]), st.sampled_from([8, 17, 29, 33, 64, 129, 232])).map(
        lambda t: list(range(t[0], 233, t[1]))[: t[2]]
    )
    return mostly(usual, crowd)


class U(Field):
    """Unsigned big-endian number of any number of bits."""

    def __init__(self, name, size):
        super().__init__(name)
        self.size = size

    def strategy(self):
        return edge_ints(0, (1 << self.size) - 1)

    def encode(self, value, ctx):
        return bits_of(value, self.size)


class Flag(U):
    def __init__(self, name):
        super().__init__(name, 1)

    def strategy(self):
        return st.integers(0, 1)

    def assign(self, value):
        return bool(value)


class Choice(U):
    """A number of which only some values are legal on the wire."""

    def __init__(self, name, size, values):
        super().__init__(name, size)
        self.values = values

    def strategy(self):
        return st.sampled_from(self.values)


class Reserved(Field):
    """Bits the receiver has to ignore."""

    checked = False

    def __init__(self, size):
        super().__init__("-")
        self.size = size

    def strategy(self):
        return st.integers(0, (1 << self.size) - 1)

    def encode(self, value, ctx):
        return bits_of(value, self.size)


class HexBytes(Field):
    """Bytes to the end of the frame."""

    default = b""

    def __init__(self, name, max_size=24):
        super().__init__(name)
        self.max_size = max_size

    def strategy(self):
        long = (100, 127, 128, 129, 200, 255, 256, 300) if self.max_size >= 24 else ()
        return blob(self.max_size, long).map(bytes.hex)

    def encode(self, value, ctx):
        return bits_of_bytes(bytes.fromhex(value))

    def expect(self, value, ctx):
        return bytes.fromhex(value)

    def assign(self, value):
        return bytes.fromhex(value)

    def same(self, actual, wanted):
        return actual is not None and bytes(actual) == wanted


class IPv6(Field):
    def strategy(self):
        return st.one_of(
            st.binary(min_size=16, max_size=16), st.integers(0, 2 ** 32 - 1).map(lambda v: bytes(10) + b"\xff\xff" + struct.pack(">I", v))
        ).map(bytes.hex)

    def encode(self, value, ctx):
        return bits_of_bytes(bytes.fromhex(value))

    def expect(self, value, ctx):
        return ipaddress.IPv6Address(bytes.fromhex(value))

    def assign(self, value):
        return ipaddress.IPv6Address(bytes.fromhex(value))

    def same(self, actual, wanted):
        return actual == wanted


def dsk_text(key):
    return "-".join("%05d" % int.from_bytes(key[i : i + 2], "big") for i in range(0, len(key), 2))


class Dsk(Field):
    """16 byte key without a length."""

    lengths = (16,)

    def strategy(self):
        return st.binary(min_size=16, max_size=16).map(bytes.hex)

    def encode(self, value, ctx):
        return bits_of_bytes(bytes.fromhex(value))

    def expect(self, value, ctx):
        return dsk_text(bytes.fromhex(value))

    def assign(self, value):
        return bytes.fromhex(value)

    def same(self, actual, wanted):
        return actual == wanted


class DskLength(Field):
    """reserved(3) + length(5) + key, the length being a field of its own if named."""

    def __init__(self, name, length_name=None):
        super().__init__(name)
        self.length_name = length_name

    def strategy(self):
        return st.one_of(st.just(""), st.binary(min_size=16, max_size=16).map(bytes.hex))

    def encode(self, value, ctx):
        key = bytes.fromhex(value)
        return bits_of(0, 3) + bits_of(len(key), 5) + bits_of_bytes(key)

    def expect(self, value, ctx):
        return dsk_text(bytes.fromhex(value))

    def assign(self, value):
        return bytes.fromhex(value)

    def same(self, actual, wanted):
        return actual == wanted


class PartialDsk(Field):
    """The leading bytes of a key; the length is in the bits just before."""

    def strategy(self):
        return st.binary(max_size=15).map(bytes.hex)

    def encode(self, value, ctx):
        return bits_of(len(value) // 2, 4) + bits_of_bytes(bytes.fromhex(value))

    def expect(self, value, ctx):
        return dsk_text(bytes.fromhex(value))

    def assign(self, value):
        return bytes.fromhex(value)

    def same(self, actual, wanted):
        return actual == wanted


class NodeMask(Field):
    """29 bytes, bit n of byte i is node 8 * i + n + 1."""

    composable = False

    def strategy(self):
        return st.lists(edge_ints(1, 232), max_size=12, unique=True).map(sorted)

    def encode(self, value, ctx):
        data = bytearray(29)
        for node in value:
            data[(node - 1) // 8] |= 1 << (node - 1) % 8
        return bits_of_bytes(data)

    def expect(self, value, ctx):
        return set(value)

    def same(self, actual, wanted):
        return actual is not None and {int(v) for v in actual} == wanted and len(actual) == len(wanted)


class SensorMask(NodeMask):
    """Rest of the frame, bit n of byte i is type 8 * i + n + 1."""

    def strategy(self):
        few = st.lists(edge_ints(1, 80), max_size=10, unique=True)
        return mostly(few, st.lists(edge_ints(1, 256), max_size=24, unique=True), 5).map(sorted)

    def encode(self, value, ctx):
        data = bytearray((max(value) - 1) // 8 + 1 if value else 1)
        for node in value:
            data[(node - 1) // 8] |= 1 << (node - 1) % 8
        return bits_of_bytes(data)


class Text(Field):
    """Length prefixed UTF-8."""

    composable = False

    def strategy(self):
        return st.one_of(
            st.text(st.characters(exclude_categories=("Cs",)), max_size=20),
            st.sampled_from(["\ufeffname", " name ", "name\0", "\0", "\n", "A\u030a", "\u212b", "NAME", "a\r\nb", "\u00e5" * 100, "x" * 200]),
        )

    def encode(self, value, ctx):
        data = value.encode("utf-8")
        return bits_of(len(data), 8) + bits_of_bytes(data)


class Decimal(Field):
    """precision(3) scale(2) size(3) value: a scaled signed number."""

    composable = False

    def strategy(self):
        return st.sampled_from([1, 2, 4]).flatmap(
            lambda size: st.tuples(
                st.integers(0, 7), st.integers(0, 3), st.just(size), edge_ints(-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1)
            )
        ).map(list)

    def encode(self, value, ctx):
        precision, scale, size, number = value
        return bits_of(precision, 3) + bits_of(scale, 2) + bits_of(size, 3) + bits_of_bytes(number.to_bytes(size, "big", signed=True))

    def expect(self, value, ctx):
        precision, scale, _size, number = value
        return (number / 10 ** precision, scale)

    def same(self, actual, wanted):
        if actual is None:
            return False
        error = abs(float(actual) - wanted[0])
        return error <= abs(wanted[0]) * 1e-12 and actual.scale == wanted[1]


class SizedValue(Field):
    """size(3) at the end of a byte, then an unsigned number of that many bytes."""

    def __init__(self, name, composable=True):
        super().__init__(name)
        self.composable = composable

    def strategy(self):
        return st.sampled_from([1, 2, 4]).flatmap(
            lambda size: st.tuples(st.just(size), edge_ints(0, (1 << 8 * size) - 1))
        ).map(list)

    def encode(self, value, ctx):
        return bits_of(value[0], 3) + bits_of(value[1], 8 * value[0])

    def expect(self, value, ctx):
        return value[1]

    def assign(self, value):
        return value[1]


class AssocNodes(Field):
    """Node ids, then optionally a zero marker and pairs of node id and endpoint."""

    default = []

    def strategy(self):
        node = st.integers(1, 255)
        pair = st.tuples(node, st.one_of(st.integers(0, 127), st.integers(0, 255))).map(list)
        many = st.tuples(st.sampled_from([16, 31, 33, 65, 129, 232]), node).map(lambda t: [(t[1] + i) % 255 + 1 for i in range(t[0])])
        return st.tuples(
            mostly(st.lists(node, max_size=6), many),
            mostly(st.lists(pair, max_size=5), many.map(lambda nodes: [[n, n % 7] for n in nodes])),
            st.one_of(st.just(0), st.integers(0, 1000)),
        ).map(list)

    def encode(self, value, ctx):
        plain_nodes, pairs = value[:2]
        data = bytes(plain_nodes)
        if pairs:
            data += b"\0" + b"".join(bytes(pair) for pair in pairs)
        return bits_of_bytes(data)

    def expect(self, value, ctx):
        return [(node, None) for node in value[0]] + [tuple(pair) for pair in value[1]]

    def assign(self, value):
        """A user may give the two kinds of members in any order (third part of the value)."""
        members = self.expect(value, None)
        if not self.mixed(value):
            return members
        kinds = [True] * len(value[0]) + [False] * len(value[1])
        random.Random(value[2]).shuffle(kinds)
        plain_ones, pairs = iter(members[: len(value[0])]), iter(members[len(value[0]) :])
        return [next(plain_ones if kind else pairs) for kind in kinds]

    @staticmethod
    def mixed(value):
        return len(value) > 2 and bool(value[2])

    def same(self, actual, wanted):
        return actual is not None and [tuple(item) for item in actual] == wanted


class CommandPairs(Field):
    """Length in bytes, then pairs of command class and command."""

    composable = False

    def strategy(self):
        pair = st.tuples(st.integers(0, 0xEF), st.integers(0, 255)).map(list)
        many = st.tuples(st.sampled_from([15, 16, 32, 63, 64, 65, 100, 127]), pair).map(lambda t: [[(t[1][0] + i) % 0xF0, (t[1][1] + i) & 0xFF] for i in range(t[0])])
        return mostly(st.lists(pair, max_size=8), many, 8)

    def encode(self, value, ctx):
        return bits_of(2 * len(value), 8) + bits_of_bytes(b"".join(bytes(pair) for pair in value))

    def same(self, actual, wanted):
        return actual is not None and [list(pair) for pair in actual] == wanted


class GroupInfos(Field):
    """group count(6) then 7 bytes per group."""

    composable = False

    def strategy(self):
        group = st.tuples(st.integers(0, 255), st.integers(0, 255), edge_ints(0, 0xFFFF), st.integers(0, 255), edge_ints(0, 0xFFFF))
        many = st.tuples(st.sampled_from([8, 16, 31, 32, 33, 62, 63]), group).map(lambda t: [[i + 1] + list(t[1][1:]) for i in range(t[0])])
        return mostly(st.lists(group.map(list), max_size=5), many, 8)

    @staticmethod
    def count(value, ctx):
        """A shortened frame may have room for fewer groups than it announces."""
        return min(len(value) + ctx.get("more", 0), 63)

    def encode(self, value, ctx):
        bits = bits_of(self.count(value, ctx), 6)
        for ident, mode, profile, reserved, event in value:
            bits += bits_of(ident, 8) + bits_of(mode, 8) + bits_of(profile, 16) + bits_of(reserved, 8) + bits_of(event, 16)
        return bits

    def expect(self, value, ctx):
        return [(i, m, p, e) for i, m, p, _, e in value]

    def same(self, actual, wanted):
        if actual is None:
            return wanted == []
        return [(int(g.groupingIdentifier), int(g.mode), int(g.profile), int(g.eventCode)) for g in actual] == wanted


class Metadata(Field):
    """type(7) critical(1) length value ..."""

    composable = False

    KINDS = [0, 1, 2, 3, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37]

    def strategy(self):
        content = blob(10, (31, 32, 62, 127, 128, 255)).map(bytes.hex)
        item = st.tuples(st.sampled_from(self.KINDS), st.integers(0, 1), content).map(list)
        # of kinds that came later, not critical
        other = st.tuples(st.integers(0, 127).filter(lambda k: k not in self.KINDS), st.just(0), content).map(list)
        item = st.one_of(item, item, item, other)
        return mostly(
            st.lists(item, max_size=4, unique_by=lambda i: i[0]),
            # all that are known, then some that are not
            st.tuples(st.permutations(self.KINDS), content, other, other).map(
                lambda t: [[k, k & 1, t[1]] for k in t[0]] + [t[2]] + ([t[3]] if t[3][0] != t[2][0] else [])
            ),
            8,
        )

    def encode(self, value, ctx):
        bits = ""
        for kind, critical, data in value:
            bits += bits_of(kind, 7) + bits_of(critical, 1) + bits_of(len(data) // 2, 8) + bits_of_bytes(bytes.fromhex(data))
        return bits

    def expect(self, value, ctx):
        # what is not critical and not known is ignored
        return {kind: bytes.fromhex(data) for kind, _, data in value if kind in self.KINDS}

    def same(self, actual, wanted):
        if actual is None:
            return wanted == {}
        return {int(k): bytes(v) for k, v in actual.items()} == wanted


class NodeInfo(Field):
    """Command classes of NODE_ADD_STATUS: as many as the node info length (a field of its own) minus
    the seven bytes in front of them; what follows (keys) belongs to later versions."""

    composable = False

    def strategy(self):
        return st.tuples(blob(20, (57, 121, 122, 128, 248)).map(bytes.hex), st.binary(max_size=5).map(bytes.hex)).map(list)

    def encode(self, value, ctx):
        return bits_of_bytes(bytes.fromhex(value[0]) + bytes.fromhex(value[1]))

    def expect(self, value, ctx):
        return list(bytes.fromhex(value[0]))

    def same(self, actual, wanted):
        if actual is None:
            return wanted == []
        return list(actual) == wanted


class NodeInfoLength(U):
    """Derived from the later field."""

    def __init__(self):
        super().__init__("nodeInfoLength", 8)

    def strategy(self):
        return st.just(0)

    def encode(self, value, ctx):
        return bits_of(7 + len(ctx["commandClass"][0]) // 2, 8)

    def expect(self, value, ctx):
        return 7 + len(ctx["commandClass"][0]) // 2


class QueueHandle(Field):
    """One byte, or (zipgateway) the last byte of sixteen."""

    def strategy(self):
        return st.tuples(st.sampled_from(["", "00" * 15, "fd" + "00" * 14]), st.integers(0, 255)).map(list)

    def encode(self, value, ctx):
        return bits_of_bytes(bytes.fromhex(value[0])) + bits_of(value[1], 8)

    def expect(self, value, ctx):
        return value[1]

    def assign(self, value):
        return value[1]


# -- header extension ------------------------------------------------------------------------------
IME_KNOWN = {0: "u8", 1: "u16", 2: "route", 3: "raw", 4: "u8", 5: "u8", 6: "raw", 7: "raw", 8: "raw"}


@st.composite
def ime_items(draw):
    items = []
    for kind in draw(st.lists(st.one_of(st.integers(0, 8), st.integers(9, 255)), max_size=5, unique=True)):
        form = IME_KNOWN.get(kind, "raw")
        if form == "u8":
            data = draw(st.binary(min_size=1, max_size=1))
        elif form == "u16":
            data = draw(st.binary(min_size=2, max_size=2))
        elif form == "route":
            data = draw(blob(5, least=5))
        else:
            data = draw(blob(6, (31, 64)))
        items.append([kind, data.hex()])
    return items


@st.composite
def header_options(draw):
    """List of [critical, type, payload]; payload is hex, or a list of IME items for type 3."""
    options = []
    # the length of everything is one byte
    room = 254
    for kind in draw(st.lists(st.one_of(st.integers(1, 5), st.integers(6, 127), st.just(0)), max_size=4, unique=True)):
        known = 1 <= kind <= 5
        critical = draw(st.integers(0, 1)) if known else 0
        if kind == 1:
            data = draw(edge_ints(-(1 << 23), (1 << 23) - 1)).to_bytes(3, "big", signed=True).hex()
        elif kind == 3:
            data = draw(ime_items())
        elif kind == 4:
            data = draw(st.binary(min_size=2, max_size=2)).hex()
        else:
            data = draw(blob(8, (31, 100, 127, 128, 129, 200, 252))).hex()
        room -= len(encode_options([[critical, kind, data]]))
        if room < 0:
            break
        options.append([critical, kind, data])
    return options


def encode_options(options):
    body = b""
    for critical, kind, data in options:
        if isinstance(data, list):
            payload = b"".join(bytes([k, len(d) // 2]) + bytes.fromhex(d) for k, d in data)
        else:
            payload = bytes.fromhex(data)
        body += bytes([critical << 7 | kind, len(payload)]) + payload
    return body


def expect_option(kind, data):
    """Comparable form of the decoded option."""
    if kind == 1:
        return int.from_bytes(bytes.fromhex(data), "big", signed=True)
    if kind == 3:
        out = {}
        for ime, raw in data:
            raw = bytes.fromhex(raw)
            form = IME_KNOWN.get(ime)
            if form in ("u8", "u16"):
                out[ime] = int.from_bytes(raw, "big")
            elif form == "route":
                out[ime] = tuple(raw)
            elif form == "raw":
                out[ime] = raw
        return out
    if kind == 4:
        raw = bytes.fromhex(data)
        return (raw[0], raw[1] & 1)
    return bytes.fromhex(data)


def read_option(kind, value):
    if kind == 1:
        return int(value)
    if kind == 3:
        out = {}
        for ime, item in value.items():
            form = IME_KNOWN.get(int(ime))
            if form in ("u8", "u16"):
                out[int(ime)] = int(item)
            elif form == "route":
                out[int(ime)] = tuple(int(getattr(item, n)) for n in ("repeater1", "repeater2", "repeater3", "repeater4", "speed"))
            else:
                out[int(ime)] = bytes(item)
        return out
    if kind == 4:
        return (int(value.security2SecurityClass), int(value.crc16))
    return bytes(value)


class HeaderExtension(Field):
    """Only there if the flag headerExtIncluded is set: length, then options."""

    default = {}

    def strategy(self):
        return header_options()

    def encode(self, value, ctx):
        if not ctx["headerExtIncluded"]:
            return ""
        body = encode_options(value)
        return bits_of(len(body) + 1, 8) + bits_of_bytes(body)

    def expect(self, value, ctx):
        if not ctx["headerExtIncluded"]:
            return {}
        return {kind: expect_option(kind, data) for _, kind, data in value if 1 <= kind <= 5}

    def assign(self, value):
        return {}

    def same(self, actual, wanted):
        if actual is None:
            return False
        return {int(k): read_option(int(k), v) for k, v in actual.items()} == wanted


class Command(Field):
    """An embedded command: {"name":, "fields":} of another message, to the end of the frame."""

    default = None

    def __init__(self, name, prefixed=False):
        super().__init__(name)
        self.prefixed = prefixed

    def strategy(self):
        inner = st.deferred(lambda: inner_messages)
        # the length of a prefixed command is one byte
        return inner.filter(lambda value: len(build(value["name"], value["fields"])) < 256) if self.prefixed else inner

    def encode(self, value, ctx):
        data = build(value["name"], value["fields"])
        return (bits_of(len(data), 8) if self.prefixed else "") + bits_of_bytes(data)

    def same(self, actual, wanted):
        return actual is not None and not differences(actual, wanted["name"], wanted["fields"])


def _m(hid, *fields):
    return (hid, list(fields))


u8 = lambda name: U(name, 8)  # noqa: E731
u16 = lambda name: U(name, 16)  # noqa: E731
R = Reserved

LAYOUT = {
    "Basic.Set": _m(0x2001, u8("value")),
    "Basic.Get": _m(0x2002),
    "Basic.Report": _m(0x2003, u8("value")),
    "ApplicationStatus.ApplicationBusy": _m(0x2201, u8("status"), u8("waitTime")),
    "Zip.ZipPacket": _m(
        0x2302,
        Flag("ackRequest"), Flag("ackResponse"), Flag("nackResponse"), Flag("nackWaiting"), Flag("nackQueueFull"), Flag("nackOptionError"), R(2),
        Flag("headerExtIncluded"), Flag("zwCmdIncluded"), Flag("moreInformation"), Flag("secureOrigin"), R(4),
        u8("seqNo"), R(1), U("sourceEP", 7), R(1), U("destEP", 7),
        HeaderExtension("headerExtension"), Command("command"),
    ),
    "Zip.ZipKeepAlive": _m(0x2303, Flag("ackRequest"), Flag("ackResponse"), R(6)),
    "SwitchBinary.Set": _m(0x2501, u8("value")),
    "SwitchBinary.Get": _m(0x2502),
    "SwitchBinary.Report": _m(0x2503, u8("value")),
    "SensorMultilevel.SupportedGetSensor": _m(0x3101),
    "SensorMultilevel.SupportedSensorReport": _m(0x3102, SensorMask("bitMask")),
    "SensorMultilevel.SupportedGetScale": _m(0x3103, u8("sensorType")),
    "SensorMultilevel.Get": _m(0x3104, u8("sensorType"), R(3), U("scale", 2), R(3)),
    "SensorMultilevel.Report": _m(0x3105, u8("sensorType"), Decimal("sensorValue")),
    "SensorMultilevel.SupportedScaleReport": _m(0x3106, u8("sensorType"), R(4), U("scaleBitMask", 4)),
    "Meter.Get": _m(0x3201, U("rateType", 2), U("scale", 3), R(3), u8("scale2")),
    "Meter.Report": _m(0x3202, Flag("scale2"), U("rateType", 2), U("meterType", 5), Decimal("meterValue"), u16("deltaTime")),
    "Meter.SupportedGet": _m(0x3203),
    "Meter.SupportedReport": _m(
        0x3204, Flag("meterReset"), U("rateType", 2), U("meterType", 5), Flag("moreScaleTypes"), U("scaleSupported", 7),
        u8("nbrScaleSupportedBytesToFollow"), HexBytes("scaleSupportedByteN"),
    ),
    "Meter.Reset": _m(0x3205),
    "NetworkManagementInclusion.NodeAdd": _m(0x3401, u8("seqNo"), R(8), u8("mode"), u8("txOptions")),
    "NetworkManagementInclusion.NodeAddStatus": _m(
        0x3402, u8("seqNo"), u8("status"), R(8), u8("newNodeID"), NodeInfoLength(), Flag("listening"), R(7), Flag("optFunc"), R(7),
        u8("basicDeviceClass"), u8("genericDeviceClass"), u8("specificDeviceClass"), NodeInfo("commandClass"),
    ),
    "NetworkManagementInclusion.NodeRemove": _m(0x3403, u8("seqNo"), R(8), u8("mode")),
    "NetworkManagementInclusion.NodeRemoveStatus": _m(0x3404, u8("seqNo"), u8("status"), u8("nodeID")),
    "NetworkManagementInclusion.FailedNodeRemove": _m(0x3407, u8("seqNo"), u8("nodeID")),
    "NetworkManagementInclusion.FailedNodeRemoveStatus": _m(0x3408, u8("seqNo"), u8("status"), u8("nodeID")),
    "NetworkManagementInclusion.FailedNodeReplace": _m(0x3409, u8("seqNo"), u8("nodeID"), u8("txOptions"), u8("mode")),
    "NetworkManagementInclusion.FailedNodeReplaceStatus": _m(0x340A, u8("seqNo"), u8("status"), u8("nodeID")),
    "NetworkManagementInclusion.NodeNeightborUpdateRequest": _m(0x340B, u8("seqNo"), u8("nodeID")),
    "NetworkManagementInclusion.NodeNeightborUpdateStatus": _m(0x340C, u8("seqNo"), u8("status")),
    "NetworkManagementInclusion.ReturnRouteAssign": _m(0x340D, u8("seqNo"), u8("sourceNodeID"), u8("destinationNodeID")),
    "NetworkManagementInclusion.ReturnRouteAssignComplete": _m(0x340E, u8("seqNo"), u8("status")),
    "NetworkManagementInclusion.ReturnRouteDelete": _m(0x340F, u8("seqNo"), u8("nodeID")),
    "NetworkManagementInclusion.ReturnRouteDeleteComplete": _m(0x3410, u8("seqNo"), u8("status")),
    "NetworkManagementInclusion.NodeAddKeysReport": _m(0x3411, u8("seqNo"), R(7), Flag("requestCSA"), u8("requestedKeys")),
    "NetworkManagementInclusion.NodeAddKeysSet": _m(0x3412, u8("seqNo"), R(6), Flag("grantCSA"), Flag("accept"), u8("grantedKeys")),
    "NetworkManagementInclusion.NodeAddDSKReport": _m(0x3413, u8("seqNo"), R(4), U("inputDSKLength", 4), Dsk("dsk")),
    "NetworkManagementInclusion.NodeAddDSKSet": _m(0x3414, u8("seqNo"), Flag("accept"), R(3), PartialDsk("dsk")),
    "NetworkManagementInclusion.SmartStartJoinStartedReport": _m(0x3415, u8("seqNo"), DskLength("dsk", "dskLength")),
    "NetworkManagementInclusion.IncludedNIFReport": _m(0x3419, u8("seqNo"), DskLength("dsk", "dskLength")),
    "NetworkManagementProxy.NodeListGet": _m(0x5201, u8("seqNo")),
    "NetworkManagementProxy.NodeListReport": _m(0x5202, u8("seqNo"), u8("status"), u8("nodeListControllerId"), NodeMask("nodes")),
    "NetworkManagementProxy.NodeInfoCachedGet": _m(0x5203, u8("seqNo"), R(4), U("maxAge", 4), u8("nodeID")),
    "NetworkManagementProxy.NodeInfoCachedReport": _m(
        0x5204, u8("seqNo"), U("status", 4), U("age", 4), Flag("listening"), R(7), Flag("optFunc"), R(7), R(8),
        u8("basicDeviceClass"), u8("genericDeviceClass"), u8("specificDeviceClass"), HexBytes("commandClass"),
    ),
    "NetworkManagementProxy.MultiChannelEndPointGet": _m(0x5205, u8("seqNo"), u8("nodeID")),
    "NetworkManagementProxy.MultiChannelEndPointReport": _m(
        0x5206, u8("seqNo"), u8("nodeID"), R(8), R(1), U("individualEndPoints", 7), R(1), U("aggregatedEndPoints", 7)
    ),
    "NetworkManagementProxy.MultiChannelCapabilityGet": _m(0x5207, u8("seqNo"), u8("nodeID"), R(1), U("endPoint", 7)),
    "NetworkManagementProxy.MultiChannelCapabilityReport": _m(
        0x5208, u8("seqNo"), u8("nodeID"), u8("commandClassLength"), R(1), U("endPoint", 7),
        u8("genericDeviceClass"), u8("specificDeviceClass"), HexBytes("commandClass"),
    ),
    "NetworkManagementProxy.FailedNodeListGet": _m(0x520B, u8("seqNo")),
    "NetworkManagementProxy.FailedNodeListReport": _m(0x520C, u8("seqNo"), NodeMask("failedNodeList")),
    "ZipND.ZipNodeAdvertisement": _m(0x5801, R(5), Flag("local"), U("validity", 2), u8("nodeId"), IPv6("ipv6"), U("homeId", 32)),
    "ZipND.ZipInvNodeSolicitation": _m(0x5804, R(5), Flag("local"), R(2), u8("nodeId")),
    "AssociationGrpInfo.GroupNameGet": _m(0x5901, u8("groupingIdentifier")),
    "AssociationGrpInfo.GroupNameReport": _m(0x5902, u8("groupingIdentifier"), Text("name")),
    "AssociationGrpInfo.GroupInfoGet": _m(0x5903, Flag("refreshCache"), Flag("listMode"), R(6), u8("groupingIdentifier")),
    "AssociationGrpInfo.GroupInfoReport": _m(0x5904, Flag("listMode"), Flag("dynamicInfo"), GroupInfos("groups")),
    "AssociationGrpInfo.GroupCommandListGet": _m(0x5905, Flag("allowCache"), R(7), u8("groupingIdentifier")),
    "AssociationGrpInfo.GroupCommandListReport": _m(0x5906, u8("groupingIdentifier"), CommandPairs("commandClass")),
    "ZwavePlusInfo.Get": _m(0x5E01),
    "ZwavePlusInfo.Report": _m(
        0x5E02, u8("zwavePlusVersion"), u8("roleType"), u8("nodeType"), u16("installerIconType"), u16("userIconType")
    ),
    "ZipGateway.GatewayModeSet": _m(0x5F01, u8("mode")),
    "ZipGateway.GatewayModeGet": _m(0x5F02),
    "ZipGateway.GatewayModeReport": _m(0x5F03, u8("mode")),
    "ZipGateway.GatewayPeerSet": _m(0x5F04, u8("peerProfile"), IPv6("ipv6"), u16("port"), R(2), U("peerNameLength", 6)),
    "ZipGateway.UnsolicitedDestinationSet": _m(0x5F08, IPv6("unsolicitedIPv6Destination"), u16("port")),
    "ZipGateway.ApplicationNodeInfoSet": _m(0x5F0B, HexBytes("commandClasses")),
    "Mailbox.ConfigurationGet": _m(0x6901),
    "Mailbox.ConfigurationSet": _m(0x6902, R(5), U("mode", 3), IPv6("forwardingDestinationIPv6Address"), u16("udpPortNumber")),
    "Mailbox.ConfigurationReport": _m(
        0x6903, R(3), U("supportedModes", 2), U("mode", 3), u16("mailboxCapacity"), IPv6("forwardingDestinationIPv6Address"), u16("udpPortNumber")
    ),
    "Mailbox.Queue": _m(0x6904, R(4), Flag("last"), U("operation", 3), u8("queueHandle"), HexBytes("mailboxEntry")),
    "Mailbox.WakeupNotification": _m(0x6905, u8("queueHandle")),
    "Mailbox.NodeFailing": _m(0x6906, QueueHandle("queueHandle")),
    "Mailbox.QueueFlush": _m(0x6907, u8("queueHandle")),
    "Supervision.Get": _m(0x6C01, Flag("statusUpdates"), R(1), U("sessionID", 6), Command("command", prefixed=True)),
    "Supervision.Report": _m(0x6C02, Flag("moreStatusUpdates"), Flag("wakeUpRequest"), U("sessionID", 6), u8("status"), u8("duration")),
    "Configuration.Set": _m(0x7004, u8("parameterNumber"), Flag("default"), R(4), SizedValue("value")),
    "Configuration.Get": _m(0x7005, u8("parameterNumber")),
    "Configuration.Report": _m(0x7006, u8("parameterNumber"), R(5), SizedValue("value", composable=False)),
    "Configuration.BulkGet": _m(0x7008, u16("parameterOffset"), u8("numberOfParameters")),
    "Configuration.BulkReport": _m(
        0x7009, u16("parameterOffset"), u8("numberOfParameters"), u8("reportsToFollow"), Flag("default"), Flag("handshake"), R(3),
        U("size", 3), HexBytes("parameter"),
    ),
    "ManufacturerSpecific.Get": _m(0x7204),
    "ManufacturerSpecific.Report": _m(0x7205, u16("manufacturerID"), u16("productTypeID"), u16("productID")),
    "NodeProvisioning.Set": _m(0x7801, u8("seqNo"), DskLength("dsk"), HexBytes("metaDataExtension")),
    "NodeProvisioning.ListIterationGet": _m(0x7803, u8("seqNo"), u8("remainingCounter")),
    "NodeProvisioning.ListIterationReport": _m(
        0x7804, u8("seqNo"), u8("remainingCount"), DskLength("dsk", "dskLengthN"), Metadata("metaDataExtension")
    ),
    "Battery.Get": _m(0x8002),
    "Battery.Report": _m(0x8003, u8("batteryLevel")),
    "Association.Set": _m(0x8501, u8("groupingIdentifier"), AssocNodes("nodes")),
    "Association.Get": _m(0x8502, u8("groupingIdentifier")),
    "Association.Report": _m(0x8503, u8("groupingIdentifier"), u8("maxNodesSupported"), u8("reportsToFollow"), AssocNodes("nodes")),
    "Association.GroupingsGet": _m(0x8505),
    "Association.GroupingsReport": _m(0x8506, u8("supportedGroupings")),
    "Version.VersionGet": _m(0x8611),
    "Version.VersionReport": _m(
        0x8612, u8("zwaveLibraryType"), u8("zwaveProtocolVersion"), u8("zwaveProtocolSubVersion"), u8("applicationVersion"), u8("applicationSubVersion")
    ),
    "Version.VersionCommandClassGet": _m(0x8613, u8("requestedCommandClass")),
    "Version.VersionCommandClassReport": _m(0x8614, u8("requestedCommandClass"), u8("commandClassVersion")),
    "Indicator.Set": _m(0x8701, u8("value")),
    "Indicator.Get": _m(0x8702),
    "Indicator.Report": _m(0x8703, u8("value")),
    "MultiChannelAssociation.MultiChannelSet": _m(0x8E01, u8("groupingIdentifier"), AssocNodes("nodes")),
    "MultiChannelAssociation.MultiChannelGet": _m(0x8E02, u8("groupingIdentifier")),
    "MultiChannelAssociation.MultiChannelReport": _m(
        0x8E03, u8("groupingIdentifier"), u8("maxNodesSupported"), u8("reportsToFollow"), AssocNodes("nodes")
    ),
}
HIDS = {hid: name for name, (hid, _) in LAYOUT.items()}
FIELDS = {name: fields for name, (_, fields) in LAYOUT.items()}


def keys_of(name):
    """Keys of the fields in a case: reserved fields are numbered."""
    keys = []
    for i, field in enumerate(FIELDS[name]):
        keys.append("-%d" % i if isinstance(field, Reserved) else field.name)
    return keys


@functools.lru_cache(maxsize=None)
def fields_strategy(name, reserved=True):
    parts = {}
    for key, field in zip(keys_of(name), FIELDS[name]):
        if isinstance(field, Reserved) and not reserved:
            parts[key] = st.just(0)
        else:
            parts[key] = values_of(field)
    return st.fixed_dictionaries(parts)


@functools.lru_cache(maxsize=None)
def values_of(field):
    return field.strategy()


def message_strategy(names, reserved=True):
    return st.sampled_from(sorted(names)).flatmap(
        lambda name: fields_strategy(name, reserved).map(lambda fields: {"name": name, "fields": fields})
    )


def chunks(name, fields):
    """[(key, field, bits)] in wire order."""
    return [(key, field, field.encode(fields[key], fields)) for key, field in zip(keys_of(name), FIELDS[name])]


def build(name, fields, count=None):
    """Bytes of a message, optionally only its first `count` fields."""
    hid = LAYOUT[name][0]
    parts = chunks(name, fields)
    if count is not None:
        parts = parts[:count]
    return bytes([hid >> 8, hid & 0xFF]) + to_bytes("".join(bits for _, _, bits in parts))


def boundaries(name, fields):
    """Number of fields after which a frame may have been cut off (whole bytes)."""
    total = 0
    cuts = [0]
    for i, (_, _, bits) in enumerate(chunks(name, fields)):
        total += len(bits)
        if total % 8 == 0:
            cuts.append(i + 1)
    return cuts


def differences(message, name, fields, count=None):
    """What differs between a decoded message and its layout: list of texts."""
    out = []
    kind = "%s.%s" % (type(message).__module__.split(".")[-1], type(message).__name__)
    if kind != name:
        return ["decoded as %s instead of %s" % (kind, name)]
    parts = list(zip(keys_of(name), FIELDS[name]))
    for i, (key, field) in enumerate(parts):
        if not field.checked:
            continue
        actual = getattr(message, field.name)
        present = count is None or i < count
        if present:
            wanted = field.expect(fields[key], fields)
            empty = field.encode(fields[key], fields) == "" or (isinstance(field, (DskLength, PartialDsk)) and not fields[key])
            last = all(f.encode(fields[k], fields) == "" for k, f in parts[i + 1 : count])
            if empty and last and unset(actual, field):
                # An empty last field cannot be told from a missing one
                pass
            elif not field.same(actual, wanted):
                out.append("%s.%s is %r, on the wire it is %r" % (name, field.name, actual, wanted))
            if isinstance(field, DskLength) and field.length_name:
                length = getattr(message, field.length_name)
                if plain(length) != len(fields[key]) // 2:
                    out.append("%s.%s is %r, on the wire it is %d" % (name, field.length_name, length, len(fields[key]) // 2))
            if isinstance(field, SizedValue) and plain(message.size) != fields[key][0]:
                out.append("%s.size is %r, on the wire it is %d" % (name, message.size, fields[key][0]))
            if isinstance(field, PartialDsk) and plain(message.inputDSKLength) != len(fields[key]) // 2:
                out.append("%s.inputDSKLength is %r, on the wire it is %d" % (name, message.inputDSKLength, len(fields[key]) // 2))
            if isinstance(field, GroupInfos) and plain(message.groupCount) != field.count(fields[key], fields):
                out.append("%s.groupCount is %r, on the wire it is %d" % (name, message.groupCount, field.count(fields[key], fields)))
        elif not unset(actual, field):
            out.append("%s.%s was not in the frame but is %r" % (name, field.name, actual))
    return out


def unset(actual, field):
    if actual is None:
        return True
    return field.default is not None and actual == field.default


INNER = [name for name in LAYOUT if name not in ("Zip.ZipPacket", "Zip.ZipKeepAlive", "Supervision.Get")]
inner_messages = st.one_of(
    message_strategy(INNER),
    message_strategy(["Supervision.Get"]),
    message_strategy(["Basic.Set", "Basic.Report", "SwitchBinary.Report", "SensorMultilevel.Report", "Configuration.Report", "Meter.Report"]),
)


def find_class(name):
    """The library's class for a message of the table."""
    import importlib  # pylint: disable=import-outside-toplevel

    module, cls = name.split(".")
    return getattr(importlib.import_module("pyzwave.commandclass." + module), cls)


# -- composing -------------------------------------------------------------------------------------
COMPOSABLE = sorted(
    name
    for name, fields in FIELDS.items()
    if all(field.composable for field in fields) and name not in ("NetworkManagementInclusion.NodeAddStatus", "Zip.ZipPacket", "Supervision.Get")
)
WRAPPERS = ["Zip.ZipPacket", "Supervision.Get"]


@st.composite
def composable_messages(draw, names=None, depth=0):
    """A message whose fields a user may set, reserved bits zero."""
    wrap = names is None and depth < 2 and draw(st.integers(0, 9)) == 0
    name = draw(st.sampled_from(WRAPPERS if wrap else (names or COMPOSABLE)))
    fields = {}
    for key, field in zip(keys_of(name), FIELDS[name]):
        if isinstance(field, Reserved):
            fields[key] = 0
        elif isinstance(field, HeaderExtension):
            fields["headerExtIncluded"] = 0
            fields[key] = []
        elif isinstance(field, Command):
            inner = composable_messages(depth=depth + 1)
            if field.prefixed:
                inner = inner.filter(lambda value: len(build(value["name"], value["fields"])) < 256)
            fields[key] = draw(inner)
        elif isinstance(field, QueueHandle):
            fields[key] = ["", draw(st.integers(0, 255))]
        elif key == "headerExtIncluded":
            fields[key] = 0
        else:
            fields[key] = draw(values_of(field))
    return {"name": name, "fields": fields}


def arguments(name, fields):
    """[(attribute, value)] a user gives the library's message class, in layout order."""
    out = []
    for key, field in zip(keys_of(name), FIELDS[name]):
        value = fields[key]
        if isinstance(field, (Reserved, HeaderExtension)):
            continue
        if isinstance(field, SizedValue):
            out.append(("size", value[0]))
        if isinstance(field, PartialDsk):
            out.append(("inputDSKLength", len(value) // 2))
        if isinstance(field, DskLength) and field.length_name:
            out.append((field.length_name, len(value) // 2))
        if isinstance(field, Command):
            out.append((field.name, construct(value["name"], value["fields"])))
        else:
            out.append((field.name, field.assign(value)))
    return out


def construct(name, fields):
    return find_class(name)(**dict(arguments(name, fields)))
