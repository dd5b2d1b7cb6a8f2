"""Bit streams read and write exactly the bits asked for."""
from lib import bootstrap  # noqa: F401  isort:skip
from hypothesis import strategies as st

import pyzwave.commandclass  # noqa: F401
from lib.core import Violation, observing, require, same
from lib.layout import edge_ints
from pyzwave import types
from pyzwave.types import BitStreamReader, BitStreamWriter

PROPERTY = "C03"
RULE = """A case is either data with a sequence of reads and peeks (bits within a byte, whole bytes at a byte
boundary, the rest, past the end), or a sequence of writes (bit fields, integers, raw bytes, typed
values) that is read back, with refused writes in between.  Non-trivial: a read sequence that mixes bits
and bytes or runs past the end, or a write sequence with at least two writes."""
ASSUMPTIONS = ["nothing is asked of a stream after a read past its end", "bit fields do not cross a byte boundary"]
QUICK = 1400
THOROUGH = 120000

BITS = [types.uint3_t, types.uint4_t, types.uint5_t, types.uint7_t]
WIDTH = {"uint3_t": 3, "uint4_t": 4, "uint5_t": 5, "uint7_t": 7}
INTS = {"uint8_t": (1, False), "uint16_t": (2, False), "uint32_t": (4, False), "int24_t": (3, True)}


@st.composite
def reads(draw):
    data = draw(st.binary(max_size=10))
    ops = []
    pos = 0
    for _ in range(draw(st.integers(1, 12))):
        room = 8 - pos % 8
        kinds = ["bit", "bits", "bits"]
        if room == 8:
            kinds += ["byte", "value", "peekByte", "peekValue", "remaining", "intle", "value"]
        kind = draw(st.sampled_from(kinds))
        advance = draw(st.booleans()) if kind in ("bit", "bits", "byte", "value", "remaining") else False
        size = 1
        if kind == "bits":
            size = draw(st.integers(1, room))
        elif kind in ("value", "peekValue", "intle"):
            size = draw(st.integers(0, 5))
        elif kind == "remaining":
            size = len(data) - pos // 8
        ops.append([kind, size, advance])
        width = size if kind in ("bit", "bits") else 8 * size
        if kind in ("byte", "peekByte"):
            width = 8
        if pos + width > 8 * len(data):
            if advance or kind == "intle":
                break
            continue
        if advance or kind == "intle":
            pos += width
    return {"kind": "read", "data": data.hex(), "ops": ops}


@st.composite
def writes(draw):
    ops = []
    used = 0
    for _ in range(draw(st.integers(1, 14))):
        room = 8 - used % 8
        kinds = ["bits", "bits", "bad bits", "typed bits"]
        if room == 8:
            kinds += ["int", "int", "raw", "typed int", "bad int"]
        kind = draw(st.sampled_from(kinds))
        if kind == "bits":
            size = draw(st.integers(1, room))
            ops.append(["bits", draw(edge_ints(0, (1 << size) - 1)), size])
            used += size
        elif kind == "bad bits":
            size = draw(st.integers(1, room))
            value = draw(st.one_of(st.integers(1 << size, 1 << size + 9), st.integers(-300, -1)))
            ops.append(["bad bits", value, size])
        elif kind == "typed bits":
            names = [n for n, w in WIDTH.items() if w <= room]
            if not names:
                continue
            name = draw(st.sampled_from(names))
            ops.append(["typed bits", draw(st.integers(0, (1 << WIDTH[name]) - 1)), name])
            used += WIDTH[name]
        elif kind in ("int", "bad int"):
            size = draw(st.integers(1, 6))
            signed = draw(st.booleans())
            low, high = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
            if kind == "int":
                value = draw(edge_ints(low, high))
            else:
                value = draw(st.one_of(st.integers(high + 1, high + 1000), st.integers(low - 1000, low - 1)))
            ops.append([kind, value, size, signed, draw(st.sampled_from(["big", "little"]))])
        elif kind == "typed int":
            name = draw(st.sampled_from(sorted(INTS)))
            size, signed = INTS[name]
            low, high = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
            ops.append(["typed int", draw(edge_ints(low, high)), name])
        else:
            ops.append(["raw", draw(st.binary(max_size=4)).hex()])
    if used % 8:
        ops.append(["bits", draw(st.integers(0, (1 << 8 - used % 8) - 1)), 8 - used % 8])
    return {"kind": "write", "ops": ops}


def strategy():
    return st.one_of(reads(), writes())


def run(case, rec):
    if case["kind"] == "read":
        run_read(case, rec)
    else:
        run_write(case, rec)


def run_read(case, rec):
    data = bytes.fromhex(case["data"])
    number = int.from_bytes(data, "big")
    total = 8 * len(data)
    stream = BitStreamReader(data)
    pos = 0
    mixed = set()
    for kind, size, advance in case["ops"]:
        width = size if kind in ("bit", "bits") else 8 * size
        if kind in ("byte", "peekByte"):
            width = 8
        wanted = None
        if pos + width <= total:
            wanted = number >> total - pos - width & (1 << width) - 1
        calls = {
            "bit": lambda: stream.bit(advance),
            "bits": lambda: stream.bits(size, advance),
            "byte": lambda: stream.byte(advance),
            "value": lambda: stream.value(size, advance),
            "peekByte": stream.peekByte,
            "peekValue": lambda: stream.peekValue(size),
            "remaining": lambda: stream.remaining(advance),
            "intle": lambda: type("le", (types.int_t,), {"endian": "little", "size": size}).deserialize(stream),
        }
        where = "%s(%d) at bit %d of %s" % (kind, size, pos, data.hex())
        try:
            actual = calls[kind]()
        except EOFError:
            require(wanted is None, "%s raises EOFError", where)
            rec.label("past the end")
            rec.nontrivial()
            if advance or kind == "intle":
                return
            continue
        require(wanted is not None, "%s returns %r although the data ends before", where, actual)
        with observing(where):
            if kind in ("value", "peekValue", "remaining"):
                same(bytes(actual), wanted.to_bytes(width // 8, "big"), where)
            elif kind == "intle":
                same(int(actual), int.from_bytes(wanted.to_bytes(size, "big"), "little", signed=True), where)
            else:
                same(int(actual), wanted, where)
        if advance or kind == "intle":
            pos += width
        else:
            rec.label("peek")
        mixed.add("bits" if kind in ("bit", "bits") else "bytes")
        same(stream.bytesLeft(), len(data) - pos // 8, "bytesLeft() after %s" % where)
    rec.nontrivial(len(mixed) == 2)
    rec.label("reads", len(case["ops"]))


def run_write(case, rec):
    stream = BitStreamWriter()
    bits = ""
    good = []
    for op in case["ops"]:
        kind, value = op[0], op[1]
        if kind in ("bad bits", "bad int"):
            before = bytes(stream)
            try:
                if kind == "bad bits":
                    stream.addBits(value, op[2])
                else:
                    stream.addBytes(value, op[2], op[3], op[4])
            except Exception:  # pylint: disable=broad-except
                same(bytes(stream).hex(), before.hex(), "stream after refusing %s" % op)
                rec.label("refused")
                continue
            raise Violation("%s does not fit but was written (%s)" % (op, bytes(stream).hex()))
        if kind == "bits":
            stream.addBits(value, op[2])
            bits += format(value, "0%db" % op[2])
        elif kind == "typed bits":
            getattr(types, op[2])(value).serialize(stream)
            bits += format(value, "0%db" % WIDTH[op[2]])
        elif kind == "int":
            stream.addBytes(value, op[2], op[3], op[4])
            bits += "".join(format(b, "08b") for b in value.to_bytes(op[2], op[4], signed=op[3]))
        elif kind == "typed int":
            size, signed = INTS[op[2]]
            getattr(types, op[2])(value).serialize(stream)
            bits += "".join(format(b, "08b") for b in value.to_bytes(size, "big", signed=signed))
        else:
            types.bytes_t(bytes.fromhex(value)).serialize(stream)
            bits += "".join(format(b, "08b") for b in bytes.fromhex(value))
        good.append(op)
        padded = bits + "0" * (-len(bits) % 8)
        wanted = bytes(int(padded[i : i + 8], 2) for i in range(0, len(padded), 8))
        same(bytes(stream).hex(), wanted.hex(), "stream after %s" % good)
    reader = BitStreamReader(bytes(stream))
    for op in good:
        kind, value = op[0], op[1]
        with observing("reading back %s" % op):
            if kind == "bits":
                same(int(reader.bits(op[2])), value, "reading back %s" % op)
            elif kind == "typed bits":
                same(int(getattr(types, op[2]).deserialize(reader)), value, "reading back %s" % op)
            elif kind == "int":
                data = bytes(reader.value(op[2]))
                same(int.from_bytes(data, op[4], signed=op[3]), value, "reading back %s" % op)
            elif kind == "typed int":
                same(int(getattr(types, op[2]).deserialize(reader)), value, "reading back %s" % op)
            else:
                same(bytes(reader.value(len(value) // 2)).hex(), value, "reading back %s" % op)
    same(reader.bytesLeft(), 0, "bytes left after reading everything back")
    rec.nontrivial(len(good) >= 2)
    rec.label("writes", len(good))
