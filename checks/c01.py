"""Received commands decode to the values laid out on the wire."""
from lib import bootstrap  # noqa: F401  isort:skip
from hypothesis import strategies as st

import pyzwave.commandclass  # noqa: F401
from lib import layout
from lib.core import Violation, observing, require, same
from lib.layout import edge_ints
from pyzwave.message import Message

PROPERTY = "C01"
RULE = """A case is a complete or (at a field boundary) shortened frame of one of the message types of the
independent layout table with generated field values, or a frame whose command is not in the table.
Non-trivial: a frame with at least one checked field holding something else than its zero/empty
value, or a frame of an unknown command."""
ASSUMPTIONS = [
    "the layout table in lib/layout.py, written from the Z-Wave command class layouts, is right",
    "shortened frames end at a field boundary that is a whole number of bytes, or between two groups of a group information report",
]
QUICK = 1400
THOROUGH = 60000


PLAIN = (layout.U, layout.Reserved)
RICH = sorted(name for name, fields in layout.FIELDS.items() if any(not isinstance(f, PLAIN) for f in fields))


@st.composite
def known_frames(draw):
    # more of those with structure of their own
    case = draw(layout.message_strategy(draw(st.sampled_from([layout.LAYOUT, layout.LAYOUT, RICH]))))
    cuts = layout.boundaries(case["name"], case["fields"])
    case["cut"] = draw(st.one_of(st.none(), st.none(), st.sampled_from(cuts)))
    if case["name"] == "AssociationGrpInfo.GroupInfoReport" and draw(st.booleans()):
        # shortened between two groups
        case["fields"]["more"] = draw(edge_ints(1, 63))
    return case


@st.composite
def unknown_frames(draw):
    hid = draw(st.integers(0, 0xFFFF).filter(lambda h: h not in layout.HIDS))
    if draw(st.booleans()):
        # unknown command of a known command class
        known = draw(st.sampled_from(sorted({h >> 8 for h in layout.HIDS})))
        hid = known << 8 | draw(st.integers(0, 255).filter(lambda c: known << 8 | c not in layout.HIDS))
    return {"hid": hid, "payload": draw(st.binary(max_size=20)).hex()}


def strategy():
    return st.one_of(known_frames(), known_frames(), known_frames(), known_frames(), unknown_frames())


def run(case, rec):
    if "hid" in case:
        hid = case["hid"]
        if hid in layout.HIDS:
            return
        message = Message.decode(bytes([hid >> 8, hid & 0xFF]) + bytes.fromhex(case["payload"]))
        with observing("reading an unknown message"):
            same(message.cmdClass(), hid >> 8, "command class of a command without message type")
            same(message.hid() & 0xFF, hid & 0xFF, "command of a command without message type")
            same(message.hid(), hid, "id of a command without message type")
        rec.label("unknown")
        rec.nontrivial()
        return
    name, fields, cut = case["name"], case["fields"], case["cut"]
    data = layout.build(name, fields, cut)
    message = Message.decode(data)
    with observing("reading %s decoded from %s" % (name, data.hex())):
        wrong = layout.differences(message, name, fields, cut)
        require(not wrong, "decoding %s: %s", data.hex(), "; ".join(wrong[:3]))
        same(message.hid(), layout.LAYOUT[name][0], "id of a decoded %s", name)
        same(message.cmdClass(), layout.LAYOUT[name][0] >> 8, "command class of a decoded %s", name)
        if name == "Meter.Report" and (cut is None or cut > 3):
            # the scale is two bits of the value and a third one ahead of it
            wanted = fields["meterValue"][1] | (4 if fields["scale2"] else 0)
            same(message.scale, wanted, "scale of the meter value in %s", data.hex())
            rec.label("meter scale")
        # reading twice gives the same
        wrong = layout.differences(message, name, fields, cut)
        require(not wrong, "reading %s again: %s", data.hex(), "; ".join(wrong[:3]))
    again = Message.decode(bytearray(data))
    with observing("decoding again"):
        wrong = layout.differences(again, name, fields, cut)
        require(not wrong, "decoding %s again: %s", data.hex(), "; ".join(wrong[:3]))
    rec.label("msg " + name)
    rec.label("complete" if cut is None else "shortened")
    rec.nontrivial(any(data[2:]))
