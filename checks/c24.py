"""Device specific keys keep their 16 bytes in every representation."""
from lib import bootstrap  # noqa: F401  isort:skip
from hypothesis import strategies as st

import pyzwave.commandclass  # noqa: F401
from lib.core import HarnessError, Violation, observing, require, same
from lib.layout import dsk_text, find_class
from pyzwave.message import Message
from pyzwave.types import BitStreamReader, BitStreamWriter, dsk_t

PROPERTY = "C24"
RULE = """A case is a 16 byte key carried through a generated chain of representations (bytes, text, key object,
message field given to the constructor or assigned, frame, saved state), or key bytes of another length
given in one of the ways a key can be set or read.  Non-trivial: a chain of at least two conversions of a
key whose words are not all equal, or a refused/empty key."""
ASSUMPTIONS = ["text keys are eight groups of five decimal digits, each at most 65535"]
QUICK = 1200
THOROUGH = 60000

FORMS = ["bytes", "text", "object", "constructor", "assign", "frame", "state", "stream"]
REPORTS = {
    # message: (other fields, bytes in front of the key in the frame)
    "NetworkManagementInclusion.NodeAddDSKReport": ({"seqNo": 3, "inputDSKLength": 2}, "34130302"),
    "NetworkManagementInclusion.SmartStartJoinStartedReport": ({"seqNo": 4, "dskLength": 16}, "34150410"),
    "NetworkManagementInclusion.IncludedNIFReport": ({"seqNo": 5, "dskLength": 16}, "34190510"),
    "NodeProvisioning.Set": ({"seqNo": 6}, "78010610"),
}
READ_ONLY = {"NodeProvisioning.ListIterationReport": "7804070110"}
WORDS = st.one_of(st.integers(0, 0xFFFF), st.sampled_from([0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 65535, 255, 256]))
KEYS = st.one_of(
    st.binary(min_size=16, max_size=16),
    st.lists(WORDS, min_size=8, max_size=8).map(lambda ws: b"".join(w.to_bytes(2, "big") for w in ws)),
).map(bytes.hex)


def strategy():
    chain = st.fixed_dictionaries(
        {"key": KEYS, "forms": st.lists(st.sampled_from(FORMS), min_size=1, max_size=7), "message": st.sampled_from(sorted(REPORTS)),
         "other": KEYS, "before": st.booleans()}
    )
    wrong = st.fixed_dictionaries(
        {
            "wrong": st.one_of(st.integers(0, 40), st.integers(0, 18)).filter(lambda n: n != 16).flatmap(lambda n: st.binary(min_size=n, max_size=n)).map(bytes.hex),
            "way": st.sampled_from(["constructor", "assign", "setstate", "deserializeN", "frame", "partial"]),
            "message": st.sampled_from(sorted(REPORTS) + sorted(READ_ONLY)),
        }
    )
    return st.one_of(chain, chain, wrong)


def key_of(message_name, how, value, before):
    fields = dict(REPORTS[message_name][0])
    cls = find_class(message_name)
    if how == "constructor":
        return cls(dsk=value, **fields)
    message = cls(**fields)
    if before is not None:
        message.dsk = before
    message.dsk = value
    return message


def run(case, rec):
    if "wrong" in case:
        run_wrong(case, rec)
        return
    raw = bytes.fromhex(case["key"])
    other = bytes.fromhex(case["other"])
    text = dsk_text(raw)
    prefix = bytes.fromhex(REPORTS[case["message"]][1])
    value = raw  # the current representation
    for form in case["forms"]:
        where = "key %s as %s" % (raw.hex(), form)
        with observing(where):
            if form == "bytes":
                if not isinstance(value, bytes):
                    stream = BitStreamWriter()
                    as_object(value).serialize(stream)
                    value = bytes(stream)
                same(value, raw, where)
            elif form == "text":
                value = str(as_object(value))
                same(value, text, where)
                same(as_object(value).__getstate__(), text, "state of " + where)
            elif form == "object":
                value = as_object(value)
                check(value, raw, other, where)
            elif form in ("constructor", "assign"):
                message = key_of(case["message"], form, value, other if case["before"] else None)
                check(message.dsk, raw, other, where)
                same(bytes(message.compose()).hex(), (prefix + raw).hex(), "message with " + where)
                value = message.dsk
            elif form == "frame":
                frame = bytes(key_of(case["message"], "constructor", value, None).compose())
                same(frame.hex(), (prefix + raw).hex(), "frame with " + where)
                message = Message.decode(frame)
                check(message.dsk, raw, other, where)
                value = message.dsk
            elif form == "state":
                message = key_of(case["message"], "constructor", value, None)
                state = message.__getstate__()
                same(state["dsk"], text, "saved state of " + where)
                restored = find_class(case["message"])()
                restored.__setstate__(state)
                check(restored.dsk, raw, other, where)
                value = restored.dsk
            elif form == "stream":
                stream = BitStreamWriter()
                as_object(value).serialize(stream)
                value = bytes(dsk_t.deserialize(BitStreamReader(bytes(stream) + b"more")))
                same(value, raw, where)
            else:
                raise HarnessError(form)
        rec.label(form)
    rec.nontrivial(len(case["forms"]) >= 2 and len(set(raw)) > 1)


def as_object(value):
    if isinstance(value, dsk_t):
        return value
    key = dsk_t()
    key.__setstate__(value)
    return key


def check(key, raw, other, where):
    text = dsk_text(raw)
    require(isinstance(key, dsk_t), "%s is a %s", where, type(key).__name__)
    require(key == text, "%s is %s and not equal to its text", where, key)
    require(not key == raw, "%s is equal to its bytes", where)
    require(key != raw, "%s is equal to its bytes", where)
    words = text.split("-")
    for near in (" " + text, text + " ", text + "\n", "\t" + text, "".join(words), " ".join(words), "-".join(words[:7]), text + "-", text + "-00000", text[:-1], text[:29], "0" + text, ""):
        require(not key == near, "%s is equal to %r", where, near)
        require(key != near, "%s is equal to %r", where, near)
    if other != raw:
        require(not key == dsk_text(other), "%s is equal to another key", where)
        require(key != dsk_text(other), "%s is equal to another key", where)
    same(str(key), text, "text of %s", where)
    same(repr(key), text, "text of %s", where)
    stream = BitStreamWriter()
    key.serialize(stream)
    same(bytes(stream).hex(), raw.hex(), "bytes of %s", where)


def run_wrong(case, rec):
    raw = bytes.fromhex(case["wrong"])
    name, way = case["message"], case["way"]
    rec.label("%s %s" % (way, "empty" if not raw else "wrong length"))
    rec.nontrivial()
    try:
        if way == "partial":
            # the part of a key entered by the user may be shorter
            message = find_class("NetworkManagementInclusion.NodeAddDSKSet")(seqNo=1, accept=True, inputDSKLength=len(raw) & 15, dsk=raw)
            if len(raw) > 16:
                raise Violation("a key of %d bytes was accepted as the part entered by a user: %s" % (len(raw), message.dsk))
            data = bytes(message.compose())
            same(data.hex(), (bytes([0x34, 0x14, 1, 0x80 | len(raw)]) + raw).hex(), "NodeAddDSKSet with %s", raw.hex())
            same(str(message.dsk), dsk_text(raw), "entered part %s as text", raw.hex())
            return
        if way == "deserializeN":
            key = dsk_t.deserializeN(BitStreamReader(raw + b"more"), len(raw))
        elif way == "frame":
            if name.endswith("NodeAddDSKReport"):
                if len(raw) > 16:
                    return
                data = bytes.fromhex("34130300") + raw
            elif len(raw) > 31:
                return
            else:
                prefix = bytes.fromhex(READ_ONLY.get(name) or REPORTS[name][1])
                data = prefix[:-1] + bytes([len(raw)]) + raw + (b"" if name.endswith("Report") else b"")
            if raw and name.endswith(("NodeAddDSKReport",)) and len(raw) == 16:
                return
            key = Message.decode(data).dsk
            if key is None:
                key = b""
        elif way == "setstate":
            key = dsk_t()
            key.__setstate__(raw)
        elif name in READ_ONLY:
            key = find_class(name)(dsk=raw).dsk
        else:
            key = key_of(name, way, raw, None).dsk
    except (HarnessError, Violation):
        raise
    except Exception:  # pylint: disable=broad-except
        require(raw, "no key at all is refused (%s, %s)", way, name)
        return
    require(not raw, "a key of %d bytes was accepted (%s, %s): %r", len(raw), way, name, key)
    with observing("no key at all"):
        if isinstance(key, dsk_t):
            same(str(key), "", "no key at all as text")
            stream = BitStreamWriter()
            key.serialize(stream)
            key = bytes(stream)
        same(bytes(key), b"", "no key at all")
