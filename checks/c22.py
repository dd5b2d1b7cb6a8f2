"""Typed attributes keep their value and type through every way of setting them."""
from lib import bootstrap  # noqa: F401  isort:skip
import ipaddress

from hypothesis import strategies as st

from pyzwave.commandclass import Association, AssociationGrpInfo, CommandClass, Configuration, NetworkManagementInclusion, SensorMultilevel, VarDictAttribute
from lib import states
from lib.core import HarnessError, Violation, observing, require, same
from lib.layout import dsk_text, edge_ints
from pyzwave import types
from pyzwave.message import Message
from pyzwave.util import AttributesMixin

PROPERTY = "C22"
RULE = """A case declares an object (attribute holder, message or command class) with a few attributes of
generated types, and a history on it: create with values, assign values in different notations, read,
save and restore into a new object.  Non-trivial: a history with at least two assignments to one attribute, or
a save with an attribute set."""
ASSUMPTIONS = [
    "saving and restoring is for the types used by stored settings (numbers, texts, keys, members, tables)",
    "assigning the default value to an attribute that was never set may or may not count as a change",
]
QUICK = 1200
THOROUGH = 60000

CommandsType = dict(AssociationGrpInfo.Group.attributes)["commands"]


def number(cls, low, high, stored=True):
    def notations(value):
        return {"plain": value, "typed": cls(value)}

    return {
        "cls": cls,
        "values": edge_ints(low, high),
        "notations": notations,
        "norm": int,
        "wanted": lambda v: v,
        "stored": stored,
        "state": lambda v: v,
    }


def with_enum(entry, enumType):
    plain = entry["notations"]

    def notations(value):
        out = plain(value)
        try:
            out["enum"] = enumType(value)
        except ValueError:
            pass
        return out

    return dict(entry, notations=notations)


def flag():
    return {
        "cls": types.flag_t,
        "values": st.integers(0, 1),
        "notations": lambda v: {"plain": bool(v), "int": v, "typed": types.flag_t(v)},
        "norm": int,
        "wanted": lambda v: v,
        "stored": False,
    }


def text(cls):
    return {
        "cls": cls,
        "values": states.NAMES,
        "notations": lambda v: {"plain": v, "typed": cls(v)},
        "norm": str,
        "wanted": lambda v: v,
        "stored": True,
        "state": lambda v: v,
    }


HEX16 = st.binary(min_size=16, max_size=16).map(bytes.hex)


def dsk_notations(value):
    raw = bytes.fromhex(value)
    typed = types.dsk_t()
    typed.__setstate__(raw)
    return {"plain": raw, "text": dsk_text(raw), "typed": typed}


def nodes_notations(value):
    pairs = [tuple(v) for v in value]
    out = {"plain": pairs, "text": [str(n) if e is None else "%d:%d" % (n, e) for n, e in value]}
    if all(e is None for _, e in value):
        out["ids"] = [n for n, _ in value]
    return out


def table(cmdClass, attribute):
    cls = {states.ASSOCIATION: Association.Association, states.AGI: AssociationGrpInfo.AssociationGrpInfo,
           states.CONFIGURATION: Configuration.Configuration, states.SENSOR: SensorMultilevel.SensorMultilevel}[cmdClass]
    declared = dict(cls.attributes)[attribute]

    class Holder:
        """What lib.states.read() looks at."""

    def norm(value):
        holder = Holder()
        setattr(holder, attribute, value)
        return states.read(cmdClass, holder)

    def state(value):
        return states.state_of(cmdClass, {"version": 0, "interviewed": False, "content": value})[attribute]

    return {
        "cls": declared,
        "values": states.content(cmdClass),
        "notations": lambda v: {"plain": state(v)},
        "norm": norm,
        "wanted": lambda v: states.wanted(cmdClass, v),
        "stored": True,
        "state": state,
        "container": True,
    }


def association_group():
    return {
        "cls": Association.Group,
        "values": st.tuples(st.integers(0, 255), states.MEMBERS).map(list),
        "notations": lambda v: {"plain": {"maxNodes": v[0], "nodes": [str(n) if e is None else "%d:%d" % (n, e) for n, e in v[1]]}},
        "norm": lambda g: [int(g.maxNodes), [[n, e] for n, e in g.nodes]],
        "wanted": lambda v: v,
        "stored": True,
        "state": lambda v: {"maxNodes": v[0], "nodes": [str(n) if e is None else "%d:%d" % (n, e) for n, e in v[1]]},
        "container": True,
    }


TYPES = {
    "uint8": number(types.uint8_t, 0, 255),
    "uint16": number(types.uint16_t, 0, 65535),
    "uint32": number(types.uint32_t, 0, 2 ** 32 - 1),
    "homeid": number(types.HomeID, 0, 2 ** 32 - 1),
    "int24": number(types.int24_t, -(1 << 23), (1 << 23) - 1),
    "uint3": number(types.uint3_t, 0, 7, stored=False),
    "uint7": number(types.uint7_t, 0, 127, stored=False),
    "int": number(int, -(1 << 40), 1 << 40),
    "bits5": number(types.bits_t(5), 0, 31, stored=False),
    "bits1": number(types.bits_t(1), 0, 1, stored=False),
    "enum8": with_enum(number(SensorMultilevel.SensorType_t, 0, 255), SensorMultilevel.SensorType),
    "enumflag": with_enum(number(types.enum_t(NetworkManagementInclusion.Keys, types.uint8_t), 0, 255), NetworkManagementInclusion.Keys),
    "size": with_enum(number(Configuration.Size_t, 0, 7, stored=False), Configuration.Size),
    "flag": flag(),
    "str": text(str),
    "str_t": text(types.str_t),
    "bytes": {
        "cls": types.bytes_t,
        "values": st.binary(max_size=6).map(bytes.hex),
        "notations": lambda v: {"plain": bytes.fromhex(v), "array": bytearray.fromhex(v), "typed": types.bytes_t(bytes.fromhex(v))},
        "norm": lambda v: bytes(v).hex(),
        "wanted": lambda v: v,
        "stored": False,
    },
    "ipv6": {
        "cls": types.IPv6,
        "values": HEX16,
        "notations": lambda v: {
            "plain": ipaddress.IPv6Address(bytes.fromhex(v)),
            "bytes": bytes.fromhex(v),
            "text": str(ipaddress.IPv6Address(bytes.fromhex(v))),
            "typed": types.IPv6(bytes.fromhex(v)),
        },
        "norm": lambda v: v.packed.hex(),
        "wanted": lambda v: v,
        "stored": False,
    },
    "dsk": {
        "cls": types.dsk_t,
        "values": HEX16,
        "notations": dsk_notations,
        "norm": str,
        "wanted": lambda v: dsk_text(bytes.fromhex(v)),
        "stored": True,
        "state": lambda v: dsk_text(bytes.fromhex(v)),
    },
    "float": {
        "cls": types.float_t,
        "values": st.tuples(st.integers(-1000, 1000), st.sampled_from([1, 2, 4]), st.integers(0, 3)).map(list),
        "notations": lambda v: {"plain": (v[0] / 8, v[1], v[2]), "typed": types.float_t(v[0] / 8, v[1], v[2])},
        "norm": lambda v: [float(v) * 8, v.scale],
        "wanted": lambda v: [float(v[0]), v[2]],
        "stored": False,
        # the size is only the notation
        "compare": lambda v: [v[0], v[2]],
    },
    "nodes": {
        "cls": Association.Nodes,
        "values": states.MEMBERS,
        "notations": nodes_notations,
        "norm": lambda v: [[n, e] for n, e in v],
        "wanted": lambda v: v,
        "stored": True,
        "state": lambda v: [str(n) if e is None else "%d:%d" % (n, e) for n, e in v],
    },
    "commands": {
        "cls": CommandsType,
        "values": st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)).map(list), max_size=3),
        "notations": lambda v: {"plain": v, "tuples": [tuple(p) for p in v], "text": [[str(a), str(b)] for a, b in v]},
        "norm": lambda v: [[a, b] for a, b in v],
        "wanted": lambda v: v,
        "stored": True,
        "state": lambda v: v,
    },
    "association table": table(states.ASSOCIATION, "groupings"),
    "group info table": table(states.AGI, "groupings"),
    "parameters": table(states.CONFIGURATION, "parameters"),
    "sensors": table(states.SENSOR, "supportedTypes"),
    "association group": association_group(),
}


@st.composite
def strategy_(draw):
    names = draw(st.lists(st.sampled_from(sorted(TYPES)), min_size=1, max_size=3))

    def value(i):
        entry = TYPES[names[i]]
        v = draw(entry["values"])
        return [v, draw(st.sampled_from(sorted(entry["notations"](v))))]

    indexes = st.integers(0, len(names) - 1)
    ops = []
    recent = {}
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["set", "set", "set", "again", "get", "restore", "overwrite", "new"]))
        if kind == "set":
            i = draw(indexes)
            recent[i] = value(i)
            ops.append(["set", i, recent[i]])
        elif kind == "again":
            i = draw(indexes)
            if i in recent:
                # the same value, possibly in another notation
                v = recent[i][0]
                ops.append(["set", i, [v, draw(st.sampled_from(sorted(TYPES[names[i]]["notations"](v))))]])
        elif kind == "get":
            ops.append(["get", draw(indexes)])
        elif kind == "new":
            chosen = sorted(draw(st.sets(indexes)))
            ops.append(["new", [[i, value(i)] for i in chosen]])
        elif kind == "overwrite":
            # restored into an object which has values of its own
            chosen = sorted(draw(st.sets(indexes, min_size=1)))
            ops.append(["restore", [[i, value(i)] for i in chosen]])
        else:
            ops.append(["restore"])
    return {"base": draw(st.sampled_from(["mixin", "message", "class"])), "types": names, "ops": ops}


def strategy():
    return strategy_()


class Observed:
    """Creates objects of a class with the declared attributes that note what they are told."""

    def __init__(self, base, names):
        told = self.told = []
        bases = {"mixin": AttributesMixin, "message": Message, "class": CommandClass}
        self.base = base

        def attributeUpdated(_self, name, newValue, oldValue):
            told.append((name, newValue, oldValue))

        self.cls = type(
            "Generated",
            (bases[base],),
            {
                "NAME": "GENERATED",
                "attributes": tuple(("a%d" % i, TYPES[n]["cls"]) for i, n in enumerate(names)),
                "attributeUpdated": attributeUpdated,
            },
        )

    def create(self, kwargs):
        if self.base == "class":
            # command classes are created without values
            obj = self.cls(False, None)
            for name, value in kwargs.items():
                setattr(obj, name, value)
        else:
            obj = self.cls(**kwargs)
        del self.told[:]
        return obj


def is_plain(value):
    if type(value) in (int, str, bool, float, type(None), bytes):
        return True
    if type(value) is list:
        return all(is_plain(v) for v in value)
    if type(value) is dict:
        return all(is_plain(k) and is_plain(v) for k, v in value.items())
    return False


def without_defaults(state, wanted):
    """Without what reading an attribute that was never set left behind: its empty default."""
    if type(state) is dict and type(wanted) is dict:
        return {k: without_defaults(v, wanted.get(k)) for k, v in state.items() if k in wanted or v}
    return state


def run(case, rec):
    names = case["types"]
    entries = [TYPES[n] for n in names]
    factory = Observed(case["base"], names)
    obj = factory.create({})
    model = {}
    counts = {}

    def verify(obj, i, where):
        entry = entries[i]
        value = getattr(obj, "a%d" % i)
        with observing(where):
            require(isinstance(value, entry["cls"]), "%s: attribute is a %s instead of a %s", where, type(value).__name__, entry["cls"].__name__)
            same(entry["norm"](value), entry["wanted"](model[i]), where)

    for op in case["ops"]:
        where = "%s of %s after %s" % (names, case["base"], op)
        if op[0] == "new":
            kwargs = {"a%d" % i: entries[i]["notations"](v)[n] for i, (v, n) in op[1]}
            obj = factory.create(kwargs)
            model = {i: v for i, (v, _) in op[1]}
        elif op[0] == "set":
            i, (value, notation) = op[1], op[2]
            entry = entries[i]
            counts[i] = counts.get(i, 0) + 1
            given = entry["notations"](value)[notation]
            del factory.told[:]
            setattr(obj, "a%d" % i, given)
            told = list(factory.told)
            compare = entry.get("compare", lambda v: v)
            old, new = model.get(i), value
            had = i in model
            # an unchanged value stays what it is
            changed = not had or compare(old) != compare(new)
            if changed:
                model[i] = value
            with observing("what observers were told, " + where):
                if entry.get("container"):
                    # tables are compared by identity, nothing is said about equal ones
                    if changed:
                        require(len(told) <= 1, "%s: observers were told %d times", where, len(told))
                    if had and changed:
                        require(len(told) == 1, "%s: observers were not told", where)
                elif not changed:
                    require(not told, "%s: the value did not change but observers were told %s", where, told)
                elif not had and is_default(entry, value):
                    require(len(told) <= 1, "%s: observers were told %d times", where, len(told))
                else:
                    require(len(told) == 1, "%s: observers were told %d times", where, len(told))
                for name, newValue, oldValue in told:
                    same(name, "a%d" % i, "attribute observers were told about, " + where)
                    same(entry["norm"](newValue), entry["wanted"](value), "new value observers were told, " + where)
                    if had and not entry.get("container"):
                        same(entry["norm"](oldValue), entry["wanted"](old), "old value observers were told, " + where)
        elif op[0] == "get":
            i = op[1]
            if i in model:
                verify(obj, i, where)
            elif case["base"] == "message":
                # what an attribute is before it was set is another property, but looking must not disturb
                getattr(obj, "a%d" % i)
        elif op[0] == "restore":
            if not all(entries[i]["stored"] for i in model):
                continue
            state = obj.__getstate__()
            with observing("saved state, " + where):
                for i in model:
                    require(is_plain(state["a%d" % i]), "%s: saved state of %s is %r", where, names[i], state["a%d" % i])
                    wanted = entries[i]["state"](model[i])
                    same(without_defaults(state["a%d" % i], wanted), wanted, "saved state, " + where)
            own = op[1] if len(op) > 1 else []
            restored = factory.create({"a%d" % i: entries[i]["notations"](v)[n] for i, (v, n) in own})
            restored.__setstate__(state)
            rec.nontrivial(model)
            rec.label("restored over other values" if own else "restored")
            for i, (v, _) in own:
                # what was not saved stays
                if "a%d" % i not in state:
                    model[i] = v
            for i in model:
                verify(restored, i, "restored, " + where)
            # the original is not touched by using the copy
            obj = restored
        for i in model:
            verify(obj, i, where)
    rec.label("base " + case["base"])
    for name in names:
        rec.label("type " + name)
    rec.nontrivial(any(c >= 2 for c in counts.values()))


def is_default(entry, value):
    try:
        default = entry["norm"](entry["cls"]())
    except Exception:  # pylint: disable=broad-except
        return False
    return default == entry["wanted"](value)
