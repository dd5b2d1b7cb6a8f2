"""What can be learned about a node's command classes: JSON contents, how to put them in, how to read them."""
from hypothesis import strategies as st

from lib.core import HarnessError, require, same
from lib.layout import edge_ints, mostly, plain

ASSOCIATION, AGI, CONFIGURATION, SENSOR, VERSION, MANUFACTURER, ZWAVEPLUS = 0x85, 0x59, 0x70, 0x31, 0x86, 0x72, 0x5E
MULTI_CHANNEL, MULTI_CHANNEL_ASSOCIATION, SUPERVISION = 0x60, 0x8E, 0x6C
BASIC, SWITCH, BATTERY, METER, INDICATOR = 0x20, 0x25, 0x80, 0x32, 0x87

NUMBERS = {
    VERSION: [("zwaveLibraryType", 8), ("zwaveProtocolVersion", 8), ("zwaveProtocolSubVersion", 8), ("applicationVersion", 8), ("applicationSubVersion", 8)],
    MANUFACTURER: [("manufacturerID", 16), ("productTypeID", 16), ("productID", 16)],
    ZWAVEPLUS: [("zwavePlusVersion", 8), ("roleType", 8), ("nodeType", 8), ("installerIconType", 16), ("userIconType", 16)],
}
STATEFUL = [ASSOCIATION, AGI, CONFIGURATION, SENSOR, VERSION, MANUFACTURER, ZWAVEPLUS]

NAMES = st.one_of(
    st.text(st.characters(exclude_categories=("Cs",)), max_size=12),
    st.sampled_from(["", "yes", "null", "~", "1", "True", "- a", "a: b", "{}", "[]", "#x", "'", '"', "\n", "é", "  lead", "!tag", "|", "0x1F", "1e3", "=", "<<", "2001-01-01", "\ufeffname", "name ", "A\u030a", "\u212b", "a\r\nb", "\x85", "\u2028", "%s", "\\", "NAME", "\U0001f600"]),
)
MEMBERS = st.lists(st.tuples(st.integers(1, 232), st.one_of(st.none(), st.integers(0, 127))).map(list), max_size=5)


def ids(high=255, size=4):
    return st.lists(edge_ints(1, high), max_size=size, unique=True)


def many(cmdClass):
    """Much content, made from a few choices."""

    def make(choice):
        start, step, count, one = choice
        keys = sorted({(start + step * i) % 255 + 1 for i in range(count)})
        if cmdClass == CONFIGURATION:
            return {str(k): [(one * 257 + 41 * k) % (1 << 8 * s), s] for k, s in ((k, (1, 2, 4)[(k + one) % 3]) for k in keys)}
        if cmdClass == SENSOR:
            return {str(k): (one + k) % 16 for k in keys}
        if cmdClass == AGI:
            return {
                str(k): {"profile": (one * 256 + k) & 0xFFFF, "name": "Group %d" % (k + one), "commands": [[(one + j) & 0xFF, j] for j in range(k % 4)]}
                for k in keys
            }
        return {str(k): [(one + k) & 0xFF, [[(one + j) % 232 + 1, None if j % 2 else k % 8] for j in range((k * 5 + one) % 30)]] for k in range(1, min(count, 30) + 1)}

    return st.tuples(st.integers(0, 254), st.sampled_from([1, 1, 2, 7]), st.sampled_from([16, 33, 65, 101, 129, 255]), st.integers(0, 255)).map(make)


def content(cmdClass):
    """Strategy of the content of a command class."""
    usual = few(cmdClass)
    if cmdClass in (ASSOCIATION, AGI, CONFIGURATION, SENSOR):
        return mostly(usual, many(cmdClass), 24)
    return usual


def few(cmdClass):
    if cmdClass == ASSOCIATION:
        return ids(20).flatmap(
            lambda keys: st.fixed_dictionaries({str(k): st.tuples(st.integers(0, 255), MEMBERS).map(list) for k in keys})
        )
    if cmdClass == AGI:
        item = st.fixed_dictionaries(
            {"profile": edge_ints(0, 0xFFFF)},
            optional={"name": NAMES, "commands": st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)).map(list), max_size=4)},
        )
        return ids(255).flatmap(lambda keys: st.fixed_dictionaries({str(k): item for k in keys}))
    if cmdClass == CONFIGURATION:
        item = st.sampled_from([1, 2, 4]).flatmap(lambda s: st.tuples(edge_ints(0, (1 << 8 * s) - 1), st.just(s)).map(list))
        return ids(255).flatmap(lambda keys: st.fixed_dictionaries({str(k): item for k in keys}))
    if cmdClass == SENSOR:
        return ids(255).flatmap(lambda keys: st.fixed_dictionaries({str(k): st.integers(0, 15) for k in keys}))
    if cmdClass in NUMBERS:
        return st.fixed_dictionaries({}, optional={name: edge_ints(0, (1 << size) - 1) for name, size in NUMBERS[cmdClass]})
    return st.just({})


def contents(cmdClass):
    """Content with version and interviewed flag."""
    return st.fixed_dictionaries({"version": st.integers(0, 255), "interviewed": st.booleans(), "content": content(cmdClass)})


def state_of(cmdClass, learned):
    """Saved state (plain values) holding the content."""
    state = {"version": learned["version"], "interviewed": learned["interviewed"]}
    data = learned["content"]
    if cmdClass == ASSOCIATION:
        state["groupings"] = {
            int(k): {"maxNodes": v[0], "nodes": [str(n) if e is None else "%d:%d" % (n, e) for n, e in v[1]]} for k, v in data.items()
        }
    elif cmdClass == AGI:
        state["groupings"] = {int(k): dict(v) for k, v in data.items()}
    elif cmdClass == CONFIGURATION:
        state["parameters"] = {int(k): {"value": v[0], "size": v[1]} for k, v in data.items()}
    elif cmdClass == SENSOR:
        state["supportedTypes"] = {int(k): v for k, v in data.items()}
    else:
        state.update(data)
    return state


def read(cmdClass, obj):
    """Content of a command class object in the same JSON form, through its public attributes."""
    if cmdClass == ASSOCIATION:
        return {
            str(int(k)): [int(v.maxNodes), [[int(n), None if e is None else int(e)] for n, e in v.nodes]] for k, v in obj.groupings.items()
        }
    if cmdClass == AGI:
        out = {}
        for key, value in obj.groupings.items():
            out[str(int(key))] = {"profile": int(value.profile), "name": str(value.name), "commands": [[int(a), int(b)] for a, b in value.commands]}
        return out
    if cmdClass == CONFIGURATION:
        return {str(int(k)): [int(v.value), int(v.size)] for k, v in obj.parameters.items()}
    if cmdClass == SENSOR:
        return {str(int(k)): int(v) for k, v in obj.supportedTypes.items()}
    if cmdClass in NUMBERS:
        return {name: int(getattr(obj, name)) for name, _ in NUMBERS[cmdClass]}
    return {}


def wanted(cmdClass, data):
    """`read()` of an object holding the content."""
    if cmdClass == AGI:
        return {k: {"profile": v["profile"], "name": v.get("name", ""), "commands": v.get("commands", [])} for k, v in data.items()}
    if cmdClass in NUMBERS:
        return {name: data.get(name, 0) for name, _ in NUMBERS[cmdClass]}
    return data


def check_types(cmdClass, obj, where):
    """Keys and values have the types a user relies on (a string 7 is not the number 7)."""
    def number(value, what):
        require(isinstance(value, int) and not isinstance(value, bool), "%s: %s is %r", where, what, value)

    number(obj.version, "version")
    require(obj.interviewed is True or obj.interviewed is False, "%s: interviewed is %r", where, obj.interviewed)
    if cmdClass in (ASSOCIATION, AGI):
        for key, value in obj.groupings.items():
            number(key, "group identifier")
            if cmdClass == ASSOCIATION:
                number(value.maxNodes, "maxNodes")
                for node, endpoint in value.nodes:
                    number(node, "member")
                    if endpoint is not None:
                        number(endpoint, "member endpoint")
            else:
                number(value.profile, "profile")
                require(isinstance(value.name, str), "%s: group name is %r", where, value.name)
                for pair in value.commands:
                    for item in pair:
                        number(item, "command")
    elif cmdClass == CONFIGURATION:
        for key, value in obj.parameters.items():
            number(key, "parameter number")
            number(value.value, "parameter value")
            number(value.size, "parameter size")
    elif cmdClass == SENSOR:
        for key, value in obj.supportedTypes.items():
            number(key, "sensor type")
            number(value, "scales")
    elif cmdClass in NUMBERS:
        for name, _ in NUMBERS[cmdClass]:
            number(getattr(obj, name), name)
