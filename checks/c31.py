"""Named values, command classes and commands stand for the specification's numbers."""
from lib import bootstrap  # noqa: F401  isort:skip
import importlib

from hypothesis import strategies as st

from lib import layout
from lib.core import observing, require, same
from lib.layout import FIELDS, LAYOUT, arguments, build, edge_ints, find_class, keys_of, message_strategy
from pyzwave import adapter
from pyzwave.commandclass import CommandClass, cmdClasses
from pyzwave.message import Message

PROPERTY = "C31"
RULE = """A case is a command with an enumerated field, option or metadata entry holding a generated number, named or
not, decoded, composed from the named value, shown as text and looked up by name, or a command class or command by its
number.  Names and numbers are compared with a table written from the Z-Wave specification.  Non-trivial: the number has
a name."""
ASSUMPTIONS = ["how combined flags are shown is not part of it", "members which the specification has and the library does not name are kept as numbers"]
QUICK = 1500
THOROUGH = 50000

# From the Z-Wave application, network and Z/IP gateway specifications
KEYS = {"UNAUTHENTICATED_SECURITY_CLASS": 1, "AUTHENTICATED_SECURITY_CLASS": 2, "ACCESS_CONTROL_SECURITY_CLASS": 4, "SECURITY_0_NETWORK_KEY": 128}
ENUMS = {
    "ApplicationStatus.Status": {"TRY_AGAIN_LATER": 0, "TRY_AGAIN_IN_WAIT_TIME_SECONDS": 1, "REQUEST_QUEUED_EXECUTED_LATER": 2},
    "Configuration.Size": {"SIZE_8_BIT": 1, "SIZE_16_BIT": 2, "SIZE_32_BIT": 4},
    "Mailbox.Mode": {"DISABLE_MAILBOX": 0, "ENABLE_MAILBOX_SERVICE": 1, "ENABLE_MAILBOX_PROXY_FORWARDING": 2},
    "Mailbox.Queue.Operation": {"PUSH": 0, "POP": 1, "WAITING": 2, "PING": 3, "ACK": 4, "NACK": 5, "QUEUE_FULL": 6},
    "Meter.MeterType": {"ELECTRIC_METER": 1, "GAS_METER": 2, "WATER_METER": 3, "HEATING_METER": 4, "COOLING_METER": 5},
    "Meter.RateType": {"UNSPECIFIED": 0, "IMPORT": 1, "EXPORT": 2, "BOTH_IMPORT_AND_EXPORT": 3},
    "Meter.ElectricMeterScale": {"KWH": 0, "KVAH": 1, "W": 2, "PULSE_COUNT": 3, "V": 4, "A": 5, "POWER_FACTOR": 6, "MST": 7},
    "NetworkManagementInclusion.FailedNodeRemoveStatus.Status": {"NOT_FOUND": 0, "DONE": 1, "REMOVE_FAIL": 2},
    "NetworkManagementInclusion.NodeAdd.Mode": {"ANY": 1, "STOP": 5, "ANY_S2": 7},
    "NetworkManagementInclusion.Keys": KEYS,
    "NetworkManagementInclusion.NodeAddStatus.Status": {
        "NODE_FOUND": 2, "ADD_SLAVE": 3, "PROTOCOL_DONE": 5, "DONE": 6, "FAILED": 7, "SECURITY_FAILED": 9,
    },
    "NetworkManagementInclusion.NodeRemove.Mode": {"ANY": 1, "STOP": 5},
    "NetworkManagementInclusion.NodeRemoveStatus.Status": {"DONE": 6, "FAILED": 7},
    "NetworkManagementProxy.NodeInfoCachedReport.Status": {"OK": 0, "NOT_RESPONDING": 1, "UNKNOWN": 2},
    "NodeProvisioning.MetadataExtensionType": {
        "PRODUCT_TYPE": 0, "PRODUCT_ID": 1, "MAX_INCLUSION_REQUEST_INTERVAL": 2, "UUID16": 3, "NAME": 0x32, "LOCATION": 0x33,
        "SMART_START_INCLUSION_SETTING": 0x34, "ADVANCED_JOINING": 0x35, "BOOTSTRAPPING_MODE": 0x36, "NETWORK_STATUS": 0x37,
    },
    "SensorMultilevel.SensorType": {
        "TEMPERATURE": 1, "GENERAL_PURPOSE": 2, "LUMINANCE": 3, "POWER": 4, "HUMIDITY": 5, "VELOCITY": 6, "BAROMETRIC_PRESSURE": 9,
        "DEW_POINT": 0x0B, "RAIN_RATE": 0x0C, "WEIGHT": 0x0E, "VOLTAGE": 0x0F, "CO2": 0x11, "VOLUME": 0x13, "UV": 0x1B,
        "LOUDNESS": 0x1E, "MOISTURE": 0x1F, "PM25": 0x23, "CO": 0x28,
    },
    "Zip.IMEType": {
        "ROUTE_CHANGED": 0, "TRANSMISION_TIME": 1, "LAST_WORKING_ROUTE": 2, "RSSI": 3, "ACK_CHANNEL": 4, "TRANSMIT_CHANNEL": 5,
        "ROUTING_SCHEME": 6, "ROUTING_ATTEMPTS": 7, "LAST_FAILED_LINK": 8,
    },
    "Zip.IMELastWorkingRoute.Speed": {"SPEED_9_6_KBIT_S": 1, "SPEED_40_KBIT_S": 2, "SPEED_100_KBIT_S": 3},
    "Zip.ZIPPacketOptionType": {
        "EXPECTED_DELAY": 1, "MAINTENANCE_GET": 2, "MAINTENANCE_REPORT": 3, "ENCAPSULATION_FORMAT_INFORMATION": 4, "ZWAVE_MULTICAST_ADDRESSING": 5,
    },
    "TxOptions": {"NULL": 0, "TRANSMIT_OPTION_LOW_POWER": 2, "TRANSMIT_OPTION_EXPLORE": 0x20},
}
FLAGS = ["NetworkManagementInclusion.Keys", "Mailbox.Mode", "TxOptions"]

# (message, field, enumeration); "shown": the text of the value has the name
SHOWN = [
    ("ApplicationStatus.ApplicationBusy", "status", "ApplicationStatus.Status"),
    ("Configuration.Report", "size", "Configuration.Size"),
    ("Configuration.Set", "size", "Configuration.Size"),
    ("Configuration.BulkReport", "size", "Configuration.Size"),
    ("Mailbox.ConfigurationSet", "mode", "Mailbox.Mode"),
    ("Mailbox.ConfigurationReport", "mode", "Mailbox.Mode"),
    ("Mailbox.Queue", "operation", "Mailbox.Queue.Operation"),
    ("Meter.Get", "rateType", "Meter.RateType"),
    ("Meter.Report", "rateType", "Meter.RateType"),
    ("Meter.Report", "meterType", "Meter.MeterType"),
    ("Meter.SupportedReport", "rateType", "Meter.RateType"),
    ("Meter.SupportedReport", "meterType", "Meter.MeterType"),
    ("NetworkManagementInclusion.FailedNodeRemoveStatus", "status", "NetworkManagementInclusion.FailedNodeRemoveStatus.Status"),
    ("NetworkManagementInclusion.NodeAdd", "mode", "NetworkManagementInclusion.NodeAdd.Mode"),
    ("NetworkManagementInclusion.NodeAddKeysReport", "requestedKeys", "NetworkManagementInclusion.Keys"),
    ("NetworkManagementInclusion.NodeAddKeysSet", "grantedKeys", "NetworkManagementInclusion.Keys"),
    ("NetworkManagementInclusion.NodeAddStatus", "status", "NetworkManagementInclusion.NodeAddStatus.Status"),
    ("NetworkManagementInclusion.NodeRemove", "mode", "NetworkManagementInclusion.NodeRemove.Mode"),
    ("NetworkManagementInclusion.NodeRemoveStatus", "status", "NetworkManagementInclusion.NodeRemoveStatus.Status"),
    ("NetworkManagementProxy.NodeInfoCachedReport", "status", "NetworkManagementProxy.NodeInfoCachedReport.Status"),
    ("SensorMultilevel.Get", "sensorType", "SensorMultilevel.SensorType"),
    ("SensorMultilevel.Report", "sensorType", "SensorMultilevel.SensorType"),
    ("SensorMultilevel.SupportedGetScale", "sensorType", "SensorMultilevel.SensorType"),
    ("SensorMultilevel.SupportedScaleReport", "sensorType", "SensorMultilevel.SensorType"),
]
# plain numbers which have names
NAMED = [
    ("NetworkManagementInclusion.NodeAdd", "txOptions", "TxOptions"),
    ("NetworkManagementInclusion.FailedNodeReplace", "txOptions", "TxOptions"),
]

CLASSES = {
    0x20: "BASIC", 0x22: "APPLICATION_STATUS", 0x23: "ZIP", 0x25: "SWITCH_BINARY", 0x31: "SENSOR_MULTILEVEL", 0x32: "METER",
    0x34: "NETWORK_MANAGEMENT_INCLUSION", 0x52: "NETWORK_MANAGEMENT_PROXY", 0x58: "ZIP_ND", 0x59: "ASSOCIATION_GRP_INFO",
    0x5E: "ZWAVEPLUS_INFO", 0x5F: "ZIP_GATEWAY", 0x69: "MAILBOX", 0x6C: "SUPERVISION", 0x70: "CONFIGURATION",
    0x72: "MANUFACTURER_SPECIFIC", 0x78: "NODE_PROVISIONING", 0x80: "BATTERY", 0x85: "ASSOCIATION", 0x86: "VERSION", 0x87: "INDICATOR",
}
# classes a node object has content and handlers for
OWN = [0x20, 0x31, 0x32, 0x59, 0x5E, 0x69, 0x70, 0x72, 0x80, 0x85, 0x86, 0x87]
# words of the command's name in the specification, where the library's is not the name of its class in capitals
COMMANDS = {
    "NetworkManagementInclusion.NodeNeightborUpdateRequest": "NODE_NEIGHBOR_UPDATE_REQUEST",
    "NetworkManagementInclusion.NodeNeightborUpdateStatus": "NODE_NEIGHBOR_UPDATE_STATUS",
    "NodeProvisioning.Set": "NODE_PROVISIONING_SET",
    "Supervision.Get": "SUPERVISION_GET",
    "Supervision.Report": "SUPERVISION_REPORT",
    "MultiChannelAssociation.MultiChannelGet": "MULTICHANNEL_GET",
    "MultiChannelAssociation.MultiChannelReport": "MULTICHANNEL_REPORT",
    "MultiChannelAssociation.MultiChannelSet": "MULTICHANNEL_SET",
    "NetworkManagementProxy.FailedNodeListGet": "COMMAND_FAILED_NODE_LIST_GET",
    "NetworkManagementProxy.FailedNodeListReport": "COMMAND_FAILED_NODE_LIST_REPORT",
    "NetworkManagementProxy.MultiChannelCapabilityGet": "NM_MULTI_CHANNEL_CAPABILITY_GET",
    "NetworkManagementProxy.MultiChannelCapabilityReport": "NM_MULTI_CHANNEL_CAPABILITY_REPORT",
    "NetworkManagementProxy.MultiChannelEndPointGet": "NM_MULTI_CHANNEL_END_POINT_GET",
    "NetworkManagementProxy.MultiChannelEndPointReport": "NM_MULTI_CHANNEL_END_POINT_REPORT",
    "ZipGateway.ApplicationNodeInfoSet": "COMMAND_APPLICATION_NODE_INFO_SET",
}


def command_name(name):
    """What the text of a command calls it."""
    if name in COMMANDS:
        return COMMANDS[name]
    cls = name.split(".")[1]
    out = ""
    for i, char in enumerate(cls):
        if char.isupper() and i and (cls[i - 1].islower() or (i + 1 < len(cls) and cls[i + 1].islower())):
            out += "_"
        out += char.upper()
    return out


def enumeration(path):
    """The library's enumeration of that name."""
    if path == "TxOptions":
        return adapter.TxOptions
    module, *rest = path.split(".")
    found = importlib.import_module("pyzwave.commandclass." + module)
    for part in rest:
        found = getattr(found, part)
    return found


def members(path):
    return {name: enumeration(path)[name] for name in ENUMS[path]}


def width(name, key):
    """Bits of the field."""
    return next(field.size for k, field in zip(keys_of(name), FIELDS[name]) if k == key)


@st.composite
def of_field(draw, table):
    name, key, path = draw(st.sampled_from(table))
    case = draw(message_strategy([name], reserved=False))
    sized = next((f for f in FIELDS[name] if isinstance(f, layout.SizedValue)), None)
    if sized and key == "size":
        number = draw(st.sampled_from([1, 2, 4]))
        case["fields"][sized.name] = [number, draw(st.integers(0, 127))]
    else:
        high = (1 << width(name, key)) - 1
        named = sorted(ENUMS[path].values())
        if path in FLAGS:
            named = sorted({a | b for a in named for b in named})
        number = draw(st.one_of(st.sampled_from(named), edge_ints(0, high)))
        case["fields"][key] = number
    return {"kind": "field", "name": name, "key": key, "path": path, "fields": case["fields"], "number": number}


def entries(path, high):
    named = sorted(ENUMS[path].values())
    return st.lists(st.one_of(st.sampled_from(named), edge_ints(0, high)), max_size=4, unique=True)


def strategy():
    value = st.binary(min_size=1, max_size=3).map(bytes.hex)
    return st.one_of(
        of_field(SHOWN),
        of_field(SHOWN),
        of_field(SHOWN),
        of_field(NAMED),
        st.fixed_dictionaries({"kind": st.just("metadata"), "types": entries("NodeProvisioning.MetadataExtensionType", 127).filter(bool), "value": value}),
        st.fixed_dictionaries({"kind": st.just("options"), "types": entries("Zip.ZIPPacketOptionType", 127), "ime": entries("Zip.IMEType", 255), "value": value}),
        st.fixed_dictionaries({"kind": st.just("speed"), "number": st.one_of(st.integers(0, 4), edge_ints(0, 255)), "route": st.lists(st.integers(0, 255), min_size=4, max_size=4)}),
        st.fixed_dictionaries({"kind": st.just("scale"), "type": st.one_of(st.just(1), st.integers(0, 31)), "scale": st.integers(0, 7), "value": st.integers(-128, 127), "rate": st.integers(0, 3)}),
        st.fixed_dictionaries({"kind": st.just("class"), "number": st.one_of(st.sampled_from(sorted(CLASSES)), edge_ints(0, 255))}),
        st.sampled_from(sorted(LAYOUT)).flatmap(lambda n: message_strategy([n])).map(lambda m: {"kind": "command", **m}),
        st.tuples(st.one_of(st.sampled_from(sorted(CLASSES)), edge_ints(0, 255)), edge_ints(0, 255)).map(lambda t: {"kind": "other command", "class": t[0], "command": t[1]}),
    )


def compare(value, path, number, what):
    """A value is equal to exactly the names of its number."""
    for name, member in members(path).items():
        require((value == member) is (number == ENUMS[path][name]), "%s is %d; equal to %s.%s: %r", what, number, path, name, value == member)
        same(int(member), ENUMS[path][name], "%s.%s", path, name)


def of_class(case, rec):
    number = case["number"]
    obj = CommandClass.load(number, False, None)
    with observing("command class %02x" % number):
        same(int(obj.id), number, "id of command class %02x", number)
        if number in OWN:
            same(obj.name, CLASSES[number], "name of command class %02x", number)
        else:
            require("%X" % number in obj.name.upper(), "name of command class %02x is %r", number, obj.name)
        same(cmdClasses.get(number), CLASSES.get(number), "registered name of command class %02x", number)
    rec.nontrivial(number in CLASSES)


def of_command(name, hid, data, rec):
    with observing("text of command %04x" % hid):
        message = Message.decode(data)
        same(int(message.hid()), hid, "number of command %s", name)
        same(int(message.cmdClass()), hid >> 8, "class of command %s", name)
        cmdClass = CLASSES.get(hid >> 8, "0x%02X" % (hid >> 8))
        command = command_name(name) if name else "0x%02X" % (hid & 0xFF)
        same(str(message), "<Z-Wave %s.%s>" % (cmdClass, command), "text of command %04x", hid)
    rec.nontrivial(name)


def run(case, rec):
    kind = case["kind"]
    rec.label(kind)
    if kind == "class":
        of_class(case, rec)
        return
    if kind == "command":
        of_command(case["name"], LAYOUT[case["name"]][0], build(case["name"], case["fields"]), rec)
        return
    if kind == "other command":
        hid = case["class"] << 8 | case["command"]
        if hid in layout.HIDS:
            return
        of_command(None, hid, bytes([case["class"], case["command"]]), rec)
        return
    if kind == "metadata":
        value = bytes.fromhex(case["value"])
        data = bytes.fromhex("7804") + bytes([1, 2, 0]) + b"".join(bytes([t << 1, len(value)]) + value for t in case["types"])
        with observing("metadata %s" % data.hex()):
            message = Message.decode(data)
            for name, member in members("NodeProvisioning.MetadataExtensionType").items():
                number = ENUMS["NodeProvisioning.MetadataExtensionType"][name]
                same(message.metaDataExtension.get(member), value if number in case["types"] else None, "metadata %s of %s", name, data.hex())
                rec.nontrivial(number in case["types"])
        return
    if kind == "options":
        of_options(case, rec)
        return
    if kind == "speed":
        ime = bytes([2, 5]) + bytes(case["route"]) + bytes([case["number"]])
        with observing("last working route %s" % ime.hex()):
            extension = Message.decode(packet_with(bytes([3, len(ime)]) + ime)).headerExtension
            route = extension[enumeration("Zip.ZIPPacketOptionType").MAINTENANCE_REPORT][enumeration("Zip.IMEType").LAST_WORKING_ROUTE]
            compare(route.speed, "Zip.IMELastWorkingRoute.Speed", case["number"], "the speed of a route")
            shown(repr(route.speed), "Zip.IMELastWorkingRoute.Speed", case["number"])
        rec.nontrivial(1 <= case["number"] <= 3)
        return
    if kind == "scale":
        scale = case["scale"]
        data = bytes([0x32, 0x02, (scale >> 2) << 7 | case["rate"] << 5 | case["type"], (scale & 3) << 3 | 1, case["value"] & 0xFF, 0, 0])
        with observing("scale of %s" % data.hex()):
            found = Message.decode(data).scale
            same(int(found), scale, "scale of %s", data.hex())
            if case["type"] == 1:
                compare(found, "Meter.ElectricMeterScale", scale, "the scale of an electric meter")
                require(getattr(found, "name", None) == next(n for n, v in ENUMS["Meter.ElectricMeterScale"].items() if v == scale), "scale %d of an electric meter is %r", scale, found)
                rec.nontrivial()
        return
    of_enumeration(case, rec)


def packet_with(extension):
    """A packet without a command and with these header extensions."""
    return bytes([0x23, 0x02, 0, 0x80, 1, 0, 0, len(extension) + 1]) + extension


def of_options(case, rec):
    value = bytes.fromhex(case["value"])
    routes = {0: 1, 1: 2, 2: 5, 4: 1, 5: 1}
    ime = b"".join(bytes([t, routes.get(t, len(value))]) + (value * 5)[: routes.get(t, len(value))] for t in case["ime"])
    content = {1: b"\x00\x01\x02", 3: ime, 4: b"\x80\x01"}
    options = b"".join(bytes([t, len(content.get(t, value))]) + content.get(t, value) for t in case["types"])
    data = packet_with(options)
    with observing("options %s" % data.hex()):
        extension = Message.decode(data).headerExtension
        for name, member in members("Zip.ZIPPacketOptionType").items():
            same(member in extension, ENUMS["Zip.ZIPPacketOptionType"][name] in case["types"], "option %s is in %s", name, data.hex())
        same(len(extension), sum(t in ENUMS["Zip.ZIPPacketOptionType"].values() for t in case["types"]), "number of options in %s", data.hex())
        same(int(extension.expectedDelay), 258 if 1 in case["types"] else 0, "expected delay of %s", data.hex())
        report = extension.get(enumeration("Zip.ZIPPacketOptionType").MAINTENANCE_REPORT)
        if report is not None:
            for name, member in members("Zip.IMEType").items():
                number = ENUMS["Zip.IMEType"][name]
                same(member in report, number in case["ime"], "%s is in %s", name, data.hex())
                if number == 1 and number in case["ime"]:
                    same(int(report[member]), int.from_bytes((value * 5)[:2], "big"), "transmission time in %s", data.hex())
                if number in (4, 5) and number in case["ime"]:
                    same(int(report[member]), value[0], "%s in %s", name, data.hex())
            rec.label("maintenance report")
    rec.nontrivial(case["types"])


def shown(text, path, number):
    """The text of an enumerated value has exactly its name."""
    table = ENUMS[path]
    names = [n for n, v in table.items() if v == number]
    if path in FLAGS:
        return
    for name in table:
        if name == "UNKNOWN" and not names:
            # also what is shown of a number without a name
            continue
        words = text.replace("(", " ").replace(".", " ").split()
        require((name in words) is (name in names), "the text of %s %d is %r", path, number, text)


def of_enumeration(case, rec):
    name, key, path, fields = case["name"], case["key"], case["path"], case["fields"]
    data = build(name, fields)
    number = case["number"]
    what = "%s.%s of %s" % (name, key, data.hex())
    with observing(what):
        message = Message.decode(data)
        value = getattr(message, key)
        same(int(value), number, what)
        compare(value, path, number, what)
        if (name, key, path) in SHOWN:
            shown(repr(value), path, number)
            shown(next((line for line in message.debugString().splitlines() if line.strip().startswith(key)), ""), path, number)
    named = {int(v) for v in ENUMS[path].values()}
    rec.nontrivial(number in named)
    rec.label("named" if number in named else "without a name")
    if name not in layout.COMPOSABLE:
        return
    # the same from the name
    spec = [n for n, v in ENUMS[path].items() if v == number]
    given = None
    if spec:
        given = members(path)[spec[0]]
    elif path in FLAGS and not number & ~sum(named):
        given = enumeration(path)(0)
        for n, v in ENUMS[path].items():
            if number & v == v:
                given |= members(path)[n]
    if given is None:
        return
    values = [(a, given if a == key else v) for a, v in arguments(name, fields)]
    with observing("%s with %s" % (name, spec)):
        composed = find_class(name)(**dict(values)).compose()
        same(bytes(composed).hex(), data.hex(), "%s with %s = %s", name, key, spec or given)
        other = find_class(name)()
        for attribute, v in values:
            setattr(other, attribute, v)
        same(bytes(other.compose()).hex(), data.hex(), "%s with %s set to %s", name, key, spec or given)
    rec.label("composed from the name")
