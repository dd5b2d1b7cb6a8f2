"""Nodes that answer commands with what they know, behind a plain adapter (no datagrams involved)."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from lib.core import HarnessError
from lib.layout import build
from lib.states import (
    AGI, ASSOCIATION, CONFIGURATION, MANUFACTURER, MULTI_CHANNEL_ASSOCIATION, NUMBERS, SENSOR, VERSION, ZWAVEPLUS,
)
from pyzwave.adapter import Adapter
from pyzwave.commandclass import NetworkManagementInclusion
from pyzwave.message import Message

TICK = 1 / 1024


def wire_order(members):
    """Members as a report lists them: nodes first, then endpoints of nodes."""
    return [list(m) for m in members if m[1] is None] + [list(m) for m in members if m[1] is not None]


class Device:
    """One endpoint of a node; learned is {command class: {"version": n, "content": as in lib.states}}."""

    def __init__(self, classes, learned=None, infos_per_report=3):
        self.classes = list(classes)
        self.learned = {int(k): v for k, v in (learned or {}).items()}
        self.infos_per_report = infos_per_report
        self.members_per_report = 0  # as many as there are

    def content(self, cmdClass):
        return self.learned.setdefault(cmdClass, {"version": 1, "content": {}})["content"]

    def version(self, cmdClass):
        return self.learned.get(cmdClass, {"version": 1})["version"]

    def groups(self):
        """[[capacity, members]] of group 1, 2, ..."""
        known = self.content(ASSOCIATION)
        return [known.get(str(i), [0, []]) for i in range(1, max([int(k) for k in known], default=0) + 1)]

    def members(self, number, everything):
        """Members of a group as a report lists them; the plain commands do not know endpoints."""
        groups = self.groups()
        if not 1 <= number <= len(groups):
            return 0, [[], []]
        capacity, members = groups[number - 1]
        return capacity, [[n for n, e in members if e is None], [[n, e] for n, e in members if e is not None] if everything else []]

    def add_members(self, number, members):
        known = self.content(ASSOCIATION)
        group = known.get(str(number), [0, []])
        known[str(number)] = [group[0], group[1] + [list(m) for m in members if list(m) not in group[1]]]

    def answers(self, command):
        """The commands this device answers a command with."""
        cls, cmd, args = command[0], command[1], command[2:]
        if cls == VERSION and cmd == 0x13:
            return [build("Version.VersionCommandClassReport", {"requestedCommandClass": args[0], "commandClassVersion": self.version(args[0])})]
        if cls == VERSION and cmd == 0x11:
            return [build("Version.VersionReport", self.numbers(VERSION))]
        if cls == MANUFACTURER and cmd == 0x04:
            return [build("ManufacturerSpecific.Report", self.numbers(MANUFACTURER))]
        if cls == ZWAVEPLUS and cmd == 0x01:
            return [build("ZwavePlusInfo.Report", self.numbers(ZWAVEPLUS))]
        if cls == SENSOR and cmd == 0x01:
            return [build("SensorMultilevel.SupportedSensorReport", {"bitMask": sorted(int(k) for k in self.content(SENSOR))})]
        if cls == SENSOR and cmd == 0x03:
            scales = self.content(SENSOR).get(str(args[0]), 0)
            return [build("SensorMultilevel.SupportedScaleReport", {"sensorType": args[0], "-1": 0, "scaleBitMask": scales})]
        if cls == CONFIGURATION and cmd == 0x05:
            return self.parameter(args[0])
        if cls == CONFIGURATION and cmd == 0x04:
            size = args[1] & 7
            self.content(CONFIGURATION)[str(args[0])] = [int.from_bytes(args[2 : 2 + size], "big"), size]
            return []
        if cls == ASSOCIATION and cmd == 0x05:
            return [build("Association.GroupingsReport", {"supportedGroupings": len(self.groups())})]
        if (cls, cmd) in ((ASSOCIATION, 0x02), (MULTI_CHANNEL_ASSOCIATION, 0x02)):
            name = "Association.Report" if cls == ASSOCIATION else "MultiChannelAssociation.MultiChannelReport"
            capacity, members = self.members(args[0], cls == MULTI_CHANNEL_ASSOCIATION)
            parts = self.split_members(members)
            return [
                build(name, {"groupingIdentifier": args[0], "maxNodesSupported": capacity, "reportsToFollow": len(parts) - 1 - i, "nodes": part})
                for i, part in enumerate(parts)
            ]
        if (cls, cmd) in ((ASSOCIATION, 0x01), (MULTI_CHANNEL_ASSOCIATION, 0x01)):
            self.add_members(args[0], members_of(args[1:]))
            return []
        if cls == AGI:
            return self.group_answers(cmd, args)
        return []

    def split_members(self, members):
        """The members of a group as they are spread over reports."""
        if not self.members_per_report:
            return [members]
        step = self.members_per_report
        plain, pairs = members[:2]
        flat = [(n, None) for n in plain] + [tuple(p) for p in pairs]
        parts = [flat[i : i + step] for i in range(0, len(flat), step)] or [[]]
        return [[[n for n, e in part if e is None], [list(p) for p in part if p[1] is not None]] for part in parts]

    def numbers(self, cmdClass):
        content = self.content(cmdClass)
        return {name: content.get(name, 0) for name, _ in NUMBERS[cmdClass]}

    def parameter(self, number):
        value = self.content(CONFIGURATION).get(str(number))
        if value is None:
            return []
        return [build("Configuration.Report", {"parameterNumber": number, "-1": 0, "value": [value[1], value[0]]})]

    def group_info(self, numbers):
        content = self.content(AGI)
        return build(
            "AssociationGrpInfo.GroupInfoReport",
            {"listMode": 1, "dynamicInfo": 0, "groups": [[n, 0, content[str(n)]["profile"], 0, 0] for n in numbers]},
        )

    def group_answers(self, cmd, args):
        content = self.content(AGI)
        if cmd == 0x03:
            wanted = sorted(int(k) for k in content) if args[0] & 0x40 else [args[1]] if str(args[1]) in content else []
            step = self.infos_per_report
            return [self.group_info(wanted[i : i + step]) for i in range(0, len(wanted), step)]
        if cmd == 0x01:
            group = content.get(str(args[0]))
            return [build("AssociationGrpInfo.GroupNameReport", {"groupingIdentifier": args[0], "name": group["name"]})] if group and "name" in group else []
        if cmd == 0x05:
            group = content.get(str(args[1]))
            if group and "commands" in group:
                return [build("AssociationGrpInfo.GroupCommandListReport", {"groupingIdentifier": args[1], "commandClass": group["commands"]})]
        return []


def members_of(data):
    """[(node, endpoint or None)] of the member list of a set command."""
    data = bytes(data)
    plain, _, pairs = data.partition(b"\0") if 0 in data else (data, b"", b"")
    return [(n, None) for n in plain] + list(zip(pairs[::2], pairs[1::2]))


class DeviceAdapter(Adapter):
    """An adapter whose nodes are Devices.

    devices: {(node id, endpoint): Device}
    sent: [(time, node id, endpoint, bytes)]
    script: callable(node id, endpoint, bytes, answers) -> None for the usual, or
            {"ack": bool or None (times out), "delay": seconds, "replies": [(seconds, bytes)]}
    deliver: callable(node id, endpoint, message, flags); by default the adapter's listeners are told
    """

    def __init__(self, devices):
        super().__init__()
        self.nodeId = 1
        self.devices = dict(devices)
        self.sent = []
        self.script = None
        self.deliver = None

    def arrived(self, nodeId, endpoint, data):
        """A command from a node has arrived."""
        message = Message.decode(data)
        if self.deliver:
            asyncio.ensure_future(self.deliver(nodeId, endpoint, message, 0))
        else:
            self.speak("messageReceived", nodeId, endpoint, message, 0)

    async def sendToNode(self, nodeId, cmd, **kwargs):
        loop = asyncio.get_event_loop()
        endpoint = kwargs.get("destEP", 0)
        data = bytes(cmd.compose())
        self.sent.append((loop.time(), nodeId, endpoint, data))
        device = self.devices.get((nodeId, endpoint))
        answers = device.answers(data) if device else []
        what = self.script(nodeId, endpoint, data, answers) if self.script else None
        if what is None:
            what = {"ack": True, "delay": TICK, "replies": [((2 + i) * TICK, answer) for i, answer in enumerate(answers)]}
        for delay, answer in what["replies"]:
            loop.call_later(delay, self.arrived, nodeId, endpoint, answer)
        await asyncio.sleep(what["delay"])
        return what["ack"]

    # -- network management ------------------------------------------------------------------
    async def getNodeList(self):
        return {n for n, _ in self.devices} | {self.nodeId}

    async def getFailedNodeList(self):
        return set()

    async def getNodeInfo(self, nodeId):
        await asyncio.sleep(TICK)
        device = self.devices[(nodeId, 0)]
        return Message.decode(
            build(
                "NetworkManagementProxy.NodeInfoCachedReport",
                {
                    "seqNo": 0, "status": 0, "age": 0, "listening": 1, "-4": 0, "optFunc": 0, "-6": 0, "-7": 0,
                    "basicDeviceClass": 4, "genericDeviceClass": 16, "specificDeviceClass": 1, "commandClass": bytes(device.classes).hex(),
                },
            )
        )

    async def getMultiChannelEndPoints(self, nodeId):
        await asyncio.sleep(TICK)
        return max(e for n, e in self.devices if n == nodeId)

    async def getMultiChannelCapability(self, nodeId, endpoint):
        await asyncio.sleep(TICK)
        classes = self.devices[(nodeId, endpoint)].classes
        return Message.decode(
            build(
                "NetworkManagementProxy.MultiChannelCapabilityReport",
                {
                    "seqNo": 0, "nodeID": nodeId, "commandClassLength": len(classes), "-3": 0, "endPoint": endpoint,
                    "genericDeviceClass": 16, "specificDeviceClass": 1, "commandClass": bytes(classes).hex(),
                },
            )
        )

    async def removeFailedNode(self, nodeId):
        return NetworkManagementInclusion.FailedNodeRemoveStatus.Status.DONE

    # -- not used by the checks ---------------------------------------------------------------
    async def _unused(self, *_args, **_kwargs):
        raise HarnessError("not expected to be called")

    connect = addNode = addNodeDSKSet = addNodeKeysSet = addNodeStop = removeNode = removeNodeStop = _unused
    send = setNodeInfo = _unused
