"""A simulated zipgateway with nodes behind it, speaking datagrams on a lib.vloop.VLoop."""
from lib import bootstrap  # noqa: F401  isort:skip
import ipaddress

from lib import wire
from lib.layout import build
from lib.wire import Packet
from lib.vloop import PORT, canonical

GATEWAY = "fd00:aaaa::3"
# node ids of the controller to try (other than those of nodes)
CONTROLLERS = [1, 1, 1, 7, 100, 201]
CONTROLLER = 1
TICK = 1 / 1024
# Addresses of nodes; a gateway reached over IPv4 announces mapped ones
FORMS = ["fd00:bbbb::%x:%x", "2001:db8:0:%x::%x", "fd00:bbbb::%x:%x", "::ffff:10.%d.0.%d", "fd00:bbbb:0:1:2:3:%x:%x", "2001:db8::%x:0:0:%x"]


def node_address(nodeId, generation=0):
    """The address of a node, as the operating system writes it."""
    form = FORMS[nodeId % len(FORMS)]
    return canonical(form % (generation, nodeId))


def hex16(address):
    return ipaddress.IPv6Address(address).packed.hex()


class SimNode:
    """A node as the gateway reports it."""

    def __init__(self, nodeId, cmdClasses=b"", basic=4, generic=16, specific=1, listening=1, endpoints=(), aggregated=(), address=None):
        self.nodeId = nodeId
        self.cmdClasses = bytes(cmdClasses)
        self.basic, self.generic, self.specific, self.listening = basic, generic, specific, listening
        # [(generic, specific, cmdClasses)], endpoint 1 first: individual endpoints, then aggregated
        self.endpoints = list(endpoints)
        self.aggregated = list(aggregated)
        self.address = address or node_address(nodeId)


class Sim:
    """Answers what the library sends; every part of the behaviour can be overridden per case.

    received: [(time, address, Packet)] of everything sent to the gateway or a node
    script: callable(sim, address, transport, packet) -> True if it took care of the packet
    """

    def __init__(self, loop, nodes=(), latency=TICK, gateway=GATEWAY, controller=CONTROLLER):
        self.loop = loop
        self.gateway = gateway
        self.latency = latency
        self.nodes = {n.nodeId: n for n in nodes}
        self.controller = controller
        self.controllerAddress = node_address(controller)
        self.failed = []
        self.mode = 1
        self.received = []
        self.acks = []  # acknowledgements sent from the unsolicited socket: (time, target, Packet)
        self.strays = []  # datagrams to addresses nobody has
        self.script = None
        self.node_answers = None  # callable(node, endpoint, command) -> [bytes] commands in reply
        loop.listener = self._sent

    # -- incoming ---------------------------------------------------------------------------
    def _sent(self, transport, data, target):
        packet = Packet(data)
        if transport.local is not None:
            self.acks.append((self.loop.now, target, packet))
            return
        address = target[0]
        self.received.append((self.loop.now, address, packet))
        if self.script and self.script(self, address, transport, packet):
            return
        if address == self.gateway:
            self.gateway_packet(transport, packet)
            return
        node = self.node_at(address)
        if node is None:
            self.strays.append((self.loop.now, address, packet))
            return
        self.node_packet(node, transport, packet)

    def node_at(self, address):
        for node in self.nodes.values():
            if node.address == address:
                return node
        return None

    def gateway_packet(self, transport, packet):
        if packet.kind == "keepalive":
            self.reply(transport, self.latency, wire.keep_alive(0x40))
        elif packet.kind == "solicitation":
            answer = self.advertise(packet.node)
            if answer:
                self.reply(transport, self.latency, answer)
        elif packet.kind == "zip" and not packet.is_ack:
            self.reply(transport, self.latency, wire.ack(packet.seq))
            for answer in self.gateway_answers(packet.command):
                self.reply(transport, 2 * self.latency, wire.packet(0, answer))

    def node_packet(self, node, transport, packet):
        if packet.kind == "keepalive":
            self.reply(transport, self.latency, wire.keep_alive(0x40))
        elif packet.kind == "zip" and not packet.is_ack:
            self.reply(transport, self.latency, wire.ack(packet.seq, source=packet.dest))
            if self.node_answers:
                for i, answer in enumerate(self.node_answers(node, packet.dest, packet.command)):
                    self.reply(transport, (2 + i) * self.latency, wire.packet(0, answer, source=packet.dest))

    # -- outgoing ---------------------------------------------------------------------------
    def reply(self, transport, delay, data):
        self.loop.inject(delay, transport, data, transport.remote)

    def unsolicited(self, delay, address, data, port=PORT):
        for transport in self.loop.sockets(local=PORT):
            self.loop.inject(delay, transport, data, (address, port, 0, 0))

    def gateway_socket(self):
        found = self.loop.sockets(remote=self.gateway)
        return found[0] if found else None

    def node_socket(self, nodeId):
        found = self.loop.sockets(remote=self.nodes[nodeId].address)
        return found[0] if found else None

    # -- what the gateway knows ---------------------------------------------------------------
    def address_of(self, nodeId):
        if nodeId == self.controller:
            return self.controllerAddress
        node = self.nodes.get(nodeId)
        return node.address if node else None

    def advertise(self, nodeId):
        address = self.address_of(nodeId)
        if address is None:
            return wire.advertisement(nodeId, "00" * 16, validity=2)
        return wire.advertisement(nodeId, hex16(address))

    def node_list(self, seq=0):
        ids = sorted(set(self.nodes) | {self.controller})
        return build(
            "NetworkManagementProxy.NodeListReport",
            {"seqNo": seq, "status": 0, "nodeListControllerId": self.controller, "nodes": ids},
        )

    def gateway_answers(self, command):
        """Commands the gateway answers a command with."""
        code = command[:2]
        args = command[2:]
        if code == b"\x52\x01":
            return [self.node_list(args[0])]
        if code == b"\x52\x0b":
            return [build("NetworkManagementProxy.FailedNodeListReport", {"seqNo": args[0], "failedNodeList": sorted(self.failed)})]
        if code == b"\x52\x03":
            return self.node_info(args[0], args[-1])
        if code == b"\x52\x05":
            return self.endpoint_count(args[0], args[1])
        if code == b"\x52\x07":
            return self.capability(args[0], args[1], args[2] & 0x7F)
        if code == b"\x5f\x02":
            return [build("ZipGateway.GatewayModeReport", {"mode": self.mode})]
        if code == b"\x5f\x01":
            self.mode = args[0]
        return []

    def node_info(self, seq, nodeId):
        node = self.nodes.get(nodeId)
        if node is None:
            return []
        return [
            build(
                "NetworkManagementProxy.NodeInfoCachedReport",
                {
                    "seqNo": seq, "status": 0, "age": 0, "listening": node.listening, "-4": 0, "optFunc": 0, "-6": 0, "-7": 0,
                    "basicDeviceClass": node.basic, "genericDeviceClass": node.generic, "specificDeviceClass": node.specific,
                    "commandClass": node.cmdClasses.hex(),
                },
            )
        ]

    def endpoint_count(self, seq, nodeId):
        node = self.nodes.get(nodeId)
        if node is None:
            return []
        return [
            build(
                "NetworkManagementProxy.MultiChannelEndPointReport",
                {"seqNo": seq, "nodeID": nodeId, "-2": 0, "-3": 0, "individualEndPoints": len(node.endpoints), "-5": 0, "aggregatedEndPoints": len(node.aggregated)},
            )
        ]

    def capability(self, seq, nodeId, endpoint):
        node = self.nodes.get(nodeId)
        known = (node.endpoints + node.aggregated) if node else []
        if not 1 <= endpoint <= len(known):
            return []
        generic, specific, cmdClasses = known[endpoint - 1]
        return [
            build(
                "NetworkManagementProxy.MultiChannelCapabilityReport",
                {
                    "seqNo": seq, "nodeID": nodeId, "commandClassLength": len(cmdClasses), "-3": 0, "endPoint": endpoint,
                    "genericDeviceClass": generic, "specificDeviceClass": specific, "commandClass": bytes(cmdClasses).hex(),
                },
            )
        ]


class Listener:
    """Records every call of the named methods."""

    def __init__(self, names, answers=None):
        self.calls = []
        for name in names:
            setattr(self, name, self._recorder(name, (answers or {}).get(name)))

    def _recorder(self, name, answer):
        def method(*args):
            self.calls.append((name,) + args)
            return answer

        return method
