"""Connecting puts the gateway in the wanted mode and registers for messages."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import ipaddress

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import observing, require, same
from lib.layout import build, edge_ints, node_ids
from lib.sim import CONTROLLERS, Sim, SimNode, hex16, node_address
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C28"
RULE = """A case is a gateway in any mode with any nodes, which acknowledges and answers what is sent while connecting
in time, before the acknowledgement, late, twice or never, loses address lookups or announces other addresses; after
connecting every node speaks up and further modes are set.  What was sent, what is returned and who is attributed is
compared with what the gateway did.  Non-trivial: something is lost or late, or the mode has to be changed."""
ASSUMPTIONS = ["the registered address is only checked to be this host's address or the one of the known finding"]
QUICK = 420
THOROUGH = 14000

FIXED = "::ffff:c0a8:31"
# delays in 1/1024 s; sends are given up after 3 s, the report 3 s after that
ACKS = st.sampled_from([1, 1, 1, 513, 2817, 3585, None])
ANSWERS = st.sampled_from([2, 2, 2, 2, 3, 258, 2051, 2994, 4099, 5891, 6403, 9219, None])
MODE = st.one_of(st.sampled_from([1, 1, 2, 0, 3]), edge_ints(0, 255))
EXCHANGE = st.fixed_dictionaries({"ack": ACKS, "answer": ANSWERS, "mode": MODE, "twice": st.booleans(), "set ack": ACKS})


def strategy():
    return st.fixed_dictionaries(
        {
            "controller": st.sampled_from(CONTROLLERS),
            "batch": st.booleans(),
            "connect": EXCHANGE,
            "register ack": ACKS,
            "nodes": node_ids(2, 5),
            "list": st.fixed_dictionaries({"ack": ACKS, "answer": ANSWERS}),
            # how address lookups go: delay, None: never, "none": no address known, "other": of another node
            "lookups": st.lists(st.sampled_from([1, 1, 1, 900, 2999, None, "none", "other", "twice"]), min_size=6, max_size=6),
            "modes": st.lists(st.tuples(edge_ints(0, 255), EXCHANGE).map(list), max_size=2),
        }
    )


def sent_at(exchange):
    return exchange["ack"] / 1024 if exchange["ack"] is not None and exchange["ack"] < 3072 else 3


def answered(exchange):
    return exchange["answer"] is not None and exchange["answer"] / 1024 < sent_at(exchange) + 3


def run(case, rec):
    heard = []

    class Hears:
        def messageReceived(self, _speaker, nodeId, endpoint, message, _flags):
            heard.append((nodeId, endpoint, message))

    async def main(loop):
        sim = Sim(loop, [SimNode(n) for n in case["nodes"] if n != case.get("controller", 1)], controller=case.get("controller", 1))
        loop.batch = case.get("batch", False)
        members = sorted({sim.controller} | set(case["nodes"]))
        exchange = [case["connect"]]
        looked = {}

        def answer(transport, packet, what, ack, delay, data, twice=False):
            if ack is not None:
                sim.reply(transport, ack / 1024, wire.ack(packet.seq))
            if delay is not None:
                for _ in range(2 if twice else 1):
                    sim.reply(transport, delay / 1024, wire.packet(0, data))

        def script(_sim, address, transport, packet):
            if address != sim.gateway:
                return False
            if packet.kind == "solicitation":
                index = members.index(packet.node) if packet.node in members else 0
                how = case["lookups"][index % len(case["lookups"])]
                looked.setdefault(packet.node, []).append(how)
                own = hex16(sim.address_of(packet.node) or "::9")
                if how == "none":
                    sim.reply(transport, 2 / 1024, wire.advertisement(packet.node, "00" * 16, validity=2))
                elif how == "other":
                    sim.reply(transport, 2 / 1024, wire.advertisement((packet.node % 232) + 1, hex16("fd00:dddd::1")))
                    sim.reply(transport, 5 / 1024, wire.advertisement(packet.node, own))
                elif how is not None:
                    for _ in range(2 if how == "twice" else 1):
                        sim.reply(transport, (1 if how == "twice" else how) / 1024, wire.advertisement(packet.node, own))
                return True
            if packet.kind != "zip" or packet.is_ack:
                return False
            code = packet.command[:2]
            now = exchange[-1]
            if code == b"\x5f\x02":
                answer(transport, packet, "mode", now["ack"], now["answer"], build("ZipGateway.GatewayModeReport", {"mode": now["mode"]}), now["twice"])
            elif code == b"\x5f\x01":
                answer(transport, packet, "set", now["set ack"], None, None)
            elif code == b"\x5f\x08":
                answer(transport, packet, "register", case["register ack"], None, None)
            elif code == b"\x52\x01":
                answer(transport, packet, "list", case["list"]["ack"], case["list"]["answer"], sim.node_list(packet.command[2]))
            else:
                return False
            return True

        sim.script = script
        gateway = ZIPGateway(sim.gateway, b"psk")
        gateway.addListener(Hears())
        await gateway.connect()
        sent = [p.command for _, a, p in sim.received if a == sim.gateway and p.kind == "zip" and not p.is_ack]
        wanted = [b"\x5f\x02"]
        if answered(case["connect"]) and case["connect"]["mode"] != 1:
            wanted.append(b"\x5f\x01\x01")
            rec.label("mode changed")
            rec.nontrivial()
        same([c for c in sent if c[:1] == b"\x5f" and c[:2] != b"\x5f\x08"], wanted, "mode commands sent while connecting")
        registered = [c for c in sent if c[:2] == b"\x5f\x08"]
        same(len(registered), 1, "number of registrations for unsolicited messages")
        same(len(registered[0]), 20, "length of the registration")
        same(int.from_bytes(registered[0][18:], "big"), vloop.PORT, "registered port")
        require(loop.sockets(local=vloop.PORT), "nothing listens on the registered port")
        address = ipaddress.IPv6Address(registered[0][2:18])
        require(
            address == ipaddress.IPv6Address(vloop.HOST) or (address == ipaddress.IPv6Address(FIXED) and not case.get("own address")),
            "registered the address %s, this host has %s", address, vloop.HOST,
        )
        same(sum(1 for c in sent if c[:2] == b"\x52\x01"), 1, "number of node lists asked for")
        learned = answered(case["list"])
        if learned:
            same(sorted(int(n) for n in await gateway.getNodeList()), members, "node list")
            require(set(looked) >= set(members), "the addresses of %s were never looked up", sorted(set(members) - set(looked)))
            same(int(gateway.nodeId), sim.controller, "node id of the controller")
        else:
            rec.label("node list never came")
            rec.nontrivial()
        await asyncio.sleep(20)
        # every node whose address could be learned is attributed
        for nodeId in members:
            how = looked.get(nodeId, [None])[0]
            known = learned and how not in (None, "none")
            rec.label("address learned" if known else "address not learned")
            rec.nontrivial(not known)
            before = len(heard)
            sim.unsolicited(0, sim.address_of(nodeId), wire.packet(5, b"\x20\x03" + bytes([nodeId]), source=nodeId % 3))
            await asyncio.sleep(1)
            with observing("a command of node %d" % nodeId):
                mine = [(n, e, int(m.value)) for n, e, m in heard[before:]]
            if known:
                same(mine, [(nodeId, nodeId % 3, nodeId)], "what was announced for a command of node %d", nodeId)
            else:
                same(mine, [], "what was announced for a command of node %d without a known address", nodeId)
        before = len(heard)
        sim.unsolicited(0, node_address(231, 9), wire.packet(5, b"\x20\x03\x01"))
        sim.unsolicited(0, "fd00:dddd::1", wire.packet(5, b"\x20\x03\x01"))
        await asyncio.sleep(1)
        same(heard[before:], [], "announced for a stranger")
        # setting the mode later on
        for mode, how in case["modes"]:
            exchange.append(how)
            at = len(sim.received)
            result = await gateway.setGatewayMode(mode)
            sent = [p.command for _, a, p in sim.received[at:] if a == sim.gateway and p.kind == "zip" and not p.is_ack]
            wanted = [b"\x5f\x02"]
            if answered(how) and how["mode"] != mode:
                wanted.append(b"\x5f\x01" + bytes([mode]))
            same(sent, wanted, "commands sent to set mode %d (the gateway reports %s)", mode, how["mode"] if answered(how) else None)
            same(result, answered(how), "result of setting the mode")
            rec.label("mode set later")
            await asyncio.sleep(20)
        rec.nontrivial(not answered(case["connect"]))

    vloop.run(main)


def known():
    good = {"ack": 1, "answer": 2, "mode": 1, "twice": False, "set ack": 1}
    yield (
        "the gateway is always told to send unsolicited messages to ::ffff:192.168.0.49 and not to the address of this host",
        {"connect": good, "register ack": 1, "nodes": [5], "list": {"ack": 1, "answer": 2}, "lookups": [1] * 6, "modes": [], "own address": True},
    )
