"""No datagram can stop or derail reception."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import HarnessError, Recorder, observing, require, same
from lib.layout import HIDS, build, construct, message_strategy
from lib.sim import Sim, SimNode
from pyzwave.application import Application
from pyzwave.commandclass import ZwavePlusInfo
from pyzwave.mailbox import MailboxService
from pyzwave.persistantstorage import PersistantStorage, YamlStorage
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C04"
RULE = """A case is a running application (gateway, nodes with endpoints supporting every command class, mailbox,
storage) and a history of datagrams on the gateway, node and unsolicited sockets: raw bytes, Z/IP packets with any
flags, endpoints, header extensions and lengths, shortened, corrupted and (deeply) nested commands of every known type, stray
advertisements, acknowledgements and keep-alives, some of them while the application starts, interleaved with
numbered well-formed commands, sends and requests whose answers are late.  Everything well-formed must arrive in
order where it belongs, everything sent and asked must complete with its own answer, and nothing may raise into the
event loop or end a background task.  Non-trivial: at least two garbage datagrams in the history."""
ASSUMPTIONS = [
    "garbage that is a legitimate answer is left out: acknowledgements of numbers in use, complete node lists and "
    "address advertisements, and messages of the awaited type from the place that is asked",
]
QUICK = 150
THOROUGH = 2500
EIGHTH = 1 / 8
FUZZ_SECONDS = 380
FAST = {"thorough": 60}  # the rest of the time is for atheris

REGRESSIONS = [
    {"steps": [[0, {"op": "garbage", "place": [place, 2], "data": "23020050c10000" + data}]], "early": [], "yaml": False}
    for place in ("own", "node") for data in ("6c01", "6c0105", "6c010500", "6c010501", "6904", "690403", "69040302", "6905", "5902", "5906", "5904", "7006", "3105", "3102")
]

FLOOD_BYTES = [0, 0, 1, 1, 2, 3, 4, 0x7F, 0x80, 0xFE, 0xFF]


def flood(hid, seed, count):
    """Short payloads of one command (any command if hid is None), in plain packets for the most part."""
    rng = random.Random("%s %d" % (hid, seed))
    for _ in range(count):
        code = rng.choice(sorted(HIDS)) if hid is None else hid
        size = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12, 18, 30))
        payload = bytes(rng.choice(FLOOD_BYTES) if rng.random() < 0.7 else rng.randrange(256) for _ in range(size))
        data = bytes([code >> 8, code & 0xFF]) + payload
        roll = rng.random()
        if roll < 0.15:
            data = b"\x6c\x01" + bytes([rng.randrange(256), rng.choice((len(data), len(data), 0, 1, 2, 3, 255))]) + data
        elif roll < 0.2:
            data = rng.choice((b"\x60\x0d\x00\x01", b"\x56\x01", b"\x67\x01")) + data
        if rng.random() < 0.9:
            data = b"\x23\x02\x00\x50" + bytes([rng.randrange(0x80, 0x100), rng.choice((0, 0, 0, 1, 2)), 0]) + data
        yield data



def nested(data, packets, supervised):
    """The command wrapped many times; a datagram may have up to 65507 bytes."""
    for i in range(supervised):
        data = b"\x6c\x01" + bytes([i & 0x3F, len(data)]) + data
        if len(data) > 255:
            break
    return b"\x23\x02\x00\x50\x80\x00\x00" * packets + data


NODES = {2: 1, 5: 0, 6: 2}
REGRESSIONS += [
    {
        "steps": [[0, {"op": "garbage", "place": place, "data": "2002", "packets": packets, "supervised": supervised}] for place in (["gateway"], ["own", 2], ["node", 2])]
        + [[0, {"op": "marker", "place": [place, 2], "endpoint": 0}] for place in ("own", "node")],
        "early": [],
        "yaml": False,
    }
    for packets, supervised in ((100, 0), (1, 60), (600, 0), (9000, 0), (9000, 60))
]
REGRESSIONS += [
    {"steps": [[0, {"op": "flood", "place": place, "hid": hid, "seed": 7, "count": 40}] for hid in sorted(HIDS)[i : i + 12]], "early": [], "yaml": False}
    for place in (["gateway"], ["own", 2], ["node", 2]) for i in range(0, len(HIDS), 12)
]
CLASSES = sorted({hid >> 8 for hid in HIDS} - {0x23, 0x52, 0x34, 0x58, 0x5F, 0x6C}) + [0x60, 0x6C]
FROM_NODE = [[n, e] for n, count in sorted(NODES.items()) for e in range(count + 1)]
GATEWAY_ANSWERS = [b"\x52\x02", b"\x52\x04", b"\x52\x06", b"\x52\x08", b"\x52\x0c", b"\x5f\x03"]
MARKER = "ManufacturerSpecific.Report"


# -- garbage ---------------------------------------------------------------------------------------
@st.composite
def mangled(draw):
    """Bytes of a command that may be cut off, corrupted or have more bytes than it should."""
    which = draw(st.integers(0, 5))
    if which == 0:
        return draw(st.binary(max_size=12))
    if which == 1:
        hid = draw(st.sampled_from(sorted(HIDS)))
        return bytes([hid >> 8, hid & 0xFF]) + draw(st.binary(max_size=12))
    message = draw(message_strategy([n for n in HIDS.values() if n != "Zip.ZipPacket"]))
    data = build(message["name"], message["fields"])
    if which in (2, 3):
        data = data[: draw(st.integers(0, len(data)))]
    if which in (3, 4):
        data = bytearray(data)
        for _ in range(draw(st.integers(1, 3))):
            if data:
                data[draw(st.integers(0, len(data) - 1))] = draw(st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 0x7F, 0x80, 0xFF])))
        data = bytes(data)
    if which == 5:
        data += draw(st.binary(max_size=8))
    if draw(st.integers(0, 4)) == 0:
        # supervised, with a length that may be wrong
        length = draw(st.one_of(st.just(len(data)), st.integers(0, 255)))
        data = b"\x6c\x01" + bytes([draw(st.integers(0, 255)), length]) + data
        data = data[: draw(st.one_of(st.just(len(data)), st.integers(0, len(data))))]
    return data


@st.composite
def garbage(draw):
    which = draw(st.integers(0, 9))
    if which == 0:
        return draw(st.binary(max_size=40))
    if which == 1:
        return draw(mangled())
    flags0 = draw(st.sampled_from([0, 0, 0, 0x80, 0x40, 0x20, 0x30, 0x28, 0x24, 0xFF, 0xC0, 0x03]))
    flags1 = draw(st.sampled_from([0x50, 0x50, 0x50, 0x40, 0x10, 0x00, 0xD0, 0x90, 0xFF]))
    data = b"\x23\x02" + bytes([flags0, flags1, draw(st.integers(0x80, 0xFF)), draw(st.sampled_from([0, 0, 0, 1, 2, 3, 127, 128])), draw(st.sampled_from([0, 0, 1, 255]))])
    if flags1 & 0x80:
        data += draw(
            st.one_of(
                st.sampled_from([b"\x01", b"\x00", b"\x02", b"\xff", b"\x03\x84\x00", b"\x05\x84\x02\x00\x00", b"\x03\x81\x00", b"\x06\x01\x03\x00\x00\x05", b"\x03\x03\x01", b"\x05\x03\x02\x00\x09"]),
                st.binary(max_size=12),
            )
        )
    if which in (2, 3, 4):
        return data[: draw(st.integers(0, len(data)))] if which == 2 else data + draw(st.binary(max_size=16))
    return data + draw(mangled())


PLACES = st.one_of(
    st.just(["gateway"]),
    st.sampled_from(sorted(NODES)).map(lambda n: ["own", n]),
    st.sampled_from(sorted(NODES)).map(lambda n: ["node", n]),
    st.sampled_from([["controller"], ["gateway address"], ["stranger"]]),
)
GARBAGE = st.one_of(
    *[st.tuples(PLACES, garbage().map(lambda b: b.hex())).map(lambda t: {"op": "garbage", "place": t[0], "data": t[1]})] * 24,
    st.tuples(PLACES, st.sampled_from(["2002", "2003ff", "", "6c02"]), st.sampled_from([2, 2, 3, 3, 10, 30, 30, 9000]), st.sampled_from([0, 1, 2, 30])).map(
        lambda t: {"op": "garbage", "place": t[0], "data": t[1], "packets": t[2], "supervised": t[3]}
    ),
)
WELL = st.one_of(
    st.tuples(st.sampled_from(["own", "node"]), st.sampled_from(FROM_NODE)).map(lambda t: {"op": "marker", "place": [t[0], t[1][0]], "endpoint": t[1][1]}),
    st.just({"op": "marker", "place": ["gateway"], "endpoint": 0}),
)
DELAYS = st.sampled_from([0, 1, 3, 5])
ASK = st.one_of(
    st.tuples(st.sampled_from(FROM_NODE), DELAYS).map(lambda t: {"op": "request", "node": t[0], "delay": t[1]}),
    st.just({"op": "failed nodes"}),
    st.tuples(st.sampled_from(FROM_NODE)).map(lambda t: {"op": "send", "node": t[0]}),
)
BURST = st.lists(GARBAGE, min_size=3, max_size=9).map(lambda items: {"op": "burst", "items": items})
FLOOD = st.tuples(PLACES, st.one_of(st.none(), st.sampled_from(sorted(HIDS))), st.integers(0, 1 << 20), st.integers(1, 40)).map(
    lambda t: {"op": "flood", "place": t[0], "hid": t[1], "seed": t[2], "count": t[3]}
)
STEP = st.one_of(BURST, FLOOD, GARBAGE, GARBAGE, GARBAGE, WELL, WELL, ASK)


def strategy():
    steps = st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 3, 9]), STEP).map(list), min_size=3, max_size=14)
    return st.fixed_dictionaries(
        {
            "steps": steps,
            "early": st.lists(st.tuples(st.integers(0, 40), GARBAGE).map(list), max_size=3),
            "yaml": st.sampled_from([False, False, True]),
        }
    )


# -- what is left out ------------------------------------------------------------------------------
def allowed(place, data, asked, early):
    """Not a legitimate answer to anything that is going on."""
    if data[:2] == b"\x23\x02" and len(data) > 4 and data[2] & 0x60 and data[4] < 0x80:
        return False
    for code in ([b"\x58\x01", b"\x52\x02"] + GATEWAY_ANSWERS if place[0] == "gateway" else [b"\x52\x02"]):
        at = data.find(code)
        if at < 0:
            continue
        if code == b"\x58\x01" and len(data) - at < 20:
            continue
        if code == b"\x52\x02" and place[0] != "gateway" and len(data) - at < 6:
            continue
        return False
    if place[0] in ("own", "node") and b"\x5e\x02" in data:
        endpoint = data[5] & 0x7F if len(data) > 5 else 0
        if not early and (place[1], endpoint) in asked:
            return False
    return True


def plus_info(number):
    return {"zwavePlusVersion": 1, "roleType": 5, "nodeType": 0, "installerIconType": number, "userIconType": 0xFFFF - number}


def run(case, rec):
    with tempfile.TemporaryDirectory(prefix="c04-") as directory:
        storage = YamlStorage(directory) if case["yaml"] else PersistantStorage()
        run_with(case, rec, storage)


def run_with(case, rec, storage):
    nodes = {2: 1, 5: 0} if case.get("small") else NODES
    from_node = [x for x in FROM_NODE if x[1] <= nodes.get(x[0], -1)]
    heard = []  # (listener, number)
    wanted = {}  # (listener, socket) -> [number]
    count = [0]

    def note(key, message):
        if type(message).__name__ == "Report" and message.hid() == 0x7205:
            with observing("a command delivered to %s" % key):
                if None in (message.manufacturerID, message.productTypeID, message.productID):
                    return
                if int(message.manufacturerID) == 0xA55A:
                    same(int(message.productTypeID) ^ int(message.productID), 0xFFFF, "content of command %s delivered to %s", message.productID, key)
                    heard.append((key, int(message.productID)))

    class Hears:
        def __init__(self, key):
            self.key = key

        async def onMessage(self, _speaker, message):
            note(self.key, message)

    class AppListener:
        async def messageReceived(self, _speaker, message):
            note("application", message)

        def nodeAdded(self, _speaker, node):
            node.addListener(Hears(node.nodeId))

    asked = {tuple(s["node"]) for _, s in case["steps"] if s["op"] == "request"} | {tuple(x) for x in from_node}
    results = []  # (task, check)

    async def main(loop):
        sim = Sim(loop, [SimNode(n, bytes(CLASSES), endpoints=[(16, 1, bytes(CLASSES))] * c) for n, c in nodes.items()])
        pending = {}  # (node, endpoint) -> [(number, delay)]
        failed_lists = []

        def script(_sim, address, transport, packet):
            if packet.kind != "zip" or packet.is_ack:
                return False
            if address == sim.gateway:
                if packet.command[:2] == b"\x52\x0b" and failed_lists:
                    sim.failed = failed_lists.pop(0)
                return False
            node = sim.node_at(address)
            if node and packet.command == b"\x5e\x01" and pending.get((node.nodeId, packet.dest)):
                number, delay = pending[(node.nodeId, packet.dest)].pop(0)
                answer = build("ZwavePlusInfo.Report", plus_info(number))
                sim.reply(transport, delay * EIGHTH + 1 / 1024, wire.ack(packet.seq, source=packet.dest))
                sim.reply(transport, delay * EIGHTH + 3 / 1024, wire.packet(0, answer, source=packet.dest))
                return True
            return False

        sim.script = script

        def arrive(place, data):
            if place[0] == "gateway":
                socket = sim.gateway_socket()
                if socket:
                    sim.reply(socket, 0, data)
            elif place[0] == "own":
                socket = sim.node_socket(place[1])
                if socket:
                    sim.reply(socket, 0, data)
            else:
                address = {"controller": sim.controllerAddress, "gateway address": sim.gateway, "stranger": "fd00:cccc::9"}.get(place[0])
                sim.unsolicited(0, address or sim.nodes[place[1]].address, data)

        def throw(step, early):
            data = bytes.fromhex(step["data"])
            if "packets" in step:
                data = nested(data, step["packets"], step["supervised"])
                rec.label("nested deeply")
            if not allowed(step["place"], data, asked, early):
                rec.label("left out")
                return
            rec.label("garbage on %s" % step["place"][0])
            if early:
                rec.label("garbage during startup")
            garbage_count[0] += 1
            arrive(step["place"], data)

        garbage_count = [0]
        gateway = ZIPGateway(sim.gateway, b"psk")
        app = Application(gateway, storage)
        app.addListener(AppListener())
        MailboxService(gateway)
        for at, step in case["early"]:
            loop.call_later((at + 0.5) / 1024, throw, step, True)
        await gateway.connect()
        await app.startup()
        same(sorted(app.nodes), sorted("%d:%d" % (n, e) for n, e in from_node), "nodes after startup")
        await asyncio.sleep(1)
        for nodeId in nodes:
            require(await app.nodes["%d:0" % nodeId].send(construct("Basic.Get", {})) is True, "node %d did not get a command", nodeId)
        await asyncio.sleep(1)

        def marker(place, endpoint):
            count[0] += 1
            number = count[0]
            data = wire.packet(number & 0x7F, build(MARKER, {"manufacturerID": 0xA55A, "productTypeID": 0xFFFF - number, "productID": number}), endpoint)
            key = "application" if place[0] == "gateway" else "%d:%d" % (place[1], endpoint)
            wanted.setdefault((key, place[0]), []).append(number)
            arrive(place, data)

        async def request(node, endpoint, number):
            # answers come in the order they were asked for
            report = await app.nodes["%d:%d" % (node, endpoint)].sendAndReceive(ZwavePlusInfo.Get(), ZwavePlusInfo.Report, timeout=9)
            return int(report.installerIconType), int(report.userIconType)

        def expect(coroutine, value, what):
            results.append((asyncio.ensure_future(coroutine), value, what))

        def ask(step):
            if step["op"] == "request":
                node, endpoint = step["node"]
                count[0] += 1
                number = count[0]
                if any(not t.done() and w == "request to %d:%d" % (node, endpoint) for t, _, w in results):
                    return
                pending.setdefault((node, endpoint), []).append((number, step["delay"]))
                expect(request(node, endpoint, number), (number, 0xFFFF - number), "request to %d:%d" % (node, endpoint))
            elif step["op"] == "send":
                expect(app.nodes["%d:%d" % tuple(step["node"])].send(construct("Basic.Get", {})), True, "send to %d:%d" % tuple(step["node"]))
            else:
                if any(not t.done() and w == "failed nodes" for t, _, w in results):
                    return
                count[0] += 1
                ids = [i + 1 for i in range(8) if count[0] & (1 << i)]
                failed_lists.append(ids)
                expect(gateway.getFailedNodeList(), set(ids), "failed nodes")

        for gap, step in case["steps"]:
            if gap:
                await asyncio.sleep(gap * EIGHTH)
            if step["op"] in ("garbage", "burst"):
                for item in step.get("items", [step]):
                    throw(item, False)
            elif step["op"] == "flood":
                rec.label("floods of short commands")
                for data in flood(step["hid"], step["seed"], step["count"]):
                    throw({"place": step["place"], "data": data.hex()}, False)
            elif step["op"] == "marker":
                marker(step["place"], step["endpoint"])
                rec.label("well-formed commands")
            else:
                ask(step)
                rec.label(step["op"])
        await asyncio.sleep(12)
        # everything still works afterwards
        for node, endpoint in from_node:
            marker(["own", node], endpoint)
            marker(["node", node], endpoint)
        marker(["gateway"], 0)
        ask({"op": "failed nodes"})
        for at in from_node:
            ask({"op": "request", "node": at, "delay": 0})
        await asyncio.sleep(12)
        for task, value, what in results:
            require(task.done(), "%s did not complete", what)
            require(task.exception() is None, "%s ended with %r", what, task.exception())
            with observing(what):
                result = task.result()
                same(set(result) if isinstance(value, set) else result, value, "result of %s", what)
        rec.nontrivial(garbage_count[0] >= 2)

    vloop.run(main, settle=1)
    for key in sorted({k for k, _ in wanted} | {k for k, _ in heard}):
        mine = [n for k, n in heard if k == key]
        for (listener, socket), numbers in sorted(wanted.items()):
            if listener == key:
                same([n for n in mine if n in numbers], numbers, "commands delivered to %s that arrived on the %s socket", key, socket)
        same(sorted(mine), sorted(n for (k, _), numbers in wanted.items() if k == key for n in numbers), "commands delivered to %s", key)


def extra(tier, seed, worker, stats):
    """Coverage-guided search with the same oracle."""
    if tier != "thorough":
        return None
    scratch = tempfile.mkdtemp(prefix="c04-fuzz-")
    found, numbers = os.path.join(scratch, "found.json"), os.path.join(scratch, "stats.json")
    try:
        subprocess.run(
            [sys.executable, "-m", "lib.fuzz_c04", str(FUZZ_SECONDS), str(seed), found, numbers],
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, TMPDIR=scratch),
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=False, timeout=FUZZ_SECONDS + 120,
        )
        if not os.path.exists(numbers):
            raise HarnessError("the fuzzer gave no result")
        with open(numbers, encoding="utf-8") as f:
            seen = json.load(f)
        for case in seen["samples"]:
            rec = Recorder()
            rec.label("coverage-guided runs", seen["runs"] // max(1, len(seen["samples"])))
            rec.label("coverage-guided datagrams", seen["datagrams"] // max(1, len(seen["samples"])))
            rec.nontrivial()
            stats.add(case, rec)
        if not os.path.exists(found):
            return None
        with open(found, encoding="utf-8") as f:
            result = json.load(f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # judged again here, and shortened step by step
    from lib.runner import run_one  # pylint: disable=import-outside-toplevel

    for case in (result["case"], result["history"]):
        message = run_one(sys.modules[__name__], case)
        if message is not None:
            break
    else:
        stats.excluded += 1
        return None
    first, first_message = case, message
    deadline = time.monotonic() + 60
    at = 0
    while at < len(case["steps"]) and time.monotonic() < deadline:
        shorter = dict(case, steps=case["steps"][:at] + case["steps"][at + 1 :])
        again = run_one(sys.modules[__name__], shorter)
        if again is None:
            at += 1
        else:
            case, message = shorter, again
    return {"case": case, "message": message, "first": first, "first_message": first_message, "history": [first]}
