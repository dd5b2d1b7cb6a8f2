"""Network management calls send the right command and return the gateway's answer."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import vloop, wire
from lib.core import HarnessError, Violation, observing, require, same
from lib.layout import FIELDS, build, differences, edge_ints, message_strategy, node_ids, unset
from lib.sim import Sim, SimNode
from pyzwave.adapter import TxOptions
from pyzwave.commandclass import NetworkManagementInclusion
from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint
from pyzwave.types import dsk_t
from pyzwave.zipgateway import ZIPGateway

PROPERTY = "C21"
RULE = """A case is a connected gateway whose node list may not have been learned and a history of network management
calls, alone, several of different kinds at once, or hundreds in a row, with any arguments; the gateway acknowledges
in time, late or never and answers before or after the acknowledgement, too late, with a shortened report, or never,
with other traffic in between.  Every command sent, every result and the sequence numbers are compared with a model.
Non-trivial: a call is answered and another one is not, or calls overlap, or more than 256 are made."""
ASSUMPTIONS = ["an answer that is late never arrives while another call of the same kind is waiting (known finding)"]
QUICK = 240
THOROUGH = 14000

IDS = edge_ints(1, 232)
# kind: (command, arguments of the call, answer)
ASKING = {
    "failed": ("NetworkManagementProxy.FailedNodeListGet", "NetworkManagementProxy.FailedNodeListReport"),
    "endpoints": ("NetworkManagementProxy.MultiChannelEndPointGet", "NetworkManagementProxy.MultiChannelEndPointReport"),
    "capability": ("NetworkManagementProxy.MultiChannelCapabilityGet", "NetworkManagementProxy.MultiChannelCapabilityReport"),
    "info": ("NetworkManagementProxy.NodeInfoCachedGet", "NetworkManagementProxy.NodeInfoCachedReport"),
    "remove failed": ("NetworkManagementInclusion.FailedNodeRemove", "NetworkManagementInclusion.FailedNodeRemoveStatus"),
    "list": ("NetworkManagementProxy.NodeListGet", "NetworkManagementProxy.NodeListReport"),
}
TIMEOUT = {"remove failed": 10}
TICK = 1 / 1024
ACKS = st.sampled_from([1, 1, 1, 1, 1, 513, 2817, 3585, None])
ANSWERS = st.sampled_from([2, 2, 2, 2, 3, 3, 258, 2051, 2994, 4099, 5891, 6403, 9219, 12035, 14083, None])
NODESET = node_ids(1, 5)


def answer_fields(kind):
    def strategy(name):
        return message_strategy([name]).map(lambda m: m["fields"])

    name = ASKING[kind][1]
    if kind == "list":
        return NODESET.map(lambda ids: {"seqNo": 0, "status": 0, "nodeListControllerId": max(ids) if len(ids) % 2 else 1, "nodes": sorted({1} | set(ids))})
    if kind == "remove failed":
        return st.sampled_from([0, 1, 2]).map(lambda s: {"seqNo": 0, "status": s, "nodeID": 5})
    return strategy(name)


@st.composite
def asking(draw, kind):
    call = {"kind": kind, "ack": draw(ACKS), "answer": draw(ANSWERS), "fields": draw(answer_fields(kind)), "cut": None}
    if kind in ("endpoints", "failed") and draw(st.integers(0, 5)) == 0:
        call["cut"] = draw(st.sampled_from([0, 1, 2, 3, 5, 7])) if kind == "endpoints" else draw(st.integers(0, 1))
    if kind in ("endpoints", "capability", "info", "remove failed"):
        call["node"] = draw(IDS)
    if kind == "capability":
        call["endpoint"] = draw(edge_ints(0, 127))
    if kind == "remove failed":
        call["via"] = draw(st.sampled_from(["gateway", "node", "endpoint"]))
    return call


@st.composite
def telling(draw, kind):
    call = {"kind": kind, "ack": draw(ACKS)}
    if kind == "add":
        call["options"] = draw(st.sampled_from([0, 2, 0x20, 0x22]))
    elif kind == "dsk":
        call["accept"] = draw(st.booleans())
        call["as"] = draw(st.sampled_from(["bytes", "bytes", "key"]))
        # the part the user entered, or nothing
        call["dsk"] = draw(st.one_of(st.just(""), st.integers(1, 15).flatmap(lambda n: st.binary(min_size=n, max_size=n)).map(lambda b: b.hex())))
    elif kind == "keys":
        call["as"] = draw(st.sampled_from(["keys", "number", "report"]))
        call["csa"], call["accept"], call["keys"] = draw(st.booleans()), draw(st.booleans()), draw(st.sampled_from([0, 1, 2, 4, 0x80, 0x87, 3]))
    return call


TELLING = ["add", "dsk", "keys", "add stop", "remove", "remove stop"]


def one():
    return st.one_of(st.sampled_from(sorted(ASKING)).flatmap(asking), st.sampled_from(sorted(ASKING)).flatmap(asking), st.sampled_from(TELLING).flatmap(telling))


@st.composite
def step(draw):
    which = draw(st.integers(0, 15))
    if which < 8:
        return {"op": "call", "calls": [draw(one())]}
    if which < 12:
        kinds = draw(st.lists(st.sampled_from(sorted(ASKING) + TELLING), min_size=2, max_size=5, unique=True))
        return {"op": "call", "calls": [draw(asking(k) if k in ASKING else telling(k)) for k in kinds]}
    if which < 14:
        return {"op": "report", "nodes": sorted({1} | set(draw(NODESET)))}
    return {"op": "many", "count": draw(st.sampled_from([3, 17, 260])) if draw(st.integers(0, 5)) == 3 else 3, "kind": draw(st.sampled_from(["add stop", "remove stop", "failed"]))}


def strategy():
    return st.fixed_dictionaries(
        {
            "list": st.one_of(st.none(), NODESET.map(lambda ids: sorted({1} | set(ids)))),
            "batch": st.booleans(),
            "steps": st.lists(step(), min_size=1, max_size=8),
            "noise": st.lists(st.tuples(st.sampled_from([2, 5, 300, 1400]), message_strategy(["NetworkManagementInclusion.NodeAddStatus", "Basic.Report", "NetworkManagementInclusion.NodeRemoveStatus", "ZipGateway.GatewayModeReport"])).map(list), max_size=2),
        }
    )


def sent_fields(call, seq):
    """(name, fields) of the command the call has to send."""
    kind = call["kind"]
    if kind in ASKING:
        name = ASKING[kind][0]
        fields = {"seqNo": seq}
        if kind in ("endpoints", "capability", "info", "remove failed"):
            fields["nodeID"] = call["node"]
        if kind == "capability":
            fields.update({"endPoint": call["endpoint"]})
        if kind == "info":
            fields.update({"maxAge": 15})
    elif kind in ("add", "add stop"):
        name = "NetworkManagementInclusion.NodeAdd"
        fields = {"seqNo": seq, "mode": 7 if kind == "add" else 5, "txOptions": call.get("options", 0)}
    elif kind in ("remove", "remove stop"):
        name = "NetworkManagementInclusion.NodeRemove"
        fields = {"seqNo": seq, "mode": 1 if kind == "remove" else 5}
    elif kind == "dsk":
        name = "NetworkManagementInclusion.NodeAddDSKSet"
        fields = {"seqNo": seq, "accept": int(call["accept"]), "dsk": call["dsk"]}
    else:
        name = "NetworkManagementInclusion.NodeAddKeysSet"
        fields = {"seqNo": seq, "grantCSA": int(call["csa"]), "accept": int(call["accept"]), "grantedKeys": call["keys"]}
    from lib.layout import keys_of  # pylint: disable=import-outside-toplevel

    for key in keys_of(name):
        fields.setdefault(key, 0)
    return name, fields


def make(gateway, call):
    kind = call["kind"]
    if kind == "failed":
        return gateway.getFailedNodeList()
    if kind == "endpoints":
        return gateway.getMultiChannelEndPoints(call["node"])
    if kind == "capability":
        return gateway.getMultiChannelCapability(call["node"], call["endpoint"])
    if kind == "info":
        return gateway.getNodeInfo(call["node"])
    if kind == "remove failed":
        if call.get("via", "gateway") == "gateway":
            return gateway.removeFailedNode(call["node"])
        node = Node(call["node"], gateway, [])
        return (node if call["via"] == "node" else NodeEndPoint(node, 1, gateway, [])).remove()
    if kind == "list":
        return gateway.getNodeList()
    if kind == "add":
        return gateway.addNode(TxOptions(call["options"]))
    if kind == "add stop":
        return gateway.addNodeStop()
    if kind == "remove":
        return gateway.removeNode()
    if kind == "remove stop":
        return gateway.removeNodeStop()
    if kind == "dsk":
        dsk = bytes.fromhex(call["dsk"])
        return gateway.addNodeDSKSet(call["accept"], len(dsk), dsk_t(dsk) if call.get("as") == "key" else dsk)
    keys = call["keys"]
    if call.get("as", "keys") == "keys":
        keys = NetworkManagementInclusion.Keys(keys)
    elif call["as"] == "report":
        # the keys the node asked for
        keys = Message.decode(build("NetworkManagementInclusion.NodeAddKeysReport", {"seqNo": 1, "-1": 0, "requestCSA": 0, "requestedKeys": keys})).requestedKeys
    return gateway.addNodeKeysSet(call["csa"], call["accept"], keys)


def answered(call):
    """The answer arrives before the call gives up."""
    if call["answer"] is None:
        return False
    sent = call["ack"] / 1024 if call["ack"] is not None and call["ack"] < 3072 else 3
    return call["answer"] / 1024 < sent + TIMEOUT.get(call["kind"], 3)


def answer_bytes(call, seq):
    fields = dict(call["fields"], seqNo=seq)
    return build(ASKING[call["kind"]][1], fields, count=call["cut"])


def check_result(call, result, what):
    kind = call["kind"]
    name = ASKING[kind][1] if kind in ASKING else None
    fields = call.get("fields")
    got = kind in ASKING and answered(call)
    present = None
    if got and call["cut"] is not None:
        present = [f.name for f in FIELDS[name][: call["cut"]]]
    with observing(what):
        if kind not in ASKING:
            require(result is True or result is False, "%s returned %r", what, result)
            if call["ack"] is not None and call["ack"] < 3072:
                require(result is True, "%s was acknowledged but returned %r", what, result)
        elif kind == "failed":
            wanted = set(fields["failedNodeList"]) if got and (present is None or "failedNodeList" in present) else set()
            same(set(int(x) for x in result), wanted, what)
            same(len(result), len(wanted), what)
        elif kind == "endpoints":
            wanted = 0
            for part in ("individualEndPoints", "aggregatedEndPoints"):
                if got and (present is None or part in present):
                    wanted += fields[part]
            same(int(result), wanted, what)
        elif kind in ("capability", "info"):
            if got:
                found = differences(result, name, dict(fields, seqNo=int(result.seqNo)))
                require(not found, "%s returned another report: %s", what, "; ".join(found[:2]))
            else:
                same("%s.%s" % (type(result).__module__.split(".")[-1], type(result).__name__), name, "%s without an answer", what)
                for field in FIELDS[name]:
                    if field.checked:
                        require(unset(getattr(result, field.name), field), "%s without an answer has %s %r", what, field.name, getattr(result, field.name))
                same(list(result.commandClass), [], "%s without an answer", what)
        elif kind == "remove failed" and call.get("via", "gateway") != "gateway":
            require(result is (got and fields["status"] == 1), "%s returned %r, the status is %s", what, result, fields["status"] if got else None)
        elif kind == "remove failed":
            same(int(result), fields["status"] if got else 2, what)
        else:
            wanted = set(fields["nodes"]) if got else set()
            same(set(int(x) for x in result), wanted, what)


def run(case, rec):
    async def main(loop):
        sim = Sim(loop, [SimNode(n) for n in (case["list"] or [1]) if n != 1])
        loop.batch = case.get("batch", False)
        state = {"answers": {}, "quiet": case["list"] is None}
        previous = [None]
        management = []

        def script(_sim, address, transport, packet):
            if address != sim.gateway or packet.kind != "zip" or packet.is_ack or packet.command[:1] not in (b"\x52", b"\x34"):
                return False
            seq = packet.command[2]
            require(seq != previous[0], "sequence number %d is used for two network management calls in a row", seq)
            previous[0] = seq
            management.append(packet)
            code = packet.command[:2]
            if state["quiet"]:
                sim.reply(transport, TICK, wire.ack(packet.seq))
                return True
            for call in state["answers"].get(code, []):
                if call.get("taken"):
                    continue
                call["taken"] = True
                if call["ack"] is not None:
                    sim.reply(transport, call["ack"] / 1024, wire.ack(packet.seq))
                if call.get("answer") is not None:
                    sim.reply(transport, call["answer"] / 1024, wire.packet(0, answer_bytes(call, seq)))
                return True
            return False

        sim.script = script
        gateway = ZIPGateway(sim.gateway, b"psk")
        await gateway.connect()
        known = set(case["list"]) if case["list"] is not None else None
        state["quiet"] = False
        await asyncio.sleep(5)
        busy_until = {}  # kind: when its last late answer arrived
        results = []

        for at, item in enumerate(case["steps"]):
            if item["op"] == "report":
                sim.nodes = {n: SimNode(n) for n in item["nodes"] if n != 1}
                sim.unsolicited(0, sim.gateway, wire.packet(3, sim.node_list()))
                await asyncio.sleep(2)
                known = set(item["nodes"])
                rec.label("node list reported")
                continue
            if item["op"] == "many":
                plain = {"kind": item["kind"], "ack": 1}
                if item["kind"] in ASKING:
                    plain.update({"answer": 2, "fields": {"failedNodeList": [5]}, "cut": None})
                calls = [dict(plain) for _ in range(item["count"])]
                groups = [[c] for c in calls]
                rec.label("many calls in a row")
                rec.nontrivial(item["count"] > 255)
            else:
                groups = [[dict(c) for c in item["calls"]]]
            for calls in groups:
                if not case.get("overlap"):
                    wait = max(busy_until.get(c["kind"], 0) for c in calls) - loop.now
                    if wait > 0:
                        await asyncio.sleep(wait)
                del management[:]
                state["answers"] = {}
                asked = []
                for call in calls:
                    if call["kind"] == "list" and known is not None:
                        call["cached"] = True
                        continue
                    asked.append(call)
                    name, _ = sent_fields(call, 0)
                    state["answers"].setdefault(build(*sent_fields(call, 0))[:2], []).append(call)
                start = loop.now
                noise = case["noise"] if item["op"] == "call" else []
                for delay, message in noise:
                    sim.reply(sim.gateway_socket(), delay / 1024 + 1 / 4096, wire.packet(0, build(message["name"], message["fields"])))
                done = await asyncio.gather(*[make(gateway, c) for c in calls], return_exceptions=True)
                for call, result in zip(calls, done):
                    what = "call %s of step %d" % (call["kind"], at)
                    if isinstance(result, (HarnessError, Violation)):
                        raise result
                    require(not isinstance(result, BaseException), "%s raised %r", what, result)
                    if call.get("cached"):
                        same(set(int(x) for x in result), known, "%s with a known node list" % what)
                        rec.label("node list known")
                        continue
                    check_result(call, result, what)
                    if call["kind"] in ASKING:
                        rec.label("answered" if answered(call) else "not answered")
                        results.append(answered(call))
                        if call["answer"] is not None:
                            busy_until[call["kind"]] = max(busy_until.get(call["kind"], 0), start + call["answer"] / 1024 + 1 / 64)
                    else:
                        rec.label("told")
                    if call["kind"] == "list" and answered(call):
                        known = set(call["fields"]["nodes"])
                        same(int(gateway.nodeId), call["fields"]["nodeListControllerId"], "the controller's node id")
                same(len(management), len(asked), "number of network management commands sent by %s", [c["kind"] for c in calls])
                left = [p.command for p in management]
                for call in asked:
                    for command in left:
                        if command == build(*sent_fields(call, command[2])):
                            left.remove(command)
                            break
                    else:
                        require(False, "call %s sent %s", {k: v for k, v in call.items() if k != "fields"}, [c.hex() for c in left])
                rec.nontrivial(len(asked) > 1)
        rec.nontrivial(True in results and False in results)
        await asyncio.sleep(20)

    vloop.run(main)


def known():
    info = {"basicDeviceClass": 4, "genericDeviceClass": 16, "specificDeviceClass": 1, "seqNo": 0, "status": 0, "age": 0, "listening": 1, "optFunc": 0, "-4": 0, "-6": 0, "-7": 0}
    call = {"kind": "info", "ack": 1, "cut": None}
    late = [dict(call, answer=4099, fields=dict(info, commandClass="20"), node=5), dict(call, answer=2051, fields=dict(info, commandClass="25"), node=6)]
    yield (
        "the sequence number of an answer is ignored: the late answer of a network management call that gave up is taken as "
        "the answer of the next call of the same kind (getNodeInfo(5) answered after 4 s, during getNodeInfo(6))",
        {"list": [1, 5, 6], "steps": [{"op": "call", "calls": [c]} for c in late], "noise": [], "overlap": True},
    )
    both = [dict(call, answer=513, fields=dict(info, commandClass="20"), node=5), dict(call, answer=514, fields=dict(info, commandClass="25"), node=6)]
    yield (
        "the sequence number of an answer is ignored: two network management calls of the same kind at the same time both "
        "return the first answer (getNodeInfo(5) and getNodeInfo(6))",
        {"list": [1, 5, 6], "steps": [{"op": "call", "calls": both}], "noise": [], "overlap": True},
    )
