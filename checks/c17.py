"""Association interviews record every group and set up the lifeline once."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio

from hypothesis import strategies as st

from lib import states, vloop
from lib.core import observing, require, same
from lib.device import TICK, Device, DeviceAdapter, members_of
from lib.layout import build, mostly
from lib.states import ASSOCIATION, BASIC, MULTI_CHANNEL, MULTI_CHANNEL_ASSOCIATION, VERSION, ZWAVEPLUS
from pyzwave.node import Node, NodeEndPoint

PROPERTY = "C17"
RULE = """A case is one or two nodes or endpoints with any combination of the classes that matter and any association
groups, reported at once or in several reports to follow each other, interviewed one to three times while commands are
not acknowledged, fail, are not answered, are answered too late, in part or around reports about another group, and
while the members of groups change in the node.  What was sent, the
groups recorded, the groups of the node itself and the interviewed flag are compared with a reference model.
Non-trivial: a group with members, and a Z-Wave Plus node or a fault."""
ASSUMPTIONS = [
    "the controller is node 1 (known finding for others)",
    "answers are whole reports, and the number of groups of a node does not change",
    "whether the lifeline is set up when group 1 did not answer is not claimed",
]
QUICK = 330
THOROUGH = 22000
CONTROLLER = 1

MEMBER = st.tuples(st.sampled_from([1, 1, 1, 2, 3, 100, 232]), st.sampled_from([None, None, 0, 1, 2, 127, 128])).map(list)
MANY = st.tuples(st.integers(1, 40), st.sampled_from([6, 16, 33, 100])).map(lambda t: [[n, None if n % 3 else n % 5] for n in range(t[0], t[0] + t[1])])
MEMBERS = mostly(st.lists(MEMBER, max_size=4).map(lambda ms: [m for i, m in enumerate(ms) if m not in ms[:i]]), MANY, 24)
GROUP = st.tuples(st.integers(0, 255), MEMBERS).map(list)
OUTCOMES = ["nack", "error", "mute", "late", "foreign", "early", "cut"]


@st.composite
def strategy_(draw):
    nodes = []
    for number in range(draw(st.sampled_from([1, 1, 2]))):
        classes = [ASSOCIATION] + draw(st.lists(st.sampled_from([MULTI_CHANNEL, MULTI_CHANNEL_ASSOCIATION, ZWAVEPLUS, ZWAVEPLUS, VERSION, BASIC]), max_size=5, unique=True))
        count = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 5] + [40] * (draw(st.integers(0, 20)) == 0)))
        group = st.tuples(st.integers(1, max(min(count, 5), 1)), GROUP).map(list)
        faults = st.lists(st.tuples(st.sampled_from(["count", "get", "get", "get", "set", "get again"]), st.integers(1, 4), st.sampled_from(OUTCOMES)).map(list), max_size=2)
        nodes.append(
            {
                "endpoint": draw(st.integers(0, 3)) == 0,
                "classes": draw(st.permutations(classes)),
                "groups": [draw(GROUP) for _ in range(min(count, 5))],
                "more": max(0, count - 5),
                "split": draw(st.sampled_from([0, 0, 0, 1, 2, 3, 7])),
                "full": draw(st.integers(0, 4)) == 0,
                "attempts": [{"faults": draw(faults), "change": draw(st.lists(group, max_size=2)) if i and count else []} for i in range(draw(st.integers(1, 3)))],
            }
        )
    return {"nodes": nodes, "whole": draw(st.booleans())}


def strategy():
    return strategy_()


def ordered(members):
    """Members as a report has them."""
    return [m for m in members if m[1] is None] + [m for m in members if m[1] is not None]


def contains(members, controller):
    return any(m[0] == controller and m[1] in (None, 0) for m in members)


class One:
    def __init__(self, node, device, what, controller):
        self.node, self.device, self.what, self.controller = node, device, what, controller
        self.faults = []
        self.log = []  # (bytes, kind, group, outcome)
        self.sets = 0
        self.groups = {}  # the model: {number: [capacity, members]}
        self.plus = ZWAVEPLUS in what["classes"]
        self.multi = MULTI_CHANNEL_ASSOCIATION in what["classes"]
        self.sets_multi = self.multi and MULTI_CHANNEL in what["classes"]
        self.interviewed = False

    def script(self, data, answers):
        if data[0] not in (ASSOCIATION, MULTI_CHANNEL_ASSOCIATION):
            return None
        kind, group = {5: ("count", 0), 2: ("get", 0), 1: ("set", 0)}.get(data[1], ("other", 0))
        if kind in ("get", "set"):
            group = data[2]
        if kind == "get" and self.sets:
            kind = "get again"
        if kind == "set":
            self.sets += 1
        outcome = next((o for k, g, o in self.faults if k == kind and (kind in ("count", "set", "get again") or g == group)), "good")
        self.log.append((data, kind, group, outcome))
        if kind == "set" and outcome in ("nack", "error", "mute"):
            # it did not reach the node
            self.device.learned[ASSOCIATION]["content"] = self.untouched
        self.untouched = dict(self.device.content(ASSOCIATION))
        delays = [(2 + i) * TICK for i in range(len(answers))]
        replies = list(zip(delays, answers))
        if outcome in ("nack", "error"):
            return {"ack": False if outcome == "nack" else None, "delay": 1.0, "replies": []}
        if outcome == "mute":
            return {"ack": True, "delay": TICK, "replies": []}
        if outcome == "cut":
            # the last report of the answer is lost
            return {"ack": True, "delay": TICK, "replies": replies[:-1]}
        if outcome == "late":
            return {"ack": True, "delay": TICK, "replies": [(40 + d, a) for d, a in replies]}
        if outcome == "foreign" and kind != "count":
            name = "MultiChannelAssociation.MultiChannelReport" if data[0] == MULTI_CHANNEL_ASSOCIATION else "Association.Report"
            other = build(name, {"groupingIdentifier": group + 1, "maxNodesSupported": 99, "reportsToFollow": max(0, len(replies) - 1), "nodes": [[77, 78], []]})
            return {"ack": True, "delay": TICK, "replies": [(1.5 * TICK, other)] + replies + [(2.5 * TICK, other)][: max(0, len(replies) - 1)]}
        return {"ack": True, "delay": 2.0 if outcome == "early" else TICK, "replies": replies}

    # -- the model ------------------------------------------------------------------------------
    def reading(self, group):
        return build("MultiChannelAssociation.MultiChannelGet" if self.multi else "Association.Get", {"groupingIdentifier": group})

    def report(self, group, groups):
        capacity, members = groups[group - 1] if group <= len(groups) else [0, []]
        return [capacity, ordered(members if self.multi else [m for m in members if m[1] is None])]

    def take(self, wanted, what, rec):
        require(self.log, "%s was not sent", what)
        data, _, _, outcome = self.log.pop(0)
        same(data.hex(), wanted.hex(), "command sent where %s belongs" % what)
        if outcome not in ("good", "early"):
            rec.nontrivial()
            rec.label(outcome)
        return outcome

    def walk(self, groups, rec):
        """One attempt, with the groups the node had; returns if it is complete."""
        good = ("good", "foreign", "early")
        if self.take(build("Association.GroupingsGet", {}), "the request for the number of groups", rec) not in good:
            return False
        answered = set()
        for number in range(1, len(groups) + 1):
            self.groups.setdefault(number, [0, []])
        left = set(self.groups)
        while left:
            require(self.log and self.log[0][0][1] == 2 and self.log[0][2] in left, "group %s was not asked for", sorted(left))
            number = self.log[0][2]
            if self.take(self.reading(number), "the request for group %d" % number, rec) in good:
                self.groups[number] = self.report(number, groups)
                answered.add(number)
            left.discard(number)
        if not self.plus or not self.groups:
            return True
        if 1 in answered:
            expected = not contains(self.groups[1][1], self.controller)
        else:
            expected = bool(self.log)
        if not expected:
            rec.label("lifeline already there")
            return True
        if self.sets_multi:
            wanted = build("MultiChannelAssociation.MultiChannelSet", {"groupingIdentifier": 1, "nodes": [[], [[self.controller, 0]]]})
        else:
            wanted = build("Association.Set", {"groupingIdentifier": 1, "nodes": [[self.controller], []]})
        rec.label("lifeline set up, multi channel" if self.sets_multi else "lifeline set up")
        outcome = self.take(wanted, "the lifeline association", rec)
        if outcome == "error":
            return False
        if outcome not in ("nack", "mute") and not self.what["full"]:
            for member in members_of(wanted[3:]):
                if list(member) not in groups[0][1]:
                    groups[0][1].append(list(member))
        if self.take(self.reading(1), "the request for group 1 after it was set", rec) not in good:
            return False
        self.groups[1] = self.report(1, groups)
        return True

    def settle(self, groups, what):
        same([d.hex() for d, _, _, _ in self.log], [], "commands sent that do not belong to %s" % what)
        obj = self.node.supported[ASSOCIATION]
        with observing("association groups"):
            same(states.read(ASSOCIATION, obj), {str(k): [c, [list(m) for m in ms]] for k, (c, ms) in sorted(self.groups.items())}, "groups recorded after %s" % what)
            states.check_types(ASSOCIATION, obj, "groups recorded after %s" % what)
            require(obj.interviewed is self.interviewed, "interviewed is %r after %s, expected %r", obj.interviewed, what, self.interviewed)
            for number, (_, members) in self.groups.items():
                nodes = obj.groupings[number].nodes
                for nodeId, endpoint in ((1, 0), (1, 1), (100, 0), (2, 2)):
                    same(
                        bool(nodes.contains(nodeId, endpoint)), any(n == nodeId and (e or 0) == endpoint for n, e in members),
                        "whether group %d contains %d:%d" % (number, nodeId, endpoint),
                    )
        same([[c, sorted(map(repr, ms))] for c, ms in self.device.groups()], [[c, sorted(map(repr, ms))] for c, ms in groups], "groups of the node after %s" % what)


def run(case, rec):
    async def main(_loop):
        ones = {}
        adapter = DeviceAdapter({})
        adapter.nodeId = case.get("controller", CONTROLLER)
        root = None
        for number, what in enumerate(case["nodes"]):
            groups = {str(i + 1): [g[0], [list(m) for m in g[1]]] for i, g in enumerate(what["groups"])}
            for i in range(what["more"]):
                groups[str(6 + i)] = [i, [[2 + i, None]]]
            learned = {c: {"version": 1, "content": {}} for c in what["classes"]}
            learned[ASSOCIATION]["content"] = groups
            device = Device(what["classes"], learned)
            device.members_per_report = what.get("split", 0)
            if what["full"]:
                device.add_members = lambda *_args: None
            node = Node(5 + number, adapter, list(what["classes"]))
            if what["endpoint"]:
                root = root or Node(99, adapter, [])
                node = NodeEndPoint(root, 1 + number, adapter, list(what["classes"]))
            key = (node.rootNodeId, node.endpoint)
            one = ones[key] = One(node, device, what, adapter.nodeId)
            one.untouched = dict(device.content(ASSOCIATION))
            adapter.devices[key] = device
            rec.nontrivial(one.plus and any(g[1] for g in what["groups"]))

        async def deliver(nodeId, endpoint, message, flags):
            await ones[(nodeId, endpoint)].node.handleMessage(message, flags)

        adapter.script = lambda nodeId, endpoint, data, answers: ones[(nodeId, endpoint)].script(data, answers)
        adapter.deliver = deliver
        usual = adapter.sendToNode

        async def sendToNode(nodeId, cmd, **kwargs):
            ack = await usual(nodeId, cmd, **kwargs)
            if ack is None:
                raise asyncio.TimeoutError()
            return ack

        adapter.sendToNode = sendToNode

        async def attempts(number, one):
            await asyncio.sleep(number / 16)
            for index, attempt in enumerate(one.what["attempts"]):
                one.faults, one.sets, one.log = attempt["faults"], 0, []
                known = one.device.content(ASSOCIATION)
                for group, what in attempt["change"]:
                    known[str(group)] = [what[0], [list(m) for m in what[1]]]
                    rec.label("members changed in the node")
                one.untouched = dict(known)
                groups = [[c, [list(m) for m in ms]] for c, ms in one.device.groups()]
                if case["whole"]:
                    await one.node.interview()
                else:
                    await one.node.supported[ASSOCIATION].interview()
                await asyncio.sleep(60)
                one.interviewed = one.walk(groups, rec)
                rec.label("complete" if one.interviewed else "not complete")
                one.settle(groups, "attempt %d" % index)

        await asyncio.gather(*(attempts(i, one) for i, one in enumerate(ones.values())))
        for key, one in ones.items():
            same(sorted({(n, e) for _, n, e, _ in adapter.sent if (n, e) not in ones}), [], "others commands were sent to")
            same([d.hex() for d, _, _, _ in one.log], [], "commands sent to %s afterwards" % (key,))

    vloop.run(main)


def known():
    yield (
        "the lifeline association is made with node 1 also when the controller is another node (controller 5: its id is not "
        "looked up)",
        {
            "nodes": [{"endpoint": False, "classes": [ASSOCIATION, ZWAVEPLUS], "groups": [[5, []]], "more": 0, "full": False, "attempts": [{"faults": [], "change": []}]}],
            "whole": False,
            "controller": 5,
        },
    )
