"""Coverage-guided search for datagrams that break reception (atheris), with the oracle of check C04.

usage: python -m lib.fuzz_c04 SECONDS SEED FOUND.json STATS.json
"""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import json
import os
import random
import sys
import tempfile

import atheris

# instrument the library: everything already imported is loaded again
for name in [n for n in sys.modules if n.split(".")[0] == "pyzwave"]:
    del sys.modules[name]
with atheris.instrument_imports(include=["pyzwave"]):
    import pyzwave.commandclass  # noqa: F401
    import pyzwave.application  # noqa: F401
    import pyzwave.mailbox  # noqa: F401
    import pyzwave.zipgateway  # noqa: F401

from checks import c04  # noqa: E402
from lib.layout import HIDS  # noqa: E402
from lib.sim import Sim, SimNode  # noqa: E402
from lib.vloop import VLoop, _cleanup as cleanup, problems_of  # noqa: E402

PLACES = [["gateway"], ["own", 2], ["own", 5], ["node", 2], ["node", 5], ["controller"], ["stranger"], ["gateway address"]]


RESET = 300  # runs on one application


class Live:
    """An application that keeps running from one input to the next."""

    def __init__(self):
        self.loop = VLoop(10 ** 9)
        asyncio.set_event_loop(self.loop)
        classes = bytes(c04.CLASSES)
        self.sim = Sim(self.loop, [SimNode(n, classes, endpoints=[(16, 1, classes)] * c) for n, c in ((2, 1), (5, 0))])
        self.steps = []
        self.heard = []
        self.number = 0
        self.loop.run_until_complete(self.start())

    async def start(self):
        self.gateway = c04.ZIPGateway(self.sim.gateway, b"psk")
        self.app = c04.Application(self.gateway, c04.PersistantStorage())
        self.app.addListener(self)
        c04.MailboxService(self.gateway)
        await self.gateway.connect()
        await self.app.startup()
        await asyncio.sleep(1)
        for node in list(self.app.nodes.values()):
            await node.send(c04.construct("Basic.Get", {}))

    async def messageReceived(self, _speaker, message):
        self.note("application", message)

    def nodeAdded(self, _speaker, node):
        live = self

        class Hears:
            async def onMessage(self, _speaker, message):
                live.note(node.nodeId, message)

        node.addListener(Hears())

    def note(self, key, message):
        if message.hid() == 0x7205 and getattr(message, "manufacturerID", None) == 0xA55A:
            self.heard.append((key, int(message.productID)))

    def throw(self, place, data):
        if place[0] == "gateway":
            self.sim.reply(self.sim.gateway_socket(), 0, data)
        elif place[0] == "own":
            self.sim.reply(self.sim.node_socket(place[1]), 0, data)
        else:
            address = {"controller": self.sim.controllerAddress, "gateway address": self.sim.gateway, "stranger": "fd00:cccc::9"}.get(place[0])
            self.sim.unsolicited(0, address or self.sim.nodes[place[1]].address, data)

    def feed(self, steps):
        """None, or what went wrong."""
        self.steps.extend(steps)
        wanted = []
        del self.heard[:]
        for gap, step in steps:
            if gap:
                self.loop.run_until_complete(asyncio.sleep(gap / 8))
            if step["op"] == "garbage":
                self.throw(step["place"], bytes.fromhex(step["data"]))
            else:
                self.number = (self.number + 1) & 0xFFFF
                body = c04.build(c04.MARKER, {"manufacturerID": 0xA55A, "productTypeID": 0xFFFF - self.number, "productID": self.number})
                place = step["place"]
                self.throw(place, c04.wire.packet(self.number & 0x7F, body, step["endpoint"]))
                wanted.append(("%d:%d" % (place[1], step["endpoint"]), self.number))
        self.loop.run_until_complete(asyncio.sleep(4))
        problems = problems_of(self.loop)
        if problems:
            return problems[0]
        if self.heard != wanted:
            return "delivered %s instead of %s" % (self.heard, wanted)
        self.loop.tasks = [t for t in self.loop.tasks if not t.done()]
        del self.loop.sent[:], self.sim.received[:], self.sim.acks[:], self.sim.strays[:]
        return None


def steps_of(data):
    """Steps from fuzzer bytes: place, length, datagram; most datagrams are wrapped in a Z/IP header."""
    steps = []
    at = 0
    while at + 2 <= len(data) and len(steps) < 32:
        head, length = data[at], data[at + 1] % 48
        body = data[at + 2 : at + 2 + length]
        at += 2 + length
        place = PLACES[head & 7]
        if head & 0x40:
            body = b"\x23\x02\x00\x50" + bytes([0x80 | head]) + bytes([(head >> 4) & 3, 0]) + body
        if c04.allowed(place, body, (), True):
            steps.append([1 if head & 0x08 else 0, {"op": "garbage", "place": place, "data": body.hex()}])
        if head & 0x80:
            steps.append([1, {"op": "marker", "place": ["node", 2], "endpoint": 1}])
    return steps


def case_of(steps):
    return {"steps": steps, "early": [], "yaml": False, "small": True}


def seeds(directory, seed):
    rng = random.Random(seed)
    for i, hid in enumerate(sorted(HIDS)):
        data = b""
        # the command cut off after every one of its first bytes
        for length in range(2, 9):
            body = bytes([hid >> 8, hid & 0xFF]) + bytes(rng.randrange(256) for _ in range(length - 2))
            data += bytes([0x40 | rng.choice([0, 1, 3, 3, 9, 11]), len(body)]) + body
        with open(os.path.join(directory, "s%d" % i), "wb") as f:
            f.write(data)


def main():
    seconds, seed, found, stats = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
    count = {"runs": 0, "datagrams": 0, "labels": {}, "samples": []}
    live = [None]

    def one(data):
        steps = steps_of(data)
        if not steps:
            return
        if live[0] is None or count["runs"] % RESET == 0:
            if live[0] is not None:
                cleanup(live[0].loop)
            live[0] = Live()
        try:
            problem = live[0].feed(steps)
        except Exception as error:  # pylint: disable=broad-except
            problem = "%s: %s" % (type(error).__name__, error)
        if problem:
            with open(found, "w", encoding="utf-8") as f:
                json.dump({"case": case_of(steps), "history": case_of(live[0].steps), "message": problem}, f)
            save()
            os._exit(77)
        count["runs"] += 1
        count["datagrams"] += sum(1 for _, s in steps if s["op"] == "garbage")
        if count["runs"] % 500 == 0:
            count["samples"] = (count["samples"] + [case_of(steps)])[-3:]
            save()

    def save():
        with open(stats, "w") as f:
            json.dump(count, f)

    with tempfile.TemporaryDirectory(prefix="fuzz-c04-") as corpus:
        seeds(corpus, seed)
        atheris.Setup(
            [sys.argv[0], corpus, "-max_total_time=%d" % seconds, "-seed=%d" % (seed or 1), "-max_len=600", "-len_control=20", "-print_final_stats=0", "-rss_limit_mb=3000",
             "-artifact_prefix=%s/" % corpus, "-timeout=60"],
            one,
        )
        atheris.Fuzz()


if __name__ == "__main__":
    main()
