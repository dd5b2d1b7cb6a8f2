"""Plain connections carry each datagram unchanged, until they are stopped."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import os
import socket
import time

from hypothesis import strategies as st

from lib import vloop
from lib.core import HarnessError, Violation, require, same
from lib.layout import edge_ints
from pyzwave.connection import Connection

PROPERTY = "C33"
RULE = """A case is up to three plain connections, connecting to peers or listening, and a history: they are
started, stopped and started again, datagrams of all sizes leave and arrive in bursts, strangers send too, handlers
change, and the network refuses datagrams.  Half of the cases run on real sockets of the loopback network, the others on
a simulated one with virtual time.  What the handlers and the peers got is compared with what was sent to them.
Non-trivial: datagrams arrive and leave, and something is stopped, refused, sent by a stranger or handled by another handler."""
ASSUMPTIONS = [
    "datagrams are not empty and at most 1500 bytes, and the network itself loses none (loopback, or simulated)",
    "what send() returns after a stop is not claimed, and a connection is not started twice without a stop",
]
QUICK = 300
THOROUGH = 20000

DATA = st.one_of(
    st.binary(min_size=1, max_size=30), st.integers(1, 1500).map(lambda n: bytes(i * 7 % 251 for i in range(n))), st.sampled_from([b"\x00", b"\xff" * 1500, b"\x23\x02" + bytes(60)])
).map(bytes.hex)
PEERS = 3


@st.composite
def strategy_(draw):
    conns = draw(st.lists(st.sampled_from(["client", "client", "server"]), min_size=1, max_size=3))
    which = st.integers(0, len(conns) - 1)
    peer = st.integers(0, PEERS - 1)
    sender = st.integers(0, 2 * PEERS - 1)  # two sockets of each peer reach a listening connection
    burst = st.lists(DATA, min_size=1, max_size=4)
    ops = [["start", i, draw(peer)] for i in range(len(conns)) if draw(st.integers(0, 4))]
    one = st.one_of(
        st.tuples(st.just("start"), which, peer).map(list),
        st.tuples(st.just("send"), which, burst, peer, st.booleans()).map(list),
        st.tuples(st.just("send"), which, burst, peer, st.booleans()).map(list),
        st.tuples(st.just("arrive"), which, burst, sender).map(list),
        st.tuples(st.just("arrive"), which, burst, sender).map(list),
        st.tuples(st.just("stranger"), which, DATA, peer).map(list),
        st.tuples(st.just("refused"), which, DATA).map(list),
        st.tuples(st.just("handler"), which, edge_ints(0, 3)).map(list),
        st.tuples(st.just("stop"), which, st.booleans()).map(list),
        st.tuples(st.just("restart"), which, peer).map(list),
    )
    ops += draw(st.lists(one, min_size=1, max_size=12))
    return {"real": draw(st.booleans()), "conns": conns, "handlers": [draw(st.sampled_from([1, 1, 0])) for _ in conns], "ops": ops}


def strategy():
    return strategy_()


class Virtual:
    """Peers on the simulated network."""

    def __init__(self, loop):
        self.loop = loop
        self.taken = 0
        self.got = []  # (peer, source, data) of datagrams that arrived at peers
        self.own = {}

    @staticmethod
    def address(peer):
        return "fd00:bbbb::%d" % (peer + 2)

    def port(self, index):
        return 5000 + index

    async def settle(self, _done=None):
        await asyncio.sleep(1)
        for _, transport, data, target in self.loop.sent[self.taken :]:
            peers = [p for p in range(PEERS) if target and target[:2] == (self.address(p), 4123 if transport.remote else 6000 + p)]
            require(len(peers) == 1, "a datagram was sent to %s", target)
            self.got.append((peers[0], transport, data))
        self.taken = len(self.loop.sent)

    async def started(self, index, kind, peer):
        """The connection was started: find out how to reach it."""
        if kind == "client":
            found = [t for t in self.loop.sockets(remote=self.address(peer)) if t not in self.own.values()]
            require(len(found) == 1 and found[0].remote[:2] == (self.address(peer), 4123), "connecting to %s opened %s", self.address(peer), [t.remote for t in found])
        else:
            found = [t for t in self.loop.sockets(local=self.port(index)) if t not in self.own.values()]
            require(len(found) == 1, "listening on %d opened %d sockets", self.port(index), len(found))
        self.own[index] = found[0]

    def arrive(self, index, kind, peer, data):
        """Returns the address the connection sees."""
        addr = (self.address(peer % PEERS), 4123 if kind == "client" else 6000 + peer, 0, 0)
        self.loop.inject(0, self.own[index], data, addr)
        return addr

    def stranger(self, index, peer, data):
        """Nobody but the peer reaches a connected socket."""
        require(self.own[index].remote is not None, "the socket of a connection takes datagrams of everyone")
        del peer, data

    def target(self, peer):
        return (self.address(peer), 6000 + peer, 0, 0)

    async def refuse(self, index, _peer, send):
        del send
        self.own[index].protocol.error_received(ConnectionRefusedError(111, "Connection refused"))
        await asyncio.sleep(0.5)

    def released(self, index, kind, port):
        del kind, port
        require(self.own[index].closed, "the socket is still open after a stop")

    def source(self, index):
        return self.own[index]

    def close(self):
        pass


class Real:
    """Peers on the loopback network; each process has addresses of its own."""

    def __init__(self, loop):
        self.loop = loop
        pid = os.getpid()
        self.prefix = "127.%d.%d." % (1 + (pid >> 8) % 250, pid % 256)
        self.socks = [self.bound(self.address(p), 4123) for p in range(PEERS)]
        self.senders = [self.bound(self.address(p), 0) for p in range(PEERS)]
        self.odd = [self.bound(self.address(p), 0) for p in range(PEERS)]
        self.got = []
        self.own = {}
        self.ports = {}
        self.hello = 0

    @staticmethod
    def bound(address, port):
        for attempt in range(50):
            sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try:
                sock.bind((address, port))
                sock.setblocking(False)
                return sock
            except OSError as error:
                sock.close()
                if attempt == 49:
                    raise HarnessError("cannot bind %s %d: %s" % (address, port, error)) from error
                time.sleep(0.05)

    def address(self, peer):
        return self.prefix + str(peer + 2)

    def port(self, index):
        for attempt in range(100):
            port = 10000 + (os.getpid() * 7 + index * 1009 + attempt * 37) % 20000
            with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as sock:
                try:
                    sock.bind(("::", port))
                except OSError:
                    continue
            self.ports[index] = port
            return port
        raise HarnessError("no free port")

    def collect(self):
        for socks in (self.socks, self.senders):
            for peer, sock in enumerate(socks):
                while True:
                    try:
                        data, source = sock.recvfrom(4096)
                    except (BlockingIOError, ConnectionRefusedError):
                        break
                    self.got.append((peer, source[:2], data))

    async def settle(self, done=None):
        """Until done() is true (or nothing more can be expected), and a little longer."""
        until = time.monotonic() + 5
        while True:
            self.collect()
            if done is None or done() or time.monotonic() > until:
                break
            await asyncio.sleep(0.001)
        await asyncio.sleep(0.002)
        self.collect()

    async def started(self, index, kind, peer):
        if kind == "client":
            return
        self.own[index] = ("::1", self.ports[index])
        del peer

    def arrive(self, index, kind, peer, data):
        if kind == "client":
            self.socks[peer].sendto(data, self.own[index])
            return None
        sock = (self.senders + self.odd)[peer]
        sock.sendto(data, (self.address(9), self.ports[index]))
        return ("::ffff:" + self.address(peer % PEERS), sock.getsockname()[1])

    def stranger(self, index, peer, data):
        self.odd[peer].sendto(data, self.own[index])

    def target(self, peer):
        return ("::ffff:" + self.address(peer), self.senders[peer].getsockname()[1], 0, 0)

    async def refuse(self, index, peer, send):
        self.collect()
        address = self.socks[peer].getsockname()
        self.socks[peer].close()
        send()
        await asyncio.sleep(0.01)
        self.socks[peer] = self.bound(*address)
        del index

    def released(self, index, kind, port):
        if kind == "server":
            with socket.socket(socket.AF_INET6, socket.SOCK_DGRAM) as sock:
                try:
                    sock.bind(("::", port))
                except OSError as error:
                    raise Violation("the port is still taken after a stop: %s" % error) from error
        del index

    def source(self, index):
        return self.own[index]

    def close(self):
        for sock in self.socks + self.senders + self.odd:
            sock.close()


def open_sockets():
    count = 0
    for name in os.listdir("/proc/self/fd"):
        try:
            count += os.readlink("/proc/self/fd/" + name).startswith("socket:")
        except OSError:
            pass
    return count


def run(case, rec):
    if not case["real"]:
        vloop.run(lambda loop: history(case, rec, Virtual(loop)))
        rec.label("simulated")
        return
    before = open_sockets()
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        failures = []
        loop.set_exception_handler(lambda _loop, context: failures.append(context))
        net = Real(loop)
        try:
            loop.run_until_complete(asyncio.wait_for(history(case, rec, net), 300))
        finally:
            net.close()
        failures = [f for f in failures if "Fatal write error" not in f.get("message", "")]
        require(not failures, "failed in the background: %s", failures[:1])
    finally:
        for task in asyncio.all_tasks(loop):
            task.cancel()
        loop.run_until_complete(asyncio.sleep(0.001))
        loop.close()
        asyncio.set_event_loop(None)
    after = open_sockets()
    require(after <= before, "%d sockets are still open after everything was stopped", after - before)
    rec.label("real sockets")


async def history(case, rec, net):
    kinds = case["conns"]
    conns = [Connection() for _ in kinds]
    running = {}  # index -> peer (clients) or port (servers)
    got = [[] for _ in kinds]
    expected = [[] for _ in kinds]
    handler = [None] * len(kinds)
    out = []  # (peer, index, data) expected at the peers
    seen = set()

    def set_handler(index, number):
        handler[index] = number
        if not number:
            conns[index].onMessage(None)
        elif kinds[index] == "client":
            conns[index].onMessage(lambda pkt: got[index].append((number, bytes(pkt))))
        else:
            conns[index].onMessage(lambda pkt, address: got[index].append((number, bytes(pkt), tuple(address)[:2])))

    for index, number in enumerate(case["handlers"]):
        set_handler(index, number)

    async def settle():
        await net.settle(lambda: all(len(g) >= len(e) for g, e in zip(got, expected)) and len(net.got) >= len(out))
        for index, (mine, wanted) in enumerate(zip(got, expected)):
            if kinds[index] == "client":
                same(mine, wanted, "what the handler of connection %d (%s) got", index, kinds[index])
            else:
                # of each sender in order
                for address in {w[2] for w in mine + wanted}:
                    same([m for m in mine if m[2] == address], [w for w in wanted if w[2] == address], "what the handler of the listening connection %d got of %s", index, address)
        for peer in range(PEERS):
            for index in range(len(kinds)):
                there = [d for p, s, d in net.got if p == peer and s == sources.get(index)]
                wanted = [d for p, i, d in out if p == peer and i == index]
                if index in sources and kinds[index] == "client":
                    same(there, wanted, "what peer %d got of connection %d", peer, index)
        same(sorted((p, d) for p, _, d in net.got), sorted((p, d) for p, _, d in out), "what the peers got")
        net.got.clear()
        out.clear()

    sources = {}

    async def start(index, peer):
        if index in running:
            return
        if kinds[index] == "client":
            await conns[index].connect(net.address(peer), b"psk")
            running[index] = peer
            await net.started(index, "client", peer)
            if isinstance(net, Real):
                # the peer learns the address from the first datagram
                net.hello += 1
                data = b"hello %d" % net.hello
                require(conns[index].send(data) is True, "sending over a connection gave something else than True")
                rest = len(net.got)
                await net.settle(lambda: len(net.got) > rest)
                mine = [(p, s) for p, s, d in net.got if d == data]
                require(len(mine) == 1 and mine[0][0] == peer, "a datagram sent after connecting to peer %d arrived at %s", peer, mine)
                net.own[index] = mine[0][1]
                net.got[:] = [g for g in net.got if g[2] != data]
        else:
            port = net.port(index)
            await conns[index].listen(b"psk", port)
            running[index] = port
            await net.started(index, "server", None)
        sources[index] = net.source(index)
        rec.label("started " + kinds[index])

    async def stop(index, settled):
        conns[index].stop()
        port = running.pop(index, None)
        rec.label("stopped" if port is not None else "stopped before it was started")
        seen.add("stop")
        if settled:
            await settle()
            if port is not None:
                net.released(index, kinds[index], port)

    for op in case["ops"]:
        kind, index = op[0], op[1]
        conn, what = conns[index], kinds[index]
        if kind == "start":
            await start(index, op[2])
        elif kind == "restart":
            if index in running:
                await settle()
                await stop(index, False)
                sources.pop(index)
                await start(index, op[2])
        elif kind == "handler":
            await settle()
            set_handler(index, op[2])
            seen.add("handler")
        elif kind == "stop":
            await settle()
            await stop(index, op[2])
        elif kind == "send":
            for data in op[2]:
                data = bytes.fromhex(data)
                given = bytearray(data) if op[4] else data
                if what == "client":
                    result = conn.send(given)
                    if index in running:
                        require(result is True, "send() gave %r", result)
                        out.append((running[index], index, data))
                    elif index not in sources:
                        require(result is False, "send() before connecting gave %r", result)
                        rec.label("sent before connecting")
                elif index in running:
                    conn.sendTo(given, net.target(op[3]))
                    out.append((op[3], index, data))
                seen.add("out")
            await settle()
        elif kind == "arrive":
            if index in running:
                for data in op[2]:
                    data = bytes.fromhex(data)
                    peer = running[index] if what == "client" else op[3]
                    address = net.arrive(index, what, peer, data)
                    if handler[index]:
                        expected[index].append((handler[index], data) if what == "client" else (handler[index], data, tuple(address)[:2]))
                        seen.add("in")
                await settle()
        elif kind == "stranger":
            if index in running and what == "client":
                net.stranger(index, op[3], bytes.fromhex(op[2]))
                seen.add("stranger")
                await settle()
        elif kind == "refused":
            if index in running and what == "client":
                await settle()
                await net.refuse(index, running[index], lambda: conn.send(bytes.fromhex(op[2])))  # pylint: disable=cell-var-from-loop
                net.got.clear()
                seen.add("refused")
                rec.label("refused")
    await settle()
    # all that run still work
    for index in list(running):
        if kinds[index] == "client":
            require(conns[index].send(b"last") is True, "send() gave something else than True")
            out.append((running[index], index, b"last"))
            peer = running[index]
        else:
            peer = 0
        address = net.arrive(index, kinds[index], peer, b"last")
        if handler[index]:
            expected[index].append((handler[index], b"last") if kinds[index] == "client" else (handler[index], b"last", tuple(address)[:2]))
    await settle()
    for index in list(running):
        await stop(index, True)
    rec.nontrivial({"in", "out"} <= seen and bool(seen & {"stop", "handler", "refused", "stranger"}))
