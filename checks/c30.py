"""DTLS connections hand over each datagram intact, with the configured key."""
from lib import bootstrap  # noqa: F401  isort:skip
import asyncio
import collections
import ctypes
import socket
import ssl
import sys
import threading
import time
import types

from hypothesis import strategies as st

from lib.core import HarnessError, Violation, require, same
from lib.layout import edge_ints

PROPERTY = "C30"
RULE = """A case is a DTLS connection, connecting or listening, on a stand-in for the dtls package which runs the
handshake with the callbacks registered and then yields generated datagrams and errors to the receive thread, while the
event loop sends, changes the handler and stops at generated moments.  Key buffers are real memory with guard bytes.
Non-trivial: a datagram arrives, and the key, a burst, an error, a late handshake or a stop is out of the ordinary."""
ASSUMPTIONS = [
    "the dtls package and OpenSSL are a stand-in: the cryptography itself is not exercised",
    "datagrams are not empty and at most 1500 bytes; one datagram being received when stopped may still be delivered",
]
QUICK = 330
THOROUGH = 12000

DATA = st.one_of(
    st.binary(min_size=1, max_size=40), st.integers(1, 1500).map(lambda n: bytes(i * 7 % 251 for i in range(n))), st.just(b"\xff" * 1500)
).map(bytes.hex)
PEERS = [("192.168.0.5", 41230), ("::ffff:c0a8:5", 4123, 0, 0), ("fd00:bbbb::9", 50000, 0, 0)]


def strategy():
    packet = st.tuples(st.just("data"), st.lists(st.tuples(DATA, st.integers(0, 2)).map(list), min_size=1, max_size=5)).map(list)
    op = st.one_of(
        packet,
        packet,
        st.just(["hiccup"]),
        st.tuples(st.just("send"), DATA).map(list),
        st.tuples(st.just("handler"), st.integers(0, 2)).map(list),
    )
    return st.fixed_dictionaries(
        {
            "server": st.booleans(),
            "psk": st.one_of(st.binary(min_size=1, max_size=20), st.binary(min_size=16, max_size=16), edge_ints(1, 300).map(lambda n: bytes(i % 256 for i in range(n)))).map(bytes.hex),
            "room": st.one_of(st.just(256), st.just(256), edge_ints(0, 300)),
            "address": st.sampled_from(["192.168.0.169", "10.0.0.1", "::1"]),
            "late": st.sampled_from([False, False, True]),
            "early": st.lists(DATA, max_size=2),
            "ops": st.lists(op, max_size=8),
            "end": st.sampled_from(["ssl", "os", "stop", "stop", "stop early", "fail"]),
            "left": st.integers(2, 5),
        }
    )


CLIENT = ctypes.CFUNCTYPE(
    ctypes.c_uint, ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_char), ctypes.c_uint, ctypes.POINTER(ctypes.c_char), ctypes.c_uint
)
SERVER = ctypes.CFUNCTYPE(ctypes.c_uint, ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_char), ctypes.c_uint)
GUARD = 512


class FastLoop(asyncio.SelectorEventLoop):
    """Time runs a hundred times as fast"""

    SCALE = 100

    def __init__(self):
        super().__init__()
        select = self._selector.select
        self._selector.select = lambda timeout=None: select(timeout / self.SCALE if timeout and timeout > 0 else timeout)

    def time(self):
        return super().time() * self.SCALE


class World:
    """What the stand-in saw and what it is to do"""

    def __init__(self, case):
        self.case = case
        self.items = collections.deque()
        self.lock = threading.Condition()
        self.gate = threading.Event()
        self.shaking = threading.Event()
        self.blocked = False
        self.closing = False
        self.callbacks = {}
        self.sent = []
        self.keys = []
        self.connected = None
        self.bound = None
        self.wrong = []

    def feed(self, item):
        with self.lock:
            self.items.append(item)
            self.blocked = False
            self.lock.notify_all()

    def idle(self):
        with self.lock:
            return self.blocked and not self.items


class PlainSocket:
    """Stands in for socket.socket: nothing real is opened"""

    def __init__(self, family=socket.AF_INET, kind=socket.SOCK_STREAM, *_args, **_kwargs):
        self.family = family
        self.type = kind

    def __getattr__(self, name):
        return lambda *args, **kwargs: None


class SecureSocket:
    """Stands in for the connection of the dtls package"""

    def __init__(self, world, sock, server, **options):
        self.world = world
        self.sock = sock
        self.server = server
        self.options = options
        self.shaken = False
        self._connected = True
        self._sslobj = types.SimpleNamespace(_ssl=types.SimpleNamespace(value=4711))
        if sock.type != socket.SOCK_DGRAM:
            world.wrong.append("not a datagram socket")
        if options.get("ciphers") != "PSK":
            world.wrong.append("peers without the key are accepted: ciphers %r" % (options.get("ciphers"),))

    def __getattr__(self, name):
        return lambda *args, **kwargs: None

    def _resolve(self, address):
        # what the real bind and connect do with an address of another family
        return socket.getaddrinfo(address[0], address[1], self.sock.family, socket.SOCK_DGRAM, 0, socket.AI_NUMERICHOST)

    def connect(self, address):
        self.world.connected = address

    def bind(self, address):
        self._resolve(address)
        self.world.bound = address

    def do_handshake(self):
        if self.shaken:
            return
        world = self.world
        world.shaking.set()
        if not world.gate.wait(60):
            raise HarnessError("the gate stayed shut")
        if world.case["end"] == "fail":
            raise ssl.SSLError("handshake failed")
        room = world.case["room"]
        name = "SSL_set_psk_%s_callback" % ("server" if self.server else "client")
        callback = world.callbacks.get(name)
        if callback is None:
            world.wrong.append("the handshake ran without a key")
            raise ssl.SSLError("no key")
        identity = ctypes.create_string_buffer(b"\0" * 130, 130 + GUARD)
        identity[130:] = b"\xa5" * GUARD
        key = ctypes.create_string_buffer(b"\xa5" * (room + GUARD), room + GUARD)
        pointer = ctypes.POINTER(ctypes.c_char)
        address = ctypes.cast(callback, ctypes.c_void_p).value
        if self.server:
            length = SERVER(address)(None, b"Client_identity", ctypes.cast(key, pointer), room)
        else:
            length = CLIENT(address)(None, b"hint", ctypes.cast(identity, pointer), 128, ctypes.cast(key, pointer), room)
        written = max((i + 1 for i in range(room, room + GUARD) if key[i] != b"\xa5"), default=0)
        world.keys.append((length, key.raw[: min(length, room)], written))
        if identity.raw[128:] != b"\0\0" + b"\xa5" * GUARD:
            world.wrong.append("the identity was written beyond its buffer")
        self.shaken = True
        if length == 0:
            raise ssl.SSLError("no key given")

    def _receive(self, size):
        self.do_handshake()
        world = self.world
        with world.lock:
            while not world.items:
                if world.closing:
                    raise OSError("closed")
                world.blocked = True
                world.lock.wait(60)
            world.blocked = False
            item = world.items.popleft()
        if isinstance(item, Exception):
            raise item
        return item[0][:size], item[1]

    def recv(self, size=1024, *_args):
        return self._receive(size)[0]

    read = recv

    def recvfrom(self, size=1024, *_args):
        return self._receive(size)

    def send(self, data, *_args):
        self.world.sent.append(bytes(data))
        return len(data)

    sendall = write = send


class Patched:
    """Puts the stand-in in place of the dtls package, ssl.wrap_socket and socket.socket"""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        world = self.world
        import dtls  # pylint: disable=import-outside-toplevel

        from pyzwave import dtlsconnection  # pylint: disable=import-outside-toplevel

        def make(name, _lib, _params):
            setattr(dtls.openssl, name, lambda _value, callback: world.callbacks.__setitem__(name, callback))

        dtls.openssl = types.SimpleNamespace(libssl=object(), SSL=ctypes.c_void_p, _make_function=make)
        dtls.wrap_server = lambda sock, **kw: SecureSocket(world, sock, True, **kw)
        self.before = socket.socket, getattr(ssl, "wrap_socket", None), threading.excepthook
        ssl.wrap_socket = lambda sock, **kw: SecureSocket(world, sock, False, **kw)
        socket.socket = PlainSocket
        threading.excepthook = lambda args: None
        return dtlsconnection.DTLSConnection

    def __exit__(self, *_exc):
        socket.socket = self.before[0]
        if self.before[1] is None:
            del ssl.wrap_socket
        else:
            ssl.wrap_socket = self.before[1]
        threading.excepthook = self.before[2]


async def until(condition, what):
    """The other thread gets on; a minute is far more than it needs"""
    limit = time.monotonic() + 60
    spins = 0
    while not condition():
        spins += 1
        await asyncio.sleep(0 if spins < 20 else 0.0005)
        require(time.monotonic() < limit, "%s did not happen in a minute", what)


def run(case, rec):
    world = World(case)
    psk = bytes.fromhex(case["psk"])
    usable = len(psk) <= case["room"]
    stderr = sys.stderr
    loop = FastLoop() if case["end"] == "fail" else asyncio.SelectorEventLoop()
    asyncio.set_event_loop(loop)
    try:
        with Patched(world) as connection:
            try:
                loop.run_until_complete(scenario(case, rec, world, connection, psk, usable))
            finally:
                # whatever happened, the thread ends
                world.gate.set()
                world.closing = True
                world.feed(OSError("over"))
    finally:
        sys.stderr = stderr
        asyncio.set_event_loop(None)
        loop.close()


async def scenario(case, rec, world, factory, psk, usable):
    heard = []
    home = threading.get_ident()
    connection = factory()

    def handler(number):
        def called(*args):
            if threading.get_ident() != home:
                world.wrong.append("the handler was called outside of the event loop")
            heard.append((number,) + args)

        return called

    # (handler, data, peer) of what is to be delivered
    expected = []
    number = 0
    connection.onMessage(handler(0))
    for data in case["early"]:
        connection.send(bytes.fromhex(data))
        rec.label("send before connected")
    sent = []
    if case["end"] == "stop early" or not case["late"]:
        world.gate.set()
    if case["end"] == "stop early":
        world.gate.clear()

    end = case["end"]
    task = None
    if case["server"]:
        connection.listen(psk)
    else:
        task = asyncio.ensure_future(connection.connect(case["address"], psk))
    await until(lambda: world.shaking.is_set() or not connection.is_alive() and task is None, "the handshake")
    require(world.shaking.is_set(), "listening failed: %s", world.wrong or "the thread ended")
    if task is not None and not world.gate.is_set():
        for _ in range(20):
            await asyncio.sleep(0)
        require(not task.done(), "connect returned before the connection was there")
        rec.label("late handshake")
    if end == "stop early":
        connection.stop()
        for i in range(case["left"]):
            world.feed((b"late %d" % i, PEERS[0]))
        world.feed(OSError("over"))
    world.gate.set()

    if end == "fail" or not usable:
        # without a handshake there is no connection, and nothing is read
        if end != "fail" and task is not None:
            task.cancel()
        if task is not None:
            try:
                await asyncio.wait_for(task, 60)
            except (Exception, asyncio.CancelledError):  # pylint: disable=broad-except
                rec.label("no connection")
            else:
                raise Violation("connect returned without a connection")
        world.closing = True
        world.feed(OSError("over"))
        await until(lambda: not connection.is_alive(), "the end of the thread")
        check(case, world, psk, usable)
        same(heard, [], "messages without a connection")
        rec.nontrivial()
        rec.label("key too long" if not usable else "handshake failed")
        return

    if end == "stop early":
        if task is not None:
            task.cancel()
            await asyncio.wait([task], timeout=60)
        await until(lambda: not connection.is_alive(), "the end of the thread")
        await settle()
        require(len(heard) <= 1, "still delivering after having been stopped: %d datagrams", len(heard))
        check(case, world, psk, usable)
        rec.nontrivial()
        rec.label("stopped while connecting")
        return

    if task is not None:
        await until(task.done, "connecting")
        task.result()
    await until(lambda: world.idle() or not connection.is_alive(), "receiving")

    for op in case["ops"]:
        if op[0] == "data":
            for data, peer in op[1]:
                data = bytes.fromhex(data)
                world.feed((data, PEERS[peer]))
                expected.append((number, data) + ((PEERS[peer],) if case["server"] else ()))
            if len(op[1]) > 1:
                rec.label("burst")
        elif op[0] == "hiccup":
            world.feed(AttributeError("raced inside of the package"))
            rec.label("hiccup")
        elif op[0] == "send":
            sent.append(bytes.fromhex(op[1]))
            connection.send(sent[-1])
            same(world.sent[-len(sent) :], sent, "what was sent")
            rec.label("send")
        else:
            await until(lambda: world.idle() or not connection.is_alive(), "receiving")
            await settle()
            number = op[1]
            connection.onMessage(handler(number))
            rec.label("other handler")
        if op[0] in ("hiccup", "data"):
            rec.nontrivial()
        if len(heard) % 2:
            # now and then the loop gets to run
            await asyncio.sleep(0)

    await until(lambda: world.idle() or not connection.is_alive(), "receiving")
    require(connection.is_alive(), "the thread receiving datagrams ended")
    await settle()
    same(heard, expected, "datagrams delivered")
    if end == "stop":
        connection.stop()
        for i in range(case["left"]):
            world.feed((b"late %d" % i, PEERS[0]))
        world.feed(OSError("over"))
        rec.label("stop")
    else:
        world.feed(ssl.SSLError("alert") if end == "ssl" else OSError("gone"))
        rec.label("ends with an error")
    await until(lambda: not connection.is_alive(), "the end of the thread")
    await settle()
    require(heard[: len(expected)] == expected and len(heard) <= len(expected) + 1, "delivered after the end: %r", heard[len(expected) :][:3])
    same(world.sent[len(world.sent) - len(sent) :], sent, "what was sent")
    require(len(world.sent) <= len(sent) + len(case["early"]), "something was sent twice")
    check(case, world, psk, usable)


async def settle():
    for _ in range(5):
        await asyncio.sleep(0)


def check(case, world, psk, usable):
    require(not world.wrong, "%s", "; ".join(world.wrong))
    if case["server"]:
        require(world.bound is not None, "listening on no address")
    else:
        same(world.connected, (case["address"], 41230), "address connected to")
    if case["end"] == "fail":
        return
    for length, key, written in world.keys:
        require(not written, "a key of %d bytes was written beyond its buffer of %d bytes", len(psk), case["room"])
        if usable:
            same((length, key), (len(psk), psk), "key given")
        else:
            same(length, 0, "length of a key there is no room for")


def example(**changes):
    case = {"server": False, "psk": "31323334", "room": 256, "address": "10.0.0.1", "late": False, "early": [], "ops": [], "end": "stop", "left": 2}
    case.update(changes)
    return case


REGRESSIONS = [
    example(server=True, ops=[["data", [["0102", 1]]]]),
    example(psk="00" * 300),
    example(server=True, psk="00" * 300),
    example(server=True, end="stop early", left=4),
]
