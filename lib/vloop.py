"""A deterministic asyncio event loop: virtual time and a simulated UDP network.

Real asyncio machinery (tasks, futures, wait_for, call_later) runs unchanged on top of a selector
that never blocks: it jumps the virtual clock to the next timer or packet.  Datagrams that are due
at the same instant as a timer are handled before it, one datagram per socket and loop iteration,
as the real selector loop does.
"""
import asyncio
import heapq
import itertools
import socket

from lib.core import HarnessError, Violation

PORT = 4123
HOST = "fd00:aaaa::99"  # this host, as seen by the gateway


class _Selector:
    def __init__(self, loop):
        self._loop = loop

    def select(self, timeout):
        return self._loop._vselect(timeout)  # pylint: disable=protected-access

    def close(self):
        pass

    def get_map(self):
        return {}


def canonical(address):
    """The address as the operating system writes it."""
    try:
        return socket.inet_ntop(socket.AF_INET6, socket.inet_pton(socket.AF_INET6, address))
    except OSError:
        return address


class Transport(asyncio.DatagramTransport):
    """One simulated UDP socket."""

    def __init__(self, loop, protocol, remote=None, local=None):
        super().__init__()
        self.loop = loop
        self.protocol = protocol
        self.remote = remote
        self.local = local
        self.closed = False
        self.ident = len(loop.transports)
        loop.transports.append(self)

    def sendto(self, data, addr=None):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object, not %r" % type(data).__name__)
        if self.remote is not None and addr not in (None, self.remote):
            raise ValueError("Invalid address: must be None or %s" % (self.remote,))
        if self.closed:
            return
        target = self.remote if self.remote is not None else addr
        self.loop.on_sent(self, bytes(data), target)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.loop.call_soon(self.protocol.connection_lost, None)

    abort = close

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        own = self.local if self.remote is None else (HOST, 50000 + self.ident, 0, 0)
        return {"peername": self.remote, "sockname": own}.get(name, default)

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol


class VLoop(asyncio.BaseEventLoop):
    """Event loop on virtual time."""

    def __init__(self, max_iterations=400000):
        super().__init__()
        self._vnow = 1000.0
        self._selector = _Selector(self)
        self._clock_resolution = 2.0 ** -30
        self._packets = []
        self._counter = itertools.count()
        self._iterations = 0
        self._max_iterations = max_iterations
        self.transports = []
        self.failures = []  # contexts handed to the exception handler
        self.sent = []  # (time, transport, data, target)
        self.listener = None  # harness callback for sent datagrams
        self.connect_delay = 0.0
        self.batch = False  # whether what a socket received meanwhile arrives in one go (as with DTLS)
        self.unreachable = {}  # address: how many attempts to connect fail
        self.attempts = []  # (time, address, connected)
        self.tasks = []
        self.set_exception_handler(self._record_failure)
        self.set_task_factory(self._make_task)

    # -- asyncio plumbing -------------------------------------------------------------------
    def time(self):
        return self._vnow

    @property
    def now(self):
        """Virtual seconds since the loop was created."""
        return self._vnow - 1000.0

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        for handle in event_list:
            self._add_callback(handle)

    def _make_task(self, loop, coro, **kwargs):
        task = asyncio.Task(coro, loop=loop, **kwargs)
        self.tasks.append(task)
        return task

    def _record_failure(self, _loop, context):
        self.failures.append(context)

    def _vselect(self, timeout):
        self._iterations += 1
        if self._iterations > self._max_iterations:
            raise Violation("the event loop does not come to rest (more than %d iterations)" % self._max_iterations)
        if timeout is None or timeout > 0:
            target = None
            if self._packets:
                target = self._packets[0][0]
            if timeout is not None and self._scheduled:
                when = self._scheduled[0]._when  # pylint: disable=protected-access
                target = when if target is None else min(target, when)
            if target is None:
                raise Deadlock()
            self._vnow = max(self._vnow, target)
        events = []
        busy = set()
        later = []
        while self._packets and self._packets[0][0] <= self._vnow:
            entry = heapq.heappop(self._packets)
            transport = entry[2]
            if transport.ident in busy and not self.batch:
                later.append(entry)
                continue
            busy.add(transport.ident)
            events.append(asyncio.Handle(self._deliver, entry[2:], self, None))
        for entry in later:
            heapq.heappush(self._packets, entry)
        return events

    @staticmethod
    def _deliver(transport, data, addr):
        if not transport.closed:
            transport.protocol.datagram_received(data, addr)

    # -- simulated network ------------------------------------------------------------------
    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **_kwargs):
        await asyncio.sleep(self.connect_delay)
        if remote_addr:
            remote_addr = (canonical(remote_addr[0]), *remote_addr[1:])
        address = remote_addr[0] if remote_addr else None
        if self.unreachable.get(address, 0):
            self.unreachable[address] -= 1
            self.attempts.append((self.now, address, False))
            raise OSError(101, "Network is unreachable")
        self.attempts.append((self.now, address, True))
        protocol = protocol_factory()
        transport = Transport(self, protocol, remote=remote_addr, local=local_addr)
        waiter = self.create_future()
        self.call_soon(protocol.connection_made, transport)
        self.call_soon(waiter.set_result, None)
        await waiter
        return transport, protocol

    def on_sent(self, transport, data, target):
        self.sent.append((self.now, transport, data, target))
        if self.listener:
            self.listener(transport, data, target)

    def inject(self, delay, transport, data, addr):
        """Have data arrive on transport after delay seconds."""
        heapq.heappush(self._packets, (self._vnow + delay, next(self._counter), transport, data, addr))

    def sockets(self, remote=None, local=None):
        """Open sockets connected to a remote host or bound to a local port."""
        found = []
        for transport in self.transports:
            if transport.closed:
                continue
            if remote is not None and (transport.remote is None or transport.remote[0] != remote):
                continue
            if local is not None and (transport.local is None or transport.local[1] != local):
                continue
            found.append(transport)
        return found


class Deadlock(Exception):
    """Nothing left that could ever happen while something is still awaited."""


def run(main, max_iterations=400000, settle=0.0, allow_failures=False, allow_task=None):
    """Run main(loop) to completion; returns (result, loop).

    Anything that reached the loop's exception handler, and any background task that died of an
    exception nobody retrieved, is a violation unless allow_failures.
    """
    loop = VLoop(max_iterations)
    previous = asyncio.events._get_running_loop()  # pylint: disable=protected-access
    if previous is not None:
        raise HarnessError("nested loops")
    asyncio.set_event_loop(loop)
    try:
        try:
            task = loop.create_task(main(loop))
            loop.run_until_complete(task)
            result = task.result()
            if settle:
                loop.run_until_complete(asyncio.sleep(settle))
        except Deadlock:
            raise Violation("an operation never completes: nothing is left that could wake it up") from None
        except RuntimeError as error:
            if "Event loop stopped before Future completed" in str(error):
                raise HarnessError(str(error)) from error
            raise
        problems = problems_of(loop)
        if problems and not allow_failures:
            raise Violation("failed in the background: %s" % "; ".join(problems[:3]))
        return result, loop
    finally:
        _cleanup(loop)
        asyncio.set_event_loop(None)


def problems_of(loop):
    """Errors nobody handled so far."""
    problems = []
    for context in loop.failures:
        error = context.get("exception")
        problems.append("%s: %s" % (type(error).__name__ if error else "error", error or context.get("message")))
    for task in loop.tasks:
        if task.done() and not task.cancelled() and task._log_traceback:  # pylint: disable=protected-access
            error = task.exception()
            if error is not None:
                problems.append("task died of %s: %s" % (type(error).__name__, error))
    return problems


def _cleanup(loop):
    loop.failures = []
    pending = [t for t in loop.tasks if not t.done()]
    for task in pending:
        task.cancel()
    loop._packets = []  # pylint: disable=protected-access
    loop._iterations = 0  # pylint: disable=protected-access
    loop.listener = None
    if pending:
        try:
            loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True))
        except (Deadlock, Exception):  # pylint: disable=broad-except
            pass
    for task in loop.tasks:
        if task.done() and not task.cancelled():
            task.exception()
    loop.tasks = []
    loop._ready.clear()  # pylint: disable=protected-access
    loop._scheduled.clear()  # pylint: disable=protected-access
    loop.close()
