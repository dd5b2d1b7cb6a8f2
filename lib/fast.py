"""A fast source of cases: draws from the same Hypothesis strategies, without its bookkeeping.

Hypothesis spends far more time on generating a small case than the library needs to handle it. Its
strategies only ask an object `data` for integers, booleans, bytes and strings; here that object is a
plain pseudo random source that leans towards edges and repetitions and notes what it answered. A case
that fails is handed to Hypothesis as the list of those answers, for shrinking.

Whatever this module does not know about is not an error: the stage ends, and Hypothesis alone
generates (see runner.py).
"""
import contextlib
import math
import random

from hypothesis.control import _current_build_context
from hypothesis.errors import UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData
from hypothesis.strategies._internal.lazy import unwrap_strategies
from hypothesis.strategies._internal.strategies import MappedStrategy


class Reject(Exception):
    """This attempt gave no case."""


class _Context:
    """What strategies want of the surroundings; nothing is kept."""

    class data:  # pylint: disable=invalid-name
        class provider:  # pylint: disable=invalid-name
            avoid_realization = False

        depth = 1

    class _Sink(dict):
        def __missing__(self, _key):
            return []

    known_object_printers = _Sink()

    def record_call(self, *_args, **_kwargs):
        pass


_unwrapped = {}


def _plain(strategy):
    found = _unwrapped.get(id(strategy))
    if found is None or found[0] is not strategy:
        found = (strategy, unwrap_strategies(strategy))
        if len(_unwrapped) > 20000:
            _unwrapped.clear()
        _unwrapped[id(strategy)] = found
    return found[1]


class FastData:
    """Answers strategies as ConjectureData does."""

    max_choices = 6000

    def __init__(self, rng):
        self.rng = rng
        self.choices = []
        self.depth = 0
        self.frozen = False
        self.unique_element_depth = 0
        self.simplest_index = 0
        self.events = {}
        self.hypothesis_runner = None
        self._last_rejected_filter = None
        self._shared_strategy_draws = {}
        mode = rng.random()
        # how often an integer is an edge of its range, how often one that was drawn before,
        # and how the odds of going on with a list are bent
        self.edge = (0.05, 0.2, 0.5)[rng.randrange(3)]
        self.repeat = 0.35 if mode < 0.25 else 0.02
        self.bend = (1.0, 1.0, 1.0, 0.5, 1.6)[rng.randrange(5)]
        self.seen = {}

    # ------------------------------------------------------------- structure
    def draw(self, strategy, label=None, observe_as=None):  # pylint: disable=unused-argument
        plain = _plain(strategy)
        if type(plain) is MappedStrategy:  # pylint: disable=unidiomatic-typecheck
            for _ in range(3):
                try:
                    return plain.pack(self.draw(plain.mapped_strategy))
                except UnsatisfiedAssumption:
                    continue
            raise Reject()
        self.depth += 1
        if self.depth > 90:
            raise Reject()
        try:
            return plain.do_draw(self)
        finally:
            self.depth -= 1

    def start_span(self, label):  # pylint: disable=unused-argument
        self.depth += 1

    def stop_span(self, *, discard=False):  # pylint: disable=unused-argument
        self.depth -= 1

    @contextlib.contextmanager
    def _nothing(self):
        yield {}

    def track_arg_label(self, label):  # pylint: disable=unused-argument
        return _NOTHING

    def mark_invalid(self, *_args, **_kwargs):
        raise Reject()

    def mark_overrun(self):
        raise Reject()

    def last_rejected_filter_location(self, *_args):
        return None

    # --------------------------------------------------------------- choices
    def _note(self, value, observe):
        if observe:
            if len(self.choices) >= self.max_choices:
                raise Reject()
            self.choices.append(value)
        return value

    def choice(self, values, *, forced=None, observe=True):
        raise Reject()

    def draw_boolean(self, p=0.5, *, forced=None, observe=True):
        if forced is not None:
            return self._note(forced, observe)
        if p <= 0:
            return self._note(False, observe)
        if p >= 1:
            return self._note(True, observe)
        if p != 0.5 and self.bend != 1.0:
            p = 1 - (1 - p) ** self.bend if self.bend > 1 else p * 0.75
        return self._note(self.rng.random() < p, observe)

    def draw_integer(
        self, min_value=None, max_value=None, *, weights=None, shrink_towards=0, forced=None, observe=True
    ):
        if forced is not None:
            return self._note(forced, observe)
        rng = self.rng
        if weights is not None:
            x = rng.random()
            for value, weight in weights.items():
                x -= weight
                if x < 0:
                    return self._note(value, observe)
        if min_value is None or max_value is None:
            base = rng.choice((1, 8, 100, 1000, 1 << 16, 1 << 32, 1 << 64))
            if min_value is not None:
                value = min_value + rng.randrange(base)
            elif max_value is not None:
                value = max_value - rng.randrange(base)
            else:
                value = rng.randint(-base, base)
            return self._note(value, observe)
        span = max_value - min_value
        if span > 3:
            key = (min_value, max_value)
            seen = self.seen.get(key)
            if seen is None:
                seen = self.seen[key] = []
            roll = rng.random()
            if seen and roll < self.repeat:
                value = seen[rng.randrange(len(seen))]
            elif span > 15 and rng.random() < self.edge:
                value = self._edge(min_value, max_value, rng)
            else:
                value = min_value + int(rng.random() * (span + 1)) if span < 1 << 50 else rng.randint(min_value, max_value)
            seen.append(value)
        else:
            value = min_value + int(rng.random() * (span + 1))
        return self._note(value, observe)

    @staticmethod
    def _edge(low, high, rng):
        roll = rng.randrange(6)
        if roll == 0:
            return low
        if roll == 1:
            return high
        if roll == 2:
            return low + rng.randrange(min(4, high - low))
        if roll == 3:
            return high - rng.randrange(min(4, high - low))
        # around a power of two
        top = max(abs(low), abs(high)).bit_length()
        value = (1 << rng.randrange(top + 1)) + rng.choice((-1, 0, 0, 1))
        if low < 0 and rng.random() < 0.5:
            value = -value
        return min(max(value, low), high)

    def draw_float(self, min_value=-math.inf, max_value=math.inf, **kwargs):
        raise Reject()

    def _size(self, min_size, max_size):
        rng = self.rng
        top = min(max_size, min_size + 40)
        if top == min_size:
            return min_size
        roll = rng.random()
        if roll < 0.1:
            return min_size
        if roll < 0.15 and max_size < 2000:
            return max_size
        return min(min_size + int(rng.expovariate(0.2)), top)

    def draw_bytes(self, min_size=0, max_size=1 << 62, *, forced=None, observe=True):
        if forced is not None:
            return self._note(forced, observe)
        size = self._size(min_size, max_size)
        rng = self.rng
        if rng.random() < 0.8:
            value = rng.randbytes(size)
        else:
            some = rng.choice((b"\0\1\2\3", b"\0\x7f\x80\xff", b"\0", b"\xff", b"\1\2\3\4\5\6\7\x08"))
            value = bytes(some[rng.randrange(len(some))] for _ in range(size))
        return self._note(value, observe)

    def draw_string(self, intervals, *, min_size=0, max_size=1 << 62, forced=None, observe=True):
        if forced is not None:
            return self._note(forced, observe)
        size = self._size(min_size, max_size) if len(intervals) else 0
        rng = self.rng
        small = min(len(intervals), 128)
        mode = rng.random()
        value = "".join(
            intervals.char_in_shrink_order(
                rng.randrange(small) if rng.random() < 0.7 or mode < 0.5 else rng.randrange(len(intervals))
            )
            for _ in range(size)
        )
        return self._note(value, observe)


class _Nothing:
    def __enter__(self):
        return {}

    def __exit__(self, *_exc):
        return False


_NOTHING = _Nothing()


def cases(strategy, seed):
    """Yields (case, choices), for ever."""
    rng = random.Random(seed)
    context = _Context()
    rejected = 0
    while True:
        data = FastData(rng)
        try:
            with _current_build_context.with_value(context):
                case = data.draw(strategy)
        except (Reject, UnsatisfiedAssumption):
            rejected += 1
            if rejected > 2000:
                return
            continue
        rejected = 0
        yield case, data.choices


def same_case(strategy, choices, case):
    """Whether Hypothesis makes the same case of these choices."""
    data = ConjectureData.for_choices(choices)
    try:
        with _current_build_context.with_value(_Context()):
            return data.draw(strategy) == case
    except BaseException:  # pylint: disable=broad-except
        return False
