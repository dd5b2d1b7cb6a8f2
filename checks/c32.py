"""A save that is cut off loses nothing that was stored before."""
from lib import bootstrap  # noqa: F401  isort:skip
import io
import os
import pathlib
import re
import resource
import shutil
import signal
import sys
import tempfile

from hypothesis import strategies as st

from lib import states
from lib.core import observing, require
from lib.layout import edge_ints
from lib.states import AGI, ASSOCIATION, BASIC, BATTERY, CONFIGURATION, MULTI_CHANNEL, SENSOR
from pyzwave.node import Node, NodeEndPoint
from pyzwave.persistantstorage import YamlStorage

PROPERTY = "C32"
RULE = """A case is one to three nodes with settings, and a history of saves on one storage directory.  Each save is done
in a forked process that is cut off: while it runs, the directory is looked at after every line, call and return of
Python and each different content it ever has is kept as a possible state after a crash; or the disk becomes full after a
generated number of bytes; or the process is killed at a generated event.  From each of these states a new storage
restores every node: the saved one to what was stored before or to what was being saved, entirely, the others to what they
had; and a further save works.  Non-trivial: a save that was cut off over settings stored before, with other content."""
ASSUMPTIONS = [
    "the process ends, the computer does not: what was handed to the operating system stays",
    "one process uses the directory at a time",
]
QUICK = 60
THOROUGH = 2500

CLASSES = states.STATEFUL + [BASIC, BATTERY, MULTI_CHANNEL]
DONE, REFUSED, BROKEN = 0, 7, 9
KEYS = ["2", "2:1", "2:2", "3", "21", "21:1", "232"]


def settings(draw, classes, big=True):
    """What a node knows; big enough for more than one buffer every now and then."""
    out = {}
    for cmdClass in classes:
        out[str(cmdClass)] = draw(states.contents(cmdClass))
        if cmdClass in (CONFIGURATION, SENSOR, ASSOCIATION) and big and draw(st.integers(0, 5)) == 0:
            size = draw(st.sampled_from([40, 100, 200]))
            first = draw(st.integers(0, 15))
            item = {CONFIGURATION: [first, 2], SENSOR: first, ASSOCIATION: [first, [[2, 1], [3, None]]]}[cmdClass]
            out[str(cmdClass)]["content"] = {str(k): item for k in range(1, size + 1)}
        if cmdClass == AGI and big and draw(st.integers(0, 5)) == 0:
            out[str(cmdClass)]["content"] = {str(k): {"profile": k, "name": "group %d" % k} for k in range(1, draw(st.sampled_from([30, 120])))}
    return out


@st.composite
def strategy_(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
    nodes = {}
    for key in keys:
        classes = draw(st.lists(st.sampled_from(CLASSES), min_size=1, max_size=4, unique=True))
        nodes[key] = {"classes": classes, "stored": settings(draw, classes) if draw(st.integers(0, 5)) else None}
    saves = []
    for _ in range(draw(st.integers(1, 3))):
        key = draw(st.sampled_from(keys))
        save = {"node": key, "settings": settings(draw, nodes[key]["classes"])}
        kind = draw(st.sampled_from(["watched", "watched", "full", "killed"]))
        save["how"] = kind
        if kind == "full":
            save["at"] = draw(st.one_of(edge_ints(0, 400), st.integers(0, 20000)))
        elif kind == "killed":
            save["at"] = draw(st.one_of(edge_ints(0, 60), st.integers(0, 20000), st.integers(-200, -1)))
        saves.append(save)
    further = {key: settings(draw, what["classes"], big=False) for key, what in nodes.items()}
    return {"nodes": nodes, "saves": saves, "further": further, "path": draw(st.sampled_from(["str", "pathlib"]))}


def strategy():
    return strategy_()


def make_node(key, classes):
    nodeId, _, endpoint = key.partition(":")
    root = Node(int(nodeId), None, [] if endpoint else classes)
    return NodeEndPoint(root, int(endpoint), None, classes) if endpoint else root


def filled(key, classes, what):
    node = make_node(key, classes)
    for cmdClass in classes:
        node.supported[cmdClass].__setstate__(states.state_of(cmdClass, what[str(cmdClass)]))
    return node


def view(node):
    out = {}
    for cmdClass, obj in node.supported.items():
        states.check_types(cmdClass, obj, "%s of %s" % (obj.name, node.nodeId))
        out[int(cmdClass)] = [int(obj.version), bool(obj.interviewed), states.read(int(cmdClass), obj)]
    return out


def storage_at(path, case):
    return YamlStorage(path if case["path"] == "pathlib" else str(path))


def restored(path, case, key):
    node = make_node(key, case["nodes"][key]["classes"])
    storage_at(path, case).nodeAdded(None, node)
    return view(node)


def signature(top):
    """Changes whenever the content of the directory does."""
    out = []
    stack = [top]
    while stack:
        where = stack.pop()
        with os.scandir(where) as entries:
            for entry in entries:
                if entry.is_dir(follow_symlinks=False):
                    out.append(entry.path)
                    stack.append(entry.path)
                else:
                    stat = entry.stat(follow_symlinks=False)
                    out.append((entry.path, stat.st_ino, stat.st_size, stat.st_mtime_ns))
    return out


def in_child(job):
    """Run job() in a forked process; what it ended with: its exit code, or minus the signal."""
    pid = os.fork()
    if pid == 0:
        code = BROKEN
        try:
            code = job()
        finally:
            os._exit(code)  # pylint: disable=protected-access
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


# what cannot touch a file: there are a hundred thousand of these in a save
HARMLESS = {isinstance, issubclass, len, id, ord, chr, repr, sorted, iter, next, callable, min, max, hash, abs}
PLAIN = (str, bytes, bytearray, list, dict, tuple, set, frozenset, int, float, re.Pattern, re.Match, io.StringIO, io.BytesIO)


def events(callback, everything=True):
    """Call callback at every call and return of a function, of Python or C, from now on, or only where files may change."""

    def profile(frame, event, arg):
        if not everything:
            if event in ("call", "return"):
                if frame.f_globals.get("__name__", "").startswith("yaml."):
                    return
            elif type(getattr(arg, "__self__", None)) in PLAIN:
                return
            else:
                try:
                    if arg in HARMLESS:
                        return
                except TypeError:
                    pass
        callback()

    sys.setprofile(profile)


def watch(top, keep, save):
    """Save, keeping a copy of each content the directory has on the way under keep/<number>."""
    state = {"last": signature(top), "number": 0, "busy": False}

    def callback():
        if state["busy"]:
            return
        state["busy"] = True
        now = signature(top)
        if now != state["last"]:
            state["last"] = now
            if state["number"] < 60:
                shutil.copytree(top, os.path.join(keep, str(state["number"])))
            state["number"] += 1
        state["busy"] = False

    def job():
        events(callback, everything=False)
        save()
        sys.setprofile(None)
        return DONE

    return in_child(job)


def count_events(save):
    """How many events a save has."""
    count = [0]
    reader, writer = os.pipe()

    def callback():
        count[0] += 1

    def job():
        events(callback)
        save()
        sys.setprofile(None)
        os.write(writer, b"%d" % count[0])
        return DONE

    ended = in_child(job)
    os.close(writer)
    with os.fdopen(reader) as fd:
        return ended, int(fd.read() or 0)


def kill_at(number, save):
    """Save, and kill the process at the numbered event."""
    left = [number]

    def callback():
        left[0] -= 1
        if left[0] < 0:
            os.kill(os.getpid(), signal.SIGKILL)

    def job():
        events(callback)
        save()
        sys.setprofile(None)
        return DONE

    return in_child(job)


def full_at(size, save):
    """Save while no file can become larger than size."""

    def job():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
        try:
            save()
        except OSError:
            return REFUSED
        return DONE

    return in_child(job)


def run(case, rec):
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="verif-c32-"))
    try:
        history(case, rec, scratch)
    finally:
        shutil.rmtree(scratch)


def history(case, rec, scratch):
    home = scratch / "home"
    home.mkdir()
    nodes = case["nodes"]
    empty = {key: view(make_node(key, what["classes"])) for key, what in nodes.items()}
    stored = {}
    for key, what in nodes.items():
        if what["stored"] is None:
            stored[key] = empty[key]
            continue
        node = filled(key, what["classes"], what["stored"])
        storage_at(home / "settings", case).nodeUpdated(node)
        stored[key] = view(node)

    def inspect(top, saving, new, when, finished):
        """What a later application finds in one possible state of the directory; what it restores for the node saved."""
        found = None
        for key in nodes:
            with observing("restoring %s after %s" % (key, when)):
                now = restored(top / "settings", case, key)
            if key != saving:
                require(now == stored[key], "%s is restored as %r after %s of %s, stored was %r", key, now, when, saving, stored[key])
                continue
            found = now
            if finished:
                require(now == new, "%s is restored as %r after %s, saved was %r", key, now, when, new)
            else:
                require(now in (stored[key], new), "%s is restored as %r after %s, stored was %r and being saved was %r", key, now, when, stored[key], new)
        return found

    def further(top, saving, when):
        """The next application can save and restore."""
        for key in nodes if top == home else [saving]:
            again = filled(key, nodes[key]["classes"], case["further"][key])
            with observing("saving %s again after %s" % (key, when)):
                storage_at(top / "settings", case).nodeUpdated(again)
                now = restored(top / "settings", case, key)
            require(now == view(again), "%s is restored as %r when it was saved again after %s, saved was %r", key, now, when, view(again))

    for index, what in enumerate(case["saves"]):
        key = what["node"]
        node = filled(key, nodes[key]["classes"], what["settings"])
        new = view(node)
        keep = scratch / ("keep%d" % index)
        keep.mkdir()

        def saving(top):
            storage = storage_at(top / "settings", case)  # pylint: disable=cell-var-from-loop
            return lambda: storage.nodeUpdated(node)  # pylint: disable=cell-var-from-loop

        if what["how"] == "watched":
            when = "a save cut off"
            ended = watch(str(home), str(keep), saving(home))
            require(ended == DONE, "saving %s failed", key)
            kept = sorted(keep.iterdir(), key=lambda p: int(p.name))
            for top in kept:
                inspect(top, key, new, when, False)
                further(top, key, when)
            rec.label("possible states", len(kept))
            rec.nontrivial(new != stored[key] and stored[key] != empty[key] and bool(kept))
            stored[key] = inspect(home, key, new, "a save", True)
        elif what["how"] == "full":
            ended = full_at(what["at"], saving(home))
            require(ended in (DONE, REFUSED), "saving %s with a full disk failed", key)
            rec.label("disk full" if ended == REFUSED else "disk big enough")
            rec.nontrivial(new != stored[key] and stored[key] != empty[key] and ended == REFUSED)
            stored[key] = inspect(home, key, new, "a save with a full disk", ended == DONE)
        else:
            trial = keep / "trial"
            shutil.copytree(home, trial)
            ended, total = count_events(saving(trial))
            require(ended == DONE and total > 0, "saving %s failed", key)
            number = what["at"] if what["at"] >= 0 else total + what["at"]
            ended = kill_at(max(0, min(number, total - 1)), saving(home))
            rec.label("killed" if ended < 0 else "not killed")
            rec.nontrivial(new != stored[key] and stored[key] != empty[key] and ended < 0)
            stored[key] = inspect(home, key, new, "a save cut off by a kill", ended == DONE)
        shutil.rmtree(keep)
    further(home, None, "all saves")
