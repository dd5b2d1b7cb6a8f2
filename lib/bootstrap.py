"""Interpreter set-up shared by every check: import paths, no files left behind, dtls stand-in."""
import logging
import os
import sys
import tempfile
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

# Never read or write byte code next to the sources: what runs is what is in the working tree.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-no-pycache-%d" % os.getpid())

sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
# Hypothesis (and atheris) live in the tooling venv; appended last so that the project's own
# dependencies (PyYAML, crcmod) come from the project's venv.
if VT_SITE not in sys.path:
    sys.path.append(VT_SITE)

# The same stand-in as tests/conftest.py: the real dtls needs an OpenSSL that is not there.
_dtls = types.ModuleType("dtls")
_dtls.do_patch = lambda: None
sys.modules.setdefault("dtls", _dtls)

logging.disable(logging.CRITICAL)
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif-hyp-%d" % os.getpid()))

import pyzwave  # noqa: E402

_root = os.path.dirname(os.path.abspath(pyzwave.__file__))
if _root != os.path.join(REPO, "pyzwave"):
    sys.stderr.write("harness error: pyzwave imported from %s\n" % _root)
    sys.exit(2)

import pyzwave.commandclass  # noqa: E402,F401  pylint: disable=wrong-import-position
