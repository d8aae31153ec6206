"""The code under test in another configuration: a helper process in which optional
libraries are hidden, answering one JSON request per line."""
import json
import os
import subprocess
import sys

from . import boot

_servers = {}


class Refused(Exception):
    """The call raised in the other configuration: .kind is the exception's type name."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind


def call(block, fn, *args, **kwargs):
    """Evaluate ``fn`` (see alt_server.py) in a process without the libraries ``block``."""
    key = (os.getpid(), tuple(block))
    p = _servers.get(key)
    if p is None or p.poll() is not None:
        p = subprocess.Popen(
            [sys.executable, os.path.join(os.path.dirname(__file__), "alt_server.py"), *block],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env={**os.environ, "PYTHONHASHSEED": "4242"},
        )
        _servers[key] = p
    try:
        p.stdin.write(json.dumps({"fn": fn, "args": args, "kwargs": kwargs}) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BaseException:  # it does not answer, or not to this question
        p.kill()
        del _servers[key]
        raise
    if not line:
        raise Refused("ImportError", f"the process without {', '.join(block)} ended")
    r = json.loads(line)
    if "err" in r:
        raise Refused(*r["err"])
    return r["ok"]
