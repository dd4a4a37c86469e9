"""guard_main.py MODE DIR DRIVER ARGS...: run a driver while recording, for every outermost call into pySC, digests of what belongs to
the caller before and after the call (spec/Args.tla).  MODE args: the arrays, lists and dictionaries handed over now and in earlier
calls; MODE lattice: the design lattice and the user's lattice of every machine handed over; MODE machine: the machine handed over to a
call that only observes it."""
import functools
import hashlib
import importlib
import inspect
import json
import os
import pkgutil
import runpy
import sys
import threading
import weakref

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYSC_VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
import at  # noqa: E402
import numpy as np  # noqa: E402

from project import AT_OWN, elem_vars  # noqa: E402

MODE, OUT = sys.argv[1:3]
KEEP = 40
OBSERVE = {"beam.bpm_reading", "beam.all_elements_reading", "beam.beam_transmission", "beam.generate_bunches", "response_model.SCgetModelRM",
           "response_model.SCgetModelDispersion", "response_model.SCgetModelRING", "SC.get_cm_setpoints", "SC.support_offset_and_roll",
           "SC.verify_structure", "SC.very_deep_copy"}
local = threading.local()
held = []           # [number, name, object] of what earlier calls were given
count = [0, None, None]
users = weakref.WeakKeyDictionary()      # machine -> the lattice it was built from


def feed(v, h, depth=0):
    if isinstance(v, np.ndarray) and v.dtype != object:
        h.update(f"a{v.shape}{v.dtype.str}".encode())
        h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, np.ndarray):
        h.update(f"o{v.shape}".encode())
        for x in v.ravel().tolist():
            feed(x, h, depth + 1)
    elif isinstance(v, dict) and depth < 6:
        h.update(f"d{len(v)}".encode())
        for k, x in v.items():
            h.update(repr(k).encode())
            feed(x, h, depth + 1)
    elif isinstance(v, (list, tuple)) and type(v) in (list, tuple) and depth < 6:
        h.update(f"l{type(v).__name__}{len(v)}".encode())
        for x in v:
            feed(x, h, depth + 1)
    elif v is None or isinstance(v, (bool, int, float, complex, str, np.generic)):
        h.update(f"s{type(v).__name__}{v!r}".encode())
    elif isinstance(v, at.Lattice):
        h.update(f"r{len(v)}{v.energy!r}{v.periodicity!r}".encode())
        for el in v:
            h.update(type(el).__name__.encode())
            for k, x in sorted(elem_vars(el).items()):
                if k not in AT_OWN:
                    h.update(k.encode())
                    feed(x, h, depth + 1)
    else:
        h.update(f"x{type(v).__name__}".encode())


def digest(v):
    h = hashlib.sha1()
    feed(v, h)
    return int(h.hexdigest()[:7], 16)


def parts(name, v, depth=0):
    """the mutable things within an argument"""
    if isinstance(v, np.ndarray) or type(v) in (list,) or isinstance(v, dict) and depth == 0:
        yield name, v
    if type(v) in (list, tuple) and depth < 3 and len(v) <= 20:
        for k, x in enumerate(v):
            yield from parts(f"{name}[{k}]", x, depth + 1)


def owned(args):
    """identities of the arrays that the machines among the arguments already own"""
    ids = set()
    for sc in args:
        for part in ("ORD", "INJ", "SIG"):
            d = getattr(sc, part, None)
            stack = list(d.values()) if isinstance(d, dict) else []
            while stack:
                v = stack.pop()
                ids.add(id(v))
                if isinstance(v, dict):
                    stack.extend(v.values())
                elif isinstance(v, list):
                    stack.extend(x for x in v if isinstance(x, np.ndarray))
    return ids


def log(rec):
    if count[1] != os.getpid():     # a forked worker: a file of its own
        count[1], count[2] = os.getpid(), open(os.path.join(OUT, f"{os.getpid()}.jsonl"), "a")
    count[2].write(json.dumps(rec) + "\n")
    count[2].flush()


def wrap(f, name):
    sig = inspect.signature(f)

    @functools.wraps(f)
    def g(*args, **kwargs):
        if getattr(local, "depth", 0):
            return f(*args, **kwargs)
        names = list(sig.parameters)
        given = [(names[min(k, len(names) - 1)], a) for k, a in enumerate(args)] + list(kwargs.items())
        objs = [x for n, a in given for x in parts(n, a)] if MODE == "args" else []
        mine = owned([a for _, a in given])
        known = {id(o) for _, _, o in held}
        watch = [[k, n, o] for k, n, o in held]
        new = []
        for n, o in objs:
            if id(o) in known:
                watch.append([0, f"{name}.{n}", o])
            else:
                count[0] += 1
                new.append([count[0], f"{name}.{n}", o])
                known.add(id(o))
        watch += new
        if MODE == "lattice":
            for sc in [a for _, a in given if type(a).__name__ == "SimulatedCommissioning"]:
                watch.append([0, "design", sc.IDEALRING])
                if sc in users:
                    watch.append([0, "user", users[sc]])
        if MODE == "machine" and name in OBSERVE:
            for sc in [a for _, a in given if type(a).__name__ == "SimulatedCommissioning"]:
                watch += [[0, part, sc.__dict__[part]] for part in sorted(sc.__dict__)]
        before = [digest(o) for _, _, o in watch]
        exc = ""
        local.depth = 1
        try:
            return f(*args, **kwargs)
        except BaseException as ex:
            exc = type(ex).__name__
            raise
        finally:
            local.depth = 0
            if watch:
                log(dict(op="call", f=name, exc=exc, arg=[n for _, n, _ in watch], b=before, a=[digest(o) for _, _, o in watch]))
            held.extend(x for x in new if id(x[2]) not in mine)
            del held[:-KEEP]
    return g


def born(init):
    @functools.wraps(init)
    def g(self, ring, *args, **kwargs):
        b = digest(ring) if MODE == "lattice" and isinstance(ring, at.Lattice) else None
        init(self, ring, *args, **kwargs)
        if b is not None:
            users[self] = ring
            log(dict(op="call", f="SimulatedCommissioning", exc="", arg=["user"], b=[b], a=[digest(ring)]))
    return g


def install():
    import pySC
    for info in pkgutil.walk_packages(pySC.__path__, "pySC."):
        if ".plotting" in info.name:
            continue
        try:
            importlib.import_module(info.name)
        except Exception:  # noqa: modules that need something this sandbox does not have
            continue
    made = {}
    mods = [m for n, m in list(sys.modules.items()) if n.startswith("pySC.") and m is not None]
    for m in mods:
        for n, f in list(vars(m).items()):
            if inspect.isfunction(f) and f.__module__ == m.__name__ and not n.startswith("_"):
                made[f] = wrap(f, f"{m.__name__.split('.')[-1]}.{n}")
            elif inspect.isclass(f) and f.__module__ == m.__name__ and f.__name__ == "SimulatedCommissioning":
                for k, h in list(vars(f).items()):
                    if k == "__init__":
                        setattr(f, k, born(h))
                    elif inspect.isfunction(h) and not k.startswith("_"):
                        setattr(f, k, wrap(h, f"SC.{k}"))
    for m in mods:          # names imported from one module into another as well
        for n, f in list(vars(m).items()):
            if inspect.isfunction(f) and f in made:
                setattr(m, n, made[f])


if __name__ == "__main__":
    script = os.path.join(os.path.dirname(os.path.abspath(__file__)), sys.argv[3])
    sys.argv = [script] + sys.argv[4:]
    install()
    runpy.run_path(script, run_name="__main__")
