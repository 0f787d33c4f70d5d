"""C32: start scripts: USB drive / file transfer mode, and selection of the firmware."""
import builtins
import os
import sys
import types
from itertools import product, chain, combinations
from mc import env
from mc.env import HW, Clock
from mc.explore import Sys, Violation, bfs, enumerate_cases
from checks import fw

BOUNDS = {"quick": "boot.py and code.py with all switch combinations; all three multi boot scripts: all sequences of boots with all combinations of pressed switches, power loss at every "
                   "file operation (also with a part of the data written), and read-only drive, until no new state is found",
          "thorough": "same (complete)"}
ASSUMPTIONS = ["a power loss leaves the file unchanged, empty, with a prefix of the new data, or complete"]


class PowerLoss(BaseException):
    pass


class File:
    def __init__(self, disk, path, mode):
        self.d, self.path, self.mode = disk, path, mode
        self.data = ""
        if "w" in mode:
            if disk.readonly:
                raise OSError(30, "Read-only filesystem")
            disk.point(lambda: None)
            disk.files[path] = ""
            disk.point(lambda: None)
        elif path not in disk.files:
            raise OSError(2, "No such file")

    def read(self, n=-1):
        return self.d.files[self.path]

    readline = read

    def write(self, s):
        self.data += s
        return len(s)

    def close(self):
        if "w" in self.mode and self.data is not None:
            s, self.data = self.data, None
            for i in range(1, len(s)):
                self.d.files[self.path] = s[:i]
                self.d.point(lambda: None)
            self.d.files[self.path] = s
            self.d.point(lambda: None)

    flush = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a[0] is not PowerLoss:
            self.close()


class Disk:
    def __init__(self):
        self.files = {}
        self.readonly = False
        self.left = None       # file operations until power loss

    def point(self, f):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise PowerLoss()


class Multi(Sys):
    """cfg: script, keys: pin -> firmware, default, remember"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.disk = Disk()
        self.allowed = {cfg["default"]}       # what may start without any switch
        self.last = None

    def roots(self):
        return (self.disk.files, self.allowed)

    def outcome(self):
        return (self.last, tuple(sorted(self.allowed)))

    def events(self):
        pins = sorted(self.cfg["keys"])
        r = []
        torn = "" in self.disk.files.values()
        for sub in chain.from_iterable(combinations(pins, k) for k in range(len(pins) + 1)):
            if torn and not sub:
                continue           # known finding: examined on its own (family "torn")
            r += [("boot", sub, c, ro) for c, ro in [(None, False), (None, True)] + ([(k, False) for k in range(4)] if self.cfg["remember"] else [])]
        return r

    def step(self, ev):
        _, pressed, crash, ro = ev
        HW.gpio.clear()
        self.disk.readonly = ro
        self.disk.left = crash
        started = []
        open_pins = []
        names = ("midicaptain", "midicaptain10s", "midigeek", "pyswitch", "pyswitch.process")

        class Finder(fw._Finder):
            def find_spec(s, name, path, target=None):
                if name in names:
                    return importlib_spec(name, s)

            def exec_module(s, m):
                if m.__name__ != "pyswitch":
                    started.append(m.__name__)
                    open_pins.extend(p for p, l in HW.gpio.items() for x in l if not getattr(x, "gone", False))
                else:
                    m.__path__ = []
        old = {n: sys.modules.pop(n, None) for n in names}
        oldtime = sys.modules["time"]
        oo = builtins.open
        dio = sys.modules["digitalio"].DigitalInOut
        init = dio.__init__

        def claim(o, port):
            init(o, port)
            o._value = port not in pressed
        fi = Finder({})
        code = fw.compiled(os.path.join(fw.ROOT, self.cfg["script"]))
        lost = False
        try:
            sys.modules["time"] = env.FAKE_TIME
            dio.__init__ = claim
            dio.deinit = lambda o: setattr(o, "gone", True)
            sys.meta_path.insert(0, fi)
            builtins.open = lambda path, mode="r", *a: File(self.disk, path, mode)
            try:
                exec(code, {"__name__": "__main__", "print": lambda *a: None})
            except PowerLoss:
                lost = True
        finally:
            builtins.open = oo
            sys.meta_path.remove(fi)
            dio.__init__ = init
            del dio.deinit
            sys.modules["time"] = oldtime
            for n, m in old.items():
                sys.modules.pop(n, None)
                if m is not None:
                    sys.modules[n] = m
        keys = self.cfg["keys"]
        sel = next((keys[p] for p in self.cfg["order"] if p in pressed), None)
        if lost:
            if started:
                raise Violation("%s: started %s without power" % (ev, started))
            # the selection may be lost, the former one too if the file was being written
            if sel:
                self.allowed = self.allowed | {sel, self.cfg["default"]}
            self.last = "lost"
            return
        if len(started) != 1:
            raise Violation("%s: started %s" % (ev, started))
        f = self.last = started[0]
        if open_pins:
            raise Violation("%s: pins %s are still in use when %s is started" % (ev, open_pins, f))
        if sel:
            if f != sel:
                raise Violation("%s: %s was selected, but %s started" % (ev, sel, f))
            if self.cfg["remember"]:
                self.allowed = {sel} if not ro else self.allowed
        elif f not in self.allowed:
            raise Violation("%s: %s started, expected %s" % (ev, f, sorted(self.allowed)))
        else:
            self.allowed = {f}


def importlib_spec(name, loader):
    import importlib.util
    return importlib.util.spec_from_loader(name, loader, is_package=name == "pyswitch")


class Boot(Sys):
    def __init__(self, cfg):
        pass

    def step(self, ev):
        pressed = ev[1]
        did = []
        HW.gpio.clear()
        st, su = types.ModuleType("storage"), types.ModuleType("supervisor")
        st.disable_usb_drive = lambda: did.append("no drive")

        def remount(path, readonly=False, **kw):
            if "no drive" not in did and not readonly:
                raise RuntimeError("Cannot remount '/' when visible via USB.")
            did.append(("remount", path, readonly))
        st.remount = remount
        su.disable_autoreload = lambda: did.append("no reload")
        dio = sys.modules["digitalio"].DigitalInOut
        init = dio.__init__
        old = {n: sys.modules.get(n) for n in ("storage", "supervisor", "time")}

        def claim(o, port):
            init(o, port)
            o._value = port not in pressed
        try:
            sys.modules.update(storage=st, supervisor=su, time=env.FAKE_TIME)
            dio.__init__ = claim
            exec(fw.compiled(os.path.join(fw.CONTENT, "boot.py")), {"__name__": "__main__"})
        finally:
            dio.__init__ = init
            for n, m in old.items():
                if m is None:
                    sys.modules.pop(n)
                else:
                    sys.modules[n] = m
        if did.count("no reload") != 1:
            raise Violation("%s: auto reload not disabled: %s" % (ev, did))
        want = ["no reload"] if "GP1" in pressed else ["no reload", "no drive", ("remount", "/", False)]
        if did != want and did != want[1:] + want[:1]:
            raise Violation("%s: %s, expected %s" % (ev, did, want))


MULTI = {
    "Standard Dual Boot": {"keys": {"GP25": "midicaptain"}, "order": ["GP25"], "remember": False},
    "Super and Geek": {"keys": {"GP25": "midicaptain10s", "GP24": "midigeek"}, "order": ["GP25", "GP24"], "remember": False},
    "Super and Geek (remember last)": {"keys": {"GP25": "pyswitch.process", "GP24": "midicaptain10s", "GP23": "midigeek"}, "order": ["GP25", "GP24", "GP23"], "remember": True},
}


def tasks(tier):
    r = []
    for n, c in MULTI.items():
        r.append((bfs, ("multi boot", Multi, dict(c, script="examples/Multiboot/%s/code.py" % n, default="pyswitch.process"), 8), {}))
    c = MULTI["Super and Geek (remember last)"]
    r.append((enumerate_cases, ("torn", Multi, dict(c, script="examples/Multiboot/Super and Geek (remember last)/code.py", default="pyswitch.process"),
                                [[("boot", (), None, False)]] + [[("boot", (p,), None, False), ("boot", (q,), k, False), ("boot", (), None, ro)]
                                                                 for p in c["order"] for q in c["order"] for k in range(5) for ro in (False, True)]), {}))
    r.append((bfs, ("code", Multi, {"keys": {}, "order": [], "remember": False, "script": "content/code.py", "default": "pyswitch.process"}, 3), {}))
    pins = ["GP%d" % i for i in range(30)]
    r.append((enumerate_cases, ("boot", Boot, {}, [[("boot", p)] for k in range(3) for p in combinations(pins, k)] + [[("boot", tuple(pins))]]), {}))
    return r
