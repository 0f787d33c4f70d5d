"""Boots the complete firmware: the real process.py with the shipped configuration files, on simulated hardware."""
import os
import sys
import types
import importlib.abc
import importlib.util
from mc import env, rig
from mc.env import Clock, HW

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(env.PKG)))
CONTENT = os.path.join(ROOT, "content")
NAMES = ("config", "communication", "display", "inputs")
_code = {}


def compiled(path):
    if path not in _code:
        with open(path, encoding="utf-8") as f:
            _code[path] = compile(f.read(), path, "exec")
    return _code[path]


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, files):
        self.files = files

    def find_spec(self, name, path, target=None):
        if name in self.files:
            return importlib.util.spec_from_loader(name, self, origin=self.files[name])

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        exec(compiled(self.files[m.__name__]), m.__dict__)


class Bridge:
    """Stands for the PyMidiBridge library (binary, not part of the tree): passes everything through."""
    made = []

    def __init__(self, midi, temp_file_path):
        self.midi = midi
        self.path = temp_file_path
        self.failed = None
        Bridge.made.append(self)

    def receive(self):
        return self.midi.receive()

    def send(self, m):
        return self.midi.send(m)

    def error(self, e):
        self.failed = e


def config_files(folder):
    """Files of one shipped folder, completed by the default ones."""
    r = {}
    for n in NAMES:
        p = os.path.join(ROOT, folder, n + ".py")
        r[n] = p if os.path.exists(p) else os.path.join(CONTENT, n + ".py")
    return r


def folders():
    """All shipped folders which contain inputs."""
    r = []
    for top in ("content", "examples", "web/htdocs/templates"):
        for d, dirs, files in sorted(os.walk(os.path.join(ROOT, top))):
            dirs.sort()
            if "inputs.py" in files and os.sep + "lib" not in d:
                r.append(os.path.relpath(d, ROOT))
    return r


class Fw:
    """One booted device."""

    def __init__(self, folder="content", files=None, config=None, explore=False, code=None):
        """files: other files than those of the folder; code: source texts instead of files"""
        f = config_files(folder)
        for k, v in (code or {}).items():
            f[k] = k + ":" + v
            if f[k] not in _code:
                _code[f[k]] = compile(v, k, "exec")
        f.update({k: os.path.join(ROOT, v) for k, v in (files or {}).items()})
        self.usb_in, self.usb_out = rig.Port(), rig.Port()
        env.install()
        ports = sys.modules["usb_midi"].ports
        ports[:] = [self.usb_in, self.usb_out]
        Bridge.made = []
        old = {n: sys.modules.get(n) for n in NAMES + ("pymidibridge", "pymidibridge.MidiBridgeWrapper", "time")}
        ctl = env.mod("controller.explore").ExploreModeController if explore else env.mod("controller.controller").Controller
        found = []
        tick = ctl.tick

        def stop(c):
            found.append(c)
            return False
        finder = _Finder(f)
        for n in NAMES:
            sys.modules.pop(n, None)
        p, w = types.ModuleType("pymidibridge"), types.ModuleType("pymidibridge.MidiBridgeWrapper")
        w.MidiBridgeWrapper = Bridge
        p.MidiBridgeWrapper = w
        p.__path__ = []
        try:
            sys.modules["pymidibridge"], sys.modules["pymidibridge.MidiBridgeWrapper"], sys.modules["time"] = p, w, env.FAKE_TIME
            sys.meta_path.insert(0, finder)
            if config is not None:
                m = types.ModuleType("config")
                exec(compiled(f["config"]), m.__dict__)
                m.Config = dict(m.Config, **config)
                sys.modules["config"] = m
            ctl.tick = stop
            self.ns = {"__name__": "pyswitch.process", "__package__": "pyswitch", "__builtins__": __builtins__}
            exec(compiled(os.path.join(env.PKG, "process.py")), self.ns)
        finally:
            ctl.tick = tick
            sys.meta_path.remove(finder)
            self.mods = {n: sys.modules.get(n) for n in NAMES}
            for n, m in old.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
        self.bridge = Bridge.made[0] if Bridge.made else None
        if self.bridge and self.bridge.failed:
            raise self.bridge.failed
        if len(found) != 1:
            raise RuntimeError("processing loop not started: %s" % found)
        self.c = found[0]
        self.pos = 0
        self.upos = 0

    # -------- what is connected
    @property
    def switches(self):
        return list(HW.gpio)

    @property
    def pots(self):
        return list(HW.analog)

    @property
    def encoders(self):
        return list(range(len(HW.encoders)))

    def tick(self, dt=0):
        Clock.advance(dt)
        if self.c.tick() is not True:
            raise RuntimeError("processing loop ended")

    def press(self, p, down=True):
        for s in HW.gpio[p]:
            s.value = not down

    def turn(self, i, n):
        HW.encoders[i].position += n

    def pot(self, p, v):
        for a in HW.analog[p]:
            a.value = v

    def feed(self, data):
        self.usb_in.inq += data

    def sent(self):
        b = self.usb_out.out[self.pos:]
        self.pos = len(self.usb_out.out)
        return rig.parse_stream(bytes(b))

    def leds(self):
        return [tuple(x) for x in HW.pixels[-1]]

    def shown(self):
        s = HW.displays[-1].shown
        return [] if s is None else rig.flat(s)

    def texts(self):
        r = []
        for o in self.shown():
            t = getattr(o[0], "text", None)
            if t is not None:
                r.append(t)
        return r
