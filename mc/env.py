"""Execution environment: loads the real PySwitch code from /repo's working tree under
stand-ins for the CircuitPython hardware modules, with a controlled clock, and offers
snapshot/restore of all module level state so that every explored execution starts fresh."""
import importlib
import importlib.util
import os
import sys
import types

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "content", "lib", "pyswitch")
MIDI_PKG = os.path.join(REPO, "web", "htdocs", "python", "adafruit_midi")

T0 = 10_000_000          # clock start (ms): ints above TIME_MIN in the object graph are timestamps
TIME_MIN = 5_000_000


class Clock:
    now = T0

    @classmethod
    def reset(cls, t=T0):
        cls.now = t

    @classmethod
    def advance(cls, ms):
        cls.now += ms


def _monotonic():
    # half a millisecond on top: int(x * 1000) is then exactly Clock.now for every float rounding
    return (Clock.now + 0.5) / 1000.0


class HW:
    """Recorders behind the stand-in modules."""
    mem_free = 1024 * 100
    keyboards = []
    keyboard_fail = None
    gpio = {}            # digital inputs by port
    analog = {}
    encoders = []
    uarts = []
    displays = []
    pixels = []

    @classmethod
    def reset(cls):
        cls.mem_free = 1024 * 100
        cls.keyboards = []
        cls.keyboard_fail = None
        cls.gpio, cls.analog, cls.encoders, cls.uarts, cls.displays, cls.pixels = {}, {}, [], [], [], []


def _module(name, **attrs):
    m = types.ModuleType(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if "." in name:
        parent, child = name.rsplit(".", 1)
        if parent in sys.modules:
            setattr(sys.modules[parent], child, m)
    return m


class Group:
    def __init__(self, scale=1, x=0, y=0):
        self.scale, self.x, self.y = scale, x, y
        self.content = []

    def append(self, el):
        self.content.append(el)


class Label:
    def __init__(self, font=None, anchor_point=None, anchored_position=None, text=None, color=None,
                 line_spacing=None, scale=1):
        self.font = font
        self.anchor_point = anchor_point
        self.anchored_position = anchored_position
        self.text = text
        self.color = color
        self.line_spacing = line_spacing
        self.scale = scale


class Rect:
    def __init__(self, x=0, y=0, width=0, height=0, fill=None, outline=None, stroke=0):
        self.x, self.y, self.width, self.height = x, y, width, height
        self.fill, self.outline, self.stroke = fill, outline, stroke


def wrap_text_to_pixels(text, max_width, font=None, indent0="", indent1=""):
    # 10 pixels per character, split hard
    n = max(1, int(max_width // 10))
    return [text[i:i + n] for i in range(0, len(text), n)] or [""]


class Keyboard:
    def __init__(self, devices):
        if HW.keyboard_fail:
            raise HW.keyboard_fail
        self.sent = []
        HW.keyboards.append(self)

    def send(self, *codes):
        self.sent.append(tuple(codes))


class _Keycode:
    pass


for _i, _c in enumerate("ABCDEFGHIJKLMNOPQRSTUVWXYZ"):
    setattr(_Keycode, _c, 4 + _i)
_Keycode.RIGHT_ARROW, _Keycode.LEFT_ARROW, _Keycode.DOWN_ARROW, _Keycode.UP_ARROW = 79, 80, 81, 82


class DigitalInOut:
    def __init__(self, port):
        self.port = port
        self._value = True       # level with pull-up
        self.direction = None
        self.pull = None
        HW.gpio.setdefault(port, []).append(self)

    @property
    def value(self):
        return self._value if self.direction == 0 and self.pull == 1 else False

    @value.setter
    def value(self, v):
        self._value = v


class AnalogIn:
    def __init__(self, port):
        self.port = port
        self.value = 0
        HW.analog.setdefault(port, []).append(self)


class IncrementalEncoder:
    def __init__(self, a, b, divisor=4):
        self.a, self.b, self.divisor = a, b, divisor
        self.position = 0
        HW.encoders.append(self)


class UART:
    def __init__(self, tx=None, rx=None, baudrate=31250, timeout=0.001, **kw):
        self.args = (tx, rx, baudrate, timeout)
        self.inbuf = bytearray()
        self.out = bytearray()
        HW.uarts.append(self)

    def read(self, n):
        r = bytes(self.inbuf[:n])
        del self.inbuf[:n]
        return r

    def write(self, buf, n):
        self.out += bytes(buf[:n])


class _NeoPixel(list):
    def __init__(self, port, n):
        super().__init__([(0, 0, 0)] * n)
        self.port = port
        HW.pixels.append(self)


class SPI:
    def __init__(self, clock, MOSI=None, MISO=None):
        self.clock, self.mosi = clock, MOSI
        self.locked = False
        self.baudrate = None

    def try_lock(self):
        self.locked = True
        return True

    def configure(self, baudrate=100000):
        if not self.locked:
            raise RuntimeError("SPI bus is not locked")
        self.baudrate = baudrate

    def unlock(self):
        self.locked = False


class FourWire:
    def __init__(self, spi, command=None, chip_select=None, reset=None):
        self.spi, self.command, self.chip_select = spi, command, chip_select


class ST7789:
    def __init__(self, bus, width=0, height=0, rowstart=0, rotation=0):
        self.bus, self.width, self.height, self.rowstart, self.rotation = bus, width, height, rowstart, rotation
        self.shown = None
        HW.displays.append(self)

    def show(self, splash):
        self.shown = splash


_installed = False
FAKE_TIME = None
IMPORT_FAILURES = []


def install():
    """Install the stand-in modules, the pyswitch package and adafruit_midi."""
    global _installed
    if _installed:
        return
    _installed = True

    _module("micropython", const=lambda a: a)

    import gc
    gc.collect = lambda *a: 0            # pyswitch collects often; a full collection costs milliseconds here
    gc.mem_free = lambda: HW.mem_free
    gc.mem_alloc = lambda: 1000

    # the code under test binds a clock of ours; everything else keeps the real one
    import time as real_time
    fake_time = types.ModuleType("time")
    fake_time.__dict__.update({k: v for k, v in vars(real_time).items() if not k.startswith("__")})
    fake_time.monotonic = _monotonic
    fake_time.monotonic_ns = lambda: Clock.now * 1_000_000
    fake_time.time = lambda: Clock.now / 1000.0
    fake_time.sleep = lambda s: Clock.advance(int(s * 1000))

    _module("displayio", Group=Group, release_displays=lambda: None, FourWire=FourWire)
    board = _module("board")
    for i in range(30):
        setattr(board, "GP%d" % i, "GP%d" % i)
    board.LED = "LED"
    _module("busio", UART=UART, SPI=SPI)
    _module("digitalio", DigitalInOut=DigitalInOut,
            Direction=types.SimpleNamespace(INPUT=0, OUTPUT=1),
            Pull=types.SimpleNamespace(UP=1, DOWN=2))
    _module("analogio", AnalogIn=AnalogIn)
    _module("rotaryio", IncrementalEncoder=IncrementalEncoder)
    _module("usb_midi", ports=[None, None])
    _module("usb_hid", devices=[1])
    _module("adafruit_hid")
    _module("adafruit_hid.keyboard", Keyboard=Keyboard)
    _module("adafruit_hid.keycode", Keycode=_Keycode)
    _module("adafruit_display_text", wrap_text_to_pixels=wrap_text_to_pixels)
    _module("adafruit_display_text.label", Label=Label)
    _module("adafruit_display_shapes")
    _module("adafruit_display_shapes.rect", Rect=Rect)
    _module("adafruit_misc")
    _module("adafruit_misc.adafruit_st7789", ST7789=ST7789)
    _module("adafruit_misc.neopixel", NeoPixel=_NeoPixel)
    _module("adafruit_bitmap_font")
    _module("adafruit_bitmap_font.bitmap_font", load_font=lambda p: "font:" + p)

    global FAKE_TIME
    FAKE_TIME = fake_time
    sys.modules["time"] = fake_time
    try:
        _load_all()
    finally:
        sys.modules["time"] = real_time


def _load_all():
    _load_pkg("adafruit_midi", MIDI_PKG)
    _load_pkg("pyswitch", PKG)
    # load everything now: later lazy imports then have no import side effects on the snapshot
    for n in ("control_change", "program_change", "system_exclusive"):
        importlib.import_module("adafruit_midi." + n)
    for d, dirs, files in sorted(os.walk(PKG)):
        dirs.sort()
        rel = os.path.relpath(d, PKG).replace(os.sep, ".")
        for f in sorted(files):
            if not f.endswith(".py") or f == "process.py" or "__pycache__" in d:
                continue
            name = ".".join(x for x in ["pyswitch", "" if rel == "." else rel, "" if f == "__init__.py" else f[:-3]] if x)
            try:
                importlib.import_module(name)
            except ImportError:
                IMPORT_FAILURES.append(name)


def _load_pkg(name, path):
    spec = importlib.util.spec_from_file_location(
        name, os.path.join(path, "__init__.py"), submodule_search_locations=[path])
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def mod(name):
    """Import pyswitch.<name> (the real code)."""
    install()
    return importlib.import_module("pyswitch." + name if name else "pyswitch")


# ------------------------------------------------------------------ module state snapshot

_ATOM = (int, float, str, bytes, bool, type(None), complex, range, types.ModuleType,
         types.BuiltinFunctionType, types.CodeType, property, staticmethod, classmethod)


class Snapshot:
    """Content of every mutable object reachable from the loaded pyswitch/adafruit_midi modules.
    restore() writes it back in place, so executions cannot influence each other."""

    def __init__(self):
        self.modules = {}
        self.lists, self.dicts, self.insts, self.sets, self.arrays, self.cells, self.classes = [], [], [], [], [], [], []
        seen = set()
        stack = []
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] in ("pyswitch", "adafruit_midi") and m is not None:
                self.modules[n] = m
                self.dicts.append((m.__dict__, dict(m.__dict__), True))
                stack += [v for k, v in m.__dict__.items() if k != "__builtins__"]
        from array import array
        while stack:
            o = stack.pop()
            if isinstance(o, _ATOM) and not isinstance(o, (staticmethod, classmethod, property)):
                continue
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (staticmethod, classmethod)):
                stack.append(o.__func__)
            elif isinstance(o, property):
                stack += [o.fget, o.fset]
            elif isinstance(o, list):
                self.lists.append((o, list(o)))
                stack += o
            elif isinstance(o, tuple):
                stack += o
            elif isinstance(o, dict):
                self.dicts.append((o, dict(o), False))
                stack += list(o.values()) + list(o.keys())
            elif isinstance(o, (set, frozenset)):
                if isinstance(o, set):
                    self.sets.append((o, set(o)))
                stack += list(o)
            elif isinstance(o, (bytearray, array)):
                self.arrays.append((o, o[:]))
            elif isinstance(o, types.FunctionType):
                if o.__closure__:
                    for c in o.__closure__:
                        try:
                            v = c.cell_contents
                        except ValueError:
                            continue
                        self.cells.append((c, v))
                        stack.append(v)
                stack += list(o.__defaults__ or ())
                stack += list((o.__kwdefaults__ or {}).values())
                if o.__dict__:
                    self.dicts.append((o.__dict__, dict(o.__dict__), False))
            elif isinstance(o, types.MethodType):
                stack += [o.__self__, o.__func__]
            elif isinstance(o, type):
                if o.__module__.split(".")[0] in ("pyswitch", "adafruit_midi"):
                    d = dict(vars(o))
                    self.classes.append((o, d))
                    stack += list(d.values())
            elif hasattr(o, "__dict__"):
                if type(o).__module__.split(".")[0] in ("pyswitch", "adafruit_midi"):
                    self.insts.append((o, dict(o.__dict__)))
                    stack += list(o.__dict__.values())

    def restore(self):
        for o, c in self.lists:
            if o != c:
                o[:] = c
        for o, c, keep in self.dicts:
            if o == c:
                continue
            if keep:
                for k in [k for k in o if k not in c and k != "__builtins__"]:
                    # a submodule imported later stays: it is registered again on a new snapshot
                    if not isinstance(o[k], types.ModuleType):
                        del o[k]
                o.update({k: v for k, v in c.items() if k != "__builtins__"})
            else:
                o.clear()
                o.update(c)
        for o, c in self.insts:
            if o.__dict__ == c:
                continue
            o.__dict__.clear()
            o.__dict__.update(c)
        for o, c in self.sets:
            o.clear()
            o.update(c)
        for o, c in self.arrays:
            o[:] = c
        for o, v in self.cells:
            o.cell_contents = v
        for o, d in self.classes:
            cur = vars(o)
            if cur == d:
                continue
            for k in [k for k in cur if k not in d and k not in ("__dict__", "__weakref__", "__doc__")]:
                delattr(o, k)
            for k, v in d.items():
                if cur.get(k) is not v and k not in ("__dict__", "__weakref__", "__doc__"):
                    setattr(o, k, v)

    def delta(self):
        """Module level state that differs from the initial one (part of every state's identity)."""
        r = []
        for i, (o, c) in enumerate(self.lists):
            if o != c:
                r.append(("l", i, tuple(o)))
        for i, (o, c, keep) in enumerate(self.dicts):
            if o != c:
                for k, v in o.items():
                    if c.get(k, r) is not v:
                        r.append(("d", i, k, v))
        for i, (o, c) in enumerate(self.insts):
            d = o.__dict__
            if d != c:
                for k, v in d.items():
                    if c.get(k, r) is not v:
                        r.append(("o", i, k, v))
        for i, (o, d) in enumerate(self.classes):
            if vars(o) != d:
                for k, v in vars(o).items():
                    if d.get(k, r) is not v:
                        r.append(("c", i, k, v))
        return r


def global_delta():
    return _snap.delta() if _snap else []


_snap = None


def fresh():
    """Bring all module level state, the clock and the hardware stand-ins back to the initial state."""
    global _snap
    install()
    if _snap is None or any(n not in _snap.modules for n in sys.modules
                            if n.split(".")[0] in ("pyswitch", "adafruit_midi")):
        if _snap is not None:
            _snap.restore()
        _snap = Snapshot()
    _snap.restore()
    Clock.reset()
    HW.reset()
