"""C29: wiring of the supported devices: pins, LEDs, MIDI ports, display."""
import sys
from itertools import product
from mc import env, rig
from mc.env import HW
from mc.explore import Sys, Violation, bfs, enumerate_cases
from checks import fw

BOUNDS = {"quick": "the real start script with all inputs of every supported device: all orders of pressing and releasing any two pins out of all 30 (also unused ones) to depth 4, pedals over all "
                   "65536 positions, encoder in all positions in -300..300; all eight shipped routings: all sequences of 4 messages arriving at USB and DIN and sent by switches",
          "thorough": "three pins to depth 6, sequences of 5"}
ASSUMPTIONS = ["wiring table of the devices written down from the board descriptions"]
# name -> (pin, LEDs, position in the ring of the strobe tuner)
TEN = {"1": ("GP1", (0, 1, 2), 0), "2": ("GP25", (3, 4, 5), 1), "3": ("GP24", (6, 7, 8), 2), "4": ("GP23", (9, 10, 11), 3), "Up": ("GP20", (12, 13, 14), 4),
       "A": ("GP9", (15, 17, 16), 9), "B": ("GP10", (18, 20, 19), 8), "C": ("GP11", (21, 23, 22), 7), "D": ("GP18", (24, 26, 25), 6), "Down": ("GP19", (27, 29, 28), 5)}
MINI = {"1": ("GP1", (0, 1, 2), 0), "2": ("GP25", (3, 4, 5), 1), "3": ("GP24", (6, 7, 8), 2), "A": ("GP9", (9, 11, 10), 5), "B": ("GP10", (12, 14, 13), 4), "C": ("GP11", (15, 17, 16), 3)}
NANO = {"1": ("GP1", (0, 1, 2), 0), "2": ("GP25", (3, 4, 5), 1), "A": ("GP9", (6, 8, 7), 3), "B": ("GP10", (9, 11, 10), 2)}
DEVICES = {
    "pa_midicaptain_10": ("PA_MIDICAPTAIN_10_", dict(TEN, WhlButton=("GP0", (), 0), ExpSw1=("GP27", (), 0), ExpSw2=("GP28", (), 0)),
                          {"Exp1": "GP27", "Exp2": "GP28"}, {"Wheel": ("GP2", "GP3")}),
    "pa_midicaptain_mini_6": ("PA_MIDICAPTAIN_MINI_", MINI, {}, {}),
    "pa_midicaptain_nano_4": ("PA_MIDICAPTAIN_NANO_", NANO, {}, {}),
}
ID = {"1": "SWITCH_1", "2": "SWITCH_2", "3": "SWITCH_3", "4": "SWITCH_4", "Up": "SWITCH_UP", "Down": "SWITCH_DOWN", "A": "SWITCH_A", "B": "SWITCH_B", "C": "SWITCH_C", "D": "SWITCH_D",
      "WhlButton": "WHEEL_BUTTON", "ExpSw1": "EXP_SWITCH_1", "ExpSw2": "EXP_SWITCH_2", "Exp1": "EXP_PEDAL_1", "Exp2": "EXP_PEDAL_2", "Wheel": "WHEEL_ENCODER"}
COMM = """
from pyswitch.controller.midi import MidiRouting
from pyswitch.hardware.devices.pa_midicaptain import PA_MIDICAPTAIN_USB_MIDI
_M = PA_MIDICAPTAIN_USB_MIDI()
Communication = {"midi": {"routings": [MidiRouting(source = _M, target = MidiRouting.APPLICATION), MidiRouting(source = MidiRouting.APPLICATION, target = _M)]}}
"""
DISPLAY = """
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.controller.callbacks import Callback
class _S(Callback):
    def get_root(self):
        return _R
_R = DisplayElement(bounds = DisplayBounds(0, 0, 240, 240))
Splashes = _S()
"""
INPUTS = """
from pyswitch.controller.actions import PushButtonAction
from pyswitch.controller.callbacks import BinaryParameterCallback
from pyswitch.controller.client import ClientParameterMapping
from pyswitch.controller.actions.AnalogAction import AnalogAction
from pyswitch.controller.actions.EncoderAction import EncoderAction
from adafruit_midi.control_change import ControlChange
import pyswitch.hardware.devices.%(dev)s as _dev
def _m(cc):
    return ClientParameterMapping.get(name = "c29" + str(cc), set = ControlChange(cc, 0), response = ControlChange(cc, 0))
Inputs = []
for _i, _n in enumerate(%(switches)r):
    Inputs.append({"assignment": getattr(_dev, _n), "actions": [PushButtonAction({"mode": PushButtonAction.MOMENTARY, "useSwitchLeds": True, "callback":
        BinaryParameterCallback(mapping = _m(20 + _i), value_enable = 127, value_disable = 0, color = (255, 255, 255), led_brightness_on = 1, led_brightness_off = 0, use_internal_state = True)})]})
for _i, _n in enumerate(%(pots)r):
    Inputs.append({"assignment": getattr(_dev, _n), "actions": [AnalogAction(mapping = _m(60 + _i), max_value = 127, num_steps = 128, auto_calibrate = False)]})
for _i, _n in enumerate(%(encs)r):
    Inputs.append({"assignment": getattr(_dev, _n), "actions": [EncoderAction(mapping = _m(80 + _i), max_value = 127, step_width = 1)]})
"""


class Wire(Sys):
    """cfg: dev, names (used inputs), pins (those moved)"""

    def __init__(self, cfg):
        self.cfg = cfg
        pre, sw, pots, encs = DEVICES[cfg["dev"]]
        mod = env.mod("hardware.devices." + cfg["dev"])
        n = cfg["names"]
        self.sw = [x for x in sw if x in n]
        self.pots = [x for x in pots if x in n]
        self.encs = [x for x in encs if x in n]
        code = INPUTS % dict(dev=cfg["dev"], switches=[pre + ID[x] for x in self.sw], pots=[pre + ID[x] for x in self.pots], encs=[pre + ID[x] for x in self.encs])
        self.fw = fw.Fw("content", code={"communication": COMM, "display": DISPLAY, "inputs": code}, config={"enableMidiBridge": False})
        self.table = sw
        for x in list(self.sw) + list(self.pots) + list(self.encs):
            if getattr(mod, pre + ID[x]).get("name") != x:
                raise Violation("%s is named %r" % (pre + ID[x], getattr(mod, pre + ID[x]).get("name")))
        for x in self.sw:
            p, px, order = sw[x]
            a = getattr(mod, pre + ID[x])
            if tuple(a.get("pixels", ())) != px or a.get("strobeOrder", 0) != order:
                raise Violation("%s: LEDs %s, ring position %s instead of %s, %s" % (pre + ID[x], a.get("pixels"), a.get("strobeOrder"), px, order))
        if set(HW.gpio) != {sw[x][0] for x in self.sw} or set(HW.analog) != {pots[x] for x in self.pots} or [(e.a, e.b) for e in HW.encoders] != [encs[x] for x in self.encs]:
            raise Violation("pins used: %s %s %s" % (list(HW.gpio), list(HW.analog), [(e.a, e.b) for e in HW.encoders]))
        d, px = HW.displays, HW.pixels
        if len(d) != 1 or (d[0].width, d[0].height, d[0].rowstart, d[0].rotation) != (240, 240, 80, 180) or \
                (d[0].bus.command, d[0].bus.chip_select, d[0].bus.spi.clock, d[0].bus.spi.mosi, d[0].bus.spi.baudrate, d[0].bus.spi.locked) != ("GP12", "GP13", "GP14", "GP15", 24000000, False):
            raise Violation("display wiring: %s" % [vars(x) for x in d])
        if len(px) != 1 or px[0].port != "GP7" or len(px[0]) < max([max(sw[x][1]) + 1 for x in self.sw if sw[x][1]] or [0]):
            raise Violation("LEDs: %s" % [(x.port, len(x)) for x in px])
        self.down = set()
        self.fw.tick(0)
        self.fw.sent()
        self.msgs = []
        self.pos = 0
        self.work = 0

    def roots(self):
        return (self.fw.c, self.down)

    def outcome(self):
        return (tuple(self.msgs), tuple(self.fw.leds()))

    def events(self):
        return [("pin", p) for p in self.cfg["pins"]]

    def step(self, ev):
        k = ev[0]
        if k == "pin":
            p = ev[1]
            d = p not in self.down
            (self.down.add if d else self.down.discard)(p)
            if p in HW.gpio:
                self.fw.press(p, d)
            self.fw.tick(10)
            self.msgs = self.fw.sent()
            e = [("cc", 20 + i, 127 if d else 0) for i, x in enumerate(self.sw) if self.table[x][0] == p]
            if self.msgs != e:
                raise Violation("%s %s: sent %s instead of %s" % (p, "pressed" if d else "released", self.msgs, e))
            self.leds(ev)
        elif k == "pots":
            # all positions
            last = None
            self.fw.pot(ev[1], 40000)
            self.fw.tick(50)
            self.fw.sent()
            for v in range(ev[2], 65536, ev[3]):
                self.fw.pot(ev[1], v)
                self.fw.tick(50)
                i = [x for x in self.pots].index(next(x for x in self.pots if DEVICES[self.cfg["dev"]][2][x] == ev[1]))
                for m in self.fw.sent():
                    if m[:2] != ("cc", 60 + i):
                        raise Violation("%s = %d: sent %s" % (ev[1], v, m))
                    last = m[2]
                self.work += 1
                if last is None or (v >= 1024 and abs(last - v * 127 / 65535) > 1.5) or (v < 1024 and last > 2):
                    raise Violation("%s = %d: last value sent is %s" % (ev[1], v, last))
        elif k == "turn":
            val = 0
            self.fw.turn(0, -400)
            self.fw.tick(10)
            self.fw.sent()
            d = 1
            for n in ev[1]:
                self.fw.turn(0, n)
                self.fw.tick(10)
                val = max(0, min(127, val + n))
                g = self.fw.sent()
                self.work += 1
                if g and g[-1] != ("cc", 80, val):
                    raise Violation("turned by %d: sent %s, expected %d" % (n, g, val))
                if not g and self.last != val:
                    raise Violation("turned by %d: nothing sent, expected %d" % (n, val))
                self.last = val

    last = 0

    def leds(self, ev):
        L = self.fw.leds()
        e = [(0, 0, 0)] * len(L)
        for x in self.sw:
            p, px, o = self.table[x]
            if p in self.down:
                for i in px:
                    e[i] = (255, 255, 255)
        if L != e:
            raise Violation("%s: LEDs %s instead of %s" % (ev, L, e))


# shipped routings: folder -> (USB to application, application to USB, DIN to application, application to DIN, DIN to USB, USB to DIN)
ROUTES = {
    "Control USB and DIN at once (no Protocol)": (1, 1, 1, 1, 0, 0), "Control USB and DIN at once": (1, 1, 1, 1, 0, 0), "Control client via DIN MIDI": (0, 0, 1, 1, 0, 0),
    "Control client via USB MIDI (no Protocol)": (1, 1, 0, 0, 0, 0), "Control client via USB MIDI": (1, 1, 0, 0, 0, 0), "Through DIN to USB": (1, 1, 0, 0, 1, 0),
    "Through USB DIN bidirectional": (1, 1, 0, 0, 1, 1), "Through USB to DIN": (1, 1, 0, 0, 0, 1), "content": (1, 1, 0, 0, 0, 0)}
RIN = """
from pyswitch.controller.actions import PushButtonAction
from pyswitch.controller.callbacks import BinaryParameterCallback
from pyswitch.controller.client import ClientParameterMapping
from adafruit_midi.control_change import ControlChange
from pyswitch.hardware.devices.pa_midicaptain_nano_4 import *
_map = ClientParameterMapping.get(name = "c29r", set = ControlChange(20, 0), response = ControlChange(21, 0))
Inputs = [{"assignment": PA_MIDICAPTAIN_NANO_SWITCH_1, "actions": [PushButtonAction({"mode": PushButtonAction.LATCH, "useSwitchLeds": True, "callback":
    BinaryParameterCallback(mapping = _map, value_enable = 127, value_disable = 0, color = (255, 255, 255), led_brightness_on = 1, led_brightness_off = 0)})]}]
"""
MSG = {"on": rig.cc(21, 127), "off": rig.cc(21, 0), "pc": rig.pc(5), "ch": rig.cc(33, 4, 7), "sx": rig.sx(0, 32, 51, 1, 2, 3), "note": bytes([0x95, 60, 100])}


class Route(Sys):
    """cfg: folder"""

    def __init__(self, cfg):
        self.cfg = cfg
        f = cfg["folder"]
        self.r = ROUTES[f]
        files = {} if f == "content" else {"communication": "examples/MIDICaptain MIDI Routings/%s/communication.py" % f}
        self.fw = fw.Fw("content", files=files, code={"display": DISPLAY, "inputs": RIN}, config=cfg.get("config"))
        self.din = HW.uarts[0] if HW.uarts else None
        need = any(self.r[2:])
        if bool(self.din) != need or len(HW.uarts) > 1 or (self.din and self.din.args[:3] != ("GP16", "GP17", 31250)):
            raise Violation("DIN port: %s" % [u.args for u in HW.uarts])
        self.dpos = 0
        self.on = False
        self.fw.tick(0)
        self.take()
        self.got = None
        self.rep = None        # state last reported by the device

    def report(self, m):
        """a report which repeats the last one after the user switched is accepted either way"""
        if m != self.rep:
            self.on = m == "on"
        elif self.on != (m == "on"):
            self.on = None
        self.rep = m

    def take(self):
        def plain(l):
            return [m for m in l if not (m[0] == "sx" and m[1:7] == rig.MAN + (2, 127, 0x7E))]
        u = plain(self.fw.sent())
        d = []
        if self.din:
            d = plain(rig.parse_stream(bytes(self.din.out[self.dpos:])))
            self.dpos = len(self.din.out)
        return u, d

    def roots(self):
        return (self.fw.c, self.on, self.rep, self.fw.usb_in.inq, self.din and self.din.inbuf)

    def outcome(self):
        return (self.got, tuple(self.fw.leds()))

    def events(self):
        return [("usb", m) for m in MSG] + ([("din", m) for m in MSG] if self.din else []) + [("both", "on", "off"), ("tap",)]

    def step(self, ev):
        ua, au, da, ad, du, ud = self.r
        k = ev[0]
        eu, ed = [], []
        if k == "tap":
            self.on = not self.on
            self.fw.press("GP1")
            self.fw.tick(0)
            self.fw.press("GP1", False)
            self.fw.tick(0)
            m = ("cc", 20, 127 if self.on else 0)
            eu, ed = [m] * au, [m] * ad
        else:
            ms = [(k, ev[1])] if k != "both" else [("usb", ev[1]), ("din", ev[2])]
            for p, m in ms:
                if p == "din" and not self.din:
                    continue
                (self.fw.feed if p == "usb" else self.din.inbuf.extend)(MSG[m])
                t = rig.parse_stream(MSG[m])
                if m in ("pc", "ch", "note"):
                    t = rig.parse_stream(bytes([MSG[m][0] & 0xF0]) + MSG[m][1:])     # forwarded on the output channel
                if p == "usb":
                    ed += t * ud
                    if ua and m in ("on", "off"):
                        self.report(m)
                else:
                    eu += t * du
                    if da and m in ("on", "off"):
                        self.report(m)
            for _ in range(4):
                self.fw.tick(0)
        u, d = self.take()
        self.got = (tuple(u), tuple(d))
        if k == "both" and (self.r[0] and self.r[2]):
            self.on = None     # the order of the two ports is open
        if not same(u, eu) or not same(d, ed):
            raise Violation("%s: sent to USB %s, to DIN %s; expected %s, %s" % (ev, u, d, eu, ed))
        want = (255, 255, 255) if self.on else (0, 0, 0)
        if self.on is None:
            self.on = self.fw.leds()[0] != (0, 0, 0)
        elif self.fw.leds()[0] != want:
            raise Violation("%s: LED %s instead of %s" % (ev, self.fw.leds()[0], want))


def same(a, b):
    """notes are unknown to the application and not forwarded: accepted either way"""
    f = [m for m in a if m[0] != "ch"]
    return f == [m for m in b if m[0] != "ch"]


def tasks(tier):
    th = tier != "quick"
    r = []
    pins = ["GP%d" % i for i in range(30)]
    for dev, (pre, sw, pots, encs) in DEVICES.items():
        all1 = [x for x in sw if not x.startswith("Exp")] + list(pots) + list(encs)
        sets = [all1] + ([list(sw) + list(encs)] if pots else [])
        for names in sets:
            cfg = {"dev": dev, "names": names, "pins": pins}
            cases = [[("pin", p) for p in c] for a in pins for b in pins for c in ([a, b, a, b], [a, b, b, a])]
            if th:
                use = [p for p in pins if any(sw[x][0] == p for x in sw)] + ["GP5"]
                cases += [[("pin", p) for p in c] for t in product(use, repeat=3) for c in (t + t, t + t[::-1])]
            for i in range(0, len(cases), 450):
                r.append((enumerate_cases, ("switches", Wire, cfg, cases[i:i + 450]), {}))
            for x in (x for x in pots if x in names):
                r.append((enumerate_cases, ("pedals", Wire, cfg, [[("pots", pots[x], k, 16)] for k in range(16)]), {}))
            if encs:
                t = [[1] * 300 + [-1] * 300, [2] * 100 + [-3] * 100, [1, -1] * 50, [5, -2] * 60, [200, -200, 3, 300, -1]]
                r.append((enumerate_cases, ("encoder", Wire, cfg, [[("turn", x)] for x in t]), {}))
    for f in ROUTES:
        r.append((bfs, ("routing", Route, {"folder": f}, 5 if th else 4), {"time_limit": 500 if th else 100}))
        r.append((bfs, ("routing", Route, {"folder": f, "config": {"enableMidiBridge": False}}, 3), {"time_limit": 500 if th else 100}))
    return r
