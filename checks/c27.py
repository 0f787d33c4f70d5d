"""C27: whatever the web configurator offers works on the device."""
import inspect
import json
import os
import sys
from itertools import combinations, product
from mc import env
from mc.explore import Sys, Violation, enumerate_cases
from checks import fw, c34

BOUNDS = {"quick": "every listed action, mapping and display callback; every offered value of every parameter alone, all pairs of values of two parameters; per configuration a sequence of 13 "
                   "operations (short and long press or turns, rig, effect, morph, tuner, tempo changes, loss of the device); single values: all sequences of 2 operations",
          "thorough": "also all sequences of 3 operations for single values"}
ASSUMPTIONS = ["simulated amplifier after its MIDI documentation", "values of free text parameters are taken from their descriptions"]
DEF = os.path.join(fw.ROOT, "web/htdocs/definitions")
HEAD = """from pyswitch.clients.kemper import KemperMappings, KemperEffectSlot, NUM_RIGS_PER_BANK, NUM_BANKS
from pyswitch.colors import Colors, DEFAULT_SWITCH_COLOR, DEFAULT_LABEL_COLOR
from pyswitch.controller.actions import PushButtonAction
from pyswitch.controller.callbacks import BinaryParameterCallback
from pyswitch.clients.kemper.actions.rig_select import RIG_SELECT_DISPLAY_CURRENT_RIG, RIG_SELECT_DISPLAY_TARGET_RIG
from pyswitch.clients.kemper.actions.fixed_fx import *
from pyswitch.clients.local.actions.encoder_button import ENCODER_BUTTON
from pyswitch.clients.kemper.actions.tuner import TUNER_MODE
from pyswitch.hardware.devices.pa_midicaptain_10 import *
from display import *
from adafruit_hid.keycode import Keycode
"""
DEVICE = {"AdafruitSwitch": "PA_MIDICAPTAIN_10_SWITCH_1", "AdafruitEncoder": "PA_MIDICAPTAIN_10_WHEEL_ENCODER", "AdafruitPotentiometer": "PA_MIDICAPTAIN_10_EXP_PEDAL_1"}
# values for parameters of free type, as their descriptions say
FREE = {
    "id": ["'x'"], "value_on": ["0", "127", "5000"], "value_off": ["1", "'auto'"], "reference_value": ["0", "64"], "max_value": ["100", "10000"], "min_value": ["10"], "step_width": ["0.5", "1", "40"],
    "dim_factor": ["'on'", "0.5"], "led_brightness": ["0.5"], "auto_exclude_rigs": ["(1, 2)", "[3]"], "max_bank": ["1", "10"], "num_leds": ["1", "2", "3"],
    "message": ["[176, 33, 1]", "[240, 0, 1, 247]", "(192, 5)"], "message_release": ["[176, 33, 0]", "(192, 1)"], "mappings": ["[KemperMappings.RIG_ID()]"], "num_steps": ["2", "16384"],
    "max_frame_rate": ["1", "1000"], "cal_min_window": ["0", "1"], "morph_id": ["'m'"], "repeat_interval_millis": ["0", "50", "5000"], "change_timeout_millis": ["0", "5000"],
    "text_callback": ["lambda action, bank, rig: 'T%d-%d' % (bank, rig)"], "color_callback": ["lambda action, bank, rig: (bank, rig, 5)"], "convert_value": ["lambda value: str(value)"],
    "keycodes": ["Keycode.LEFT_ARROW", "[Keycode.A, Keycode.B]", "4"], "led_brightness_1": ["0", "1"], "led_brightness_2": ["0", "1"], "display_dim_factor_on": ["'off'", "0.5"],
    "display_dim_factor_off": ["'on'", "0.5"], "led_brightness_on": ["'off'", "0.5"], "led_brightness_off": ["'on'", "0.5"], "offset": ["-512", "1", "16383", "-1"],
    "pages": ["[{'id': 1, 'color': Colors.RED, 'text': 'one'}, {'id': 2, 'color': Colors.BLUE, 'text': 'two'}]", "[]", "[{'id': 'a', 'text': 'one'}]"], "select_page": ["1"], "page_id": ["1", "2"],
    "transfer_function": ["lambda v: int(v / 512)"], "auto_calibrate": ["True"], "min_raw_value": ["0"],
    "messages": ["[[176, 20, 1], [176, 20, 2]]", "[(192, 1)]"], "messages_release": ["[[176, 20, 0], [176, 21, 0]]"], "led_colors": ["[Colors.RED, Colors.BLUE]", "[[Colors.RED, Colors.BLUE]] * 3"], "display_colors": ["[Colors.RED, Colors.BLUE]"],
    "texts": ["['a', 'b']"], "calibration_high": ["8200"], "calibration_low": ["8100"], "strobe_dim": ["1"], "strobe_speed": ["1", "5000"], "strobe_max_fps": ["10"], "note_names": ["('C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B')"],
    "splash_default": ["_R"], "splashes": ["_R"], "strobe": ["True"], "strobe_reverse": ["False"], "process_overridden_actions": ["True"], "show_name": ["False"], "preview_text_callback": [],
}
BASE = {"ROTATING_MESSAGES": {"messages": "[[176, 20, 1], [176, 20, 2], [176, 20, 3]]"}, "PagerAction": {"pages": FREE["pages"][0]}, "DISPLAY_FIXED_TEXT": {"text": "'abc'", "display": "DISPLAY_HEADER_1"}}
# parameters which do not decide what is done (pairs of them are left to the thorough tier)
LOOKS = ("id", "color", "text", "use_leds", "led_brightness", "text_callback", "color_callback", "enable_callback", "morph_color_base", "morph_color_morphed", "morph_id", "morph_use_leds", "dim_factor",
         "preview_blink_color", "led_brightness_on", "led_brightness_off", "led_brightness_1", "led_brightness_2", "back_color", "text_color")
LED_ONLY = ("use_leds", "led_brightness", "morph_use_leds", "led_brightness_on", "led_brightness_off", "led_brightness_1", "led_brightness_2", "num_leds")
LABEL_ONLY = ("text", "text_callback", "display", "dim_factor", "display_dim_factor_on", "display_dim_factor_off", "text_color", "show_name", "texts", "display_colors", "back_color")
BOTH = ("color", "color_callback", "morph_color_base", "morph_color_morphed", "preview_blink_color")
_files = {}


def load(n):
    if n not in _files:
        with open(os.path.join(DEF, n + ".json"), encoding="utf-8") as f:
            _files[n] = json.load(f)
    return _files[n]


def entries(n):
    return [(c["client"], x) for c in load(n) for x in c[n]]


def meta(client, fn, par):
    """What the configurator knows about a parameter"""
    r = {}
    for e in ("default", fn):
        for c in load("meta"):
            if c["client"] == client:
                for x in c["entities"]:
                    if x["entityName"] == e:
                        for p in x["parameters"]:
                            if p["name"] == par:
                                r = p
    if not r and par in ("mode", "comparison_mode"):
        return meta("kemper", "default", par)
    return r


def target(client, fn):
    for c in load("meta"):
        for x in c["entities"]:
            if x["entityName"] == fn and x.get("target"):
                return x["target"]


def mappings(th=True):
    r = []
    for client, m in entries("mappings"):
        if m["name"].endswith(("_NAME", "_COMMENT")) or m["name"].split(".")[-1] in ("RIG_DATE", "AMP_NAME", "CABINET_NAME", "TUNER_MODE_STATE_STRING"):
            continue             # texts
        if not m["parameters"]:
            r.append((m["name"] + "()", m))
            continue
        p = m["parameters"][0]
        v = values(client, m["name"], p)
        r += [("%s(%s)" % (m["name"], x), m) for x in (v if th else v[:1]) if x != "None"]
    return r


def values(client, fn, p, th=True):
    """All values offered for one parameter (as source text)"""
    n, k = p["name"], meta(client, fn, p["name"])
    r = []
    if n in ("display", "morph_display", "preview_display", "change_display"):
        r = ["DISPLAY_HEADER_1", "None"]
    elif n in ("accept_action", "cancel_action"):
        r = ["_" + n, "None"]
    elif n in ("mapping", "preview_reset_mapping"):
        r = [x for x, m in mappings(th)]
        if n != "mapping":
            r = ["None", "KemperMappings.RIG_ID()", "MAPPING_AMP_GAIN()"]
    elif "values" in k:
        r = [x["value"] for x in k["values"]]
    elif "range" in k:
        g = k["range"]
        r = [str(g["min"]), str(g["max"])] + [x["value"] for x in g.get("additionalValues", [])]
    elif k.get("type") == "bool":
        r = ["True", "False"]
    elif k.get("type") == "color" or n.endswith("color"):
        r = ["Colors.RED", "(1, 2, 255)"]
    elif k.get("type") == "text":
        r = ["'abc'", "''"]
    if n in FREE:
        r = r + [x for x in FREE[n] if x not in r and not (fn == "PagerAction" and x in ("'on'", "'off'"))]
    elif not r and p["default"] in ("True", "False"):
        r = ["True", "False"]
    if p["default"] is not None and p["default"] not in r:
        r.insert(0, p["default"])
    return r


def base(client, e):
    r = {}
    for p in e["parameters"]:
        n = p["name"]
        if n in BASE.get(e["name"], {}):
            r[n] = BASE[e["name"]][n]
        elif p["default"] is None:
            r[n] = meta(client, e["name"], n).get("default") or values(client, e["name"], p, False)[0]
    if e["name"] in BASE:
        r = dict(BASE[e["name"]], **r)
    return r


def imports(text):
    """Import lines for the mappings used in a text"""
    r = "".join("from %s import %s\n" % (m["importPath"], m["name"]) for c, m in entries("mappings") if "." not in m["name"] and m["name"] + "(" in text)
    return r


def call(e, args):
    return "%s(%s)" % (e["name"], ", ".join("%s = %s" % x for x in args.items()))


def code(client, e, args):
    """inputs.py as the configurator writes it"""
    t = call(e, args)
    s = HEAD + imports(t) + "from %s import %s\n" % (e["importPath"], e.get("importName", e["name"]))
    dev = DEVICE[target(client, e["name"])]
    if e["name"] == "PagerAction.proxy":
        s += "_pager = PagerAction(pages = %s, select_page = 1)\n" % FREE["pages"][0]
        t = t.replace("PagerAction.proxy", "_pager.proxy")
    s += "_accept_action = ENCODER_BUTTON()\n_cancel_action = ENCODER_BUTTON()\n"
    other = [("PA_MIDICAPTAIN_10_SWITCH_2", "_accept_action"), ("PA_MIDICAPTAIN_10_SWITCH_3", "_cancel_action"), ("PA_MIDICAPTAIN_10_SWITCH_4", "TUNER_MODE()")]
    if e["name"] == "PagerAction.proxy":
        other.append(("PA_MIDICAPTAIN_10_SWITCH_A", "_pager"))
    s += "Inputs = [\n" + "".join("    {'assignment': %s, 'actions': [%s]},\n" % x for x in [(dev, t)] + other) + "]\n"
    return s


DISPLAY = """from pyswitch.clients.kemper import *
from pyswitch.colors import *
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel
from pyswitch.clients.local.callbacks.splashes import SplashesCallback
%s
_L = {"font": "/fonts/H20.pcf", "backColor": DEFAULT_LABEL_COLOR}
DISPLAY_HEADER_1 = DisplayLabel(layout = _L, bounds = DisplayBounds(0, 0, 120, 40))
_R = DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = [
    DISPLAY_HEADER_1,
    DisplayLabel(layout = _L, bounds = DisplayBounds(0, 40, 240, 100)%s)
])
Splashes = %s
"""


class AnyDev(c34.Dev):
    """other devices (and custom messages) are addressed, too"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.record = []

    def receive(self, m):
        if m[:1] != ("sx",) or m[6:7] not in ((65,), (67,), (71,)):       # what is only shown need not be requested
            self.record.append(m)
        super().receive(m)
        return True


class Option(c34.Run):
    """cfg: kind, client, name, args"""
    DEV = AnyDev
    seen = None

    def __init__(self, cfg):
        cl, n, args = cfg["client"], cfg["name"], cfg["args"]
        e = next(x for c, x in entries(cfg["kind"]) if c == cl and x["name"] == n)
        self.e = e
        src = {"inputs": HEAD + "Inputs = []\n"} if cfg["kind"] != "actions" else {}
        self.pin = None
        if cfg["kind"] == "actions":
            src["inputs"] = code(cl, e, args)
        else:
            imp = "from %s import %s" % (e["importPath"], n)
            if target(cl, n) == "DisplayLabel" or e.get("target") == "DisplayLabel":
                src["display"] = DISPLAY % (imp, ", callback = " + call(e, args), "TunerDisplayCallback(splash_default = _R)")
            else:
                src["display"] = DISPLAY % (imp, "", call(e, args))
        c = dict(cfg, folder="content", code=src, amp=True)
        try:
            super().__init__(c)
        except Violation:
            raise
        except Exception as ex:
            self.failed(("start",), ex)

    def failed(self, ev, ex):
        import traceback
        t = traceback.extract_tb(ex.__traceback__)[-1]
        raise Violation("%s, %s: %s: %s (%s:%d)" % (call(self.e, self.cfg["args"]), ev, type(ex).__name__, ex, os.path.basename(t.filename), t.lineno))

    def step(self, ev):
        try:
            if ev[0] == "script":
                for x in ev[1]:
                    self.step(x)
                    if self.seen is not None:
                        self.seen.append(((x, list(self.d.record)), (x, self.fw.leds()), (x, self.fw.texts())))
                        self.d.record.clear()
                return
            if ev[0] == "like":
                self.like(ev[1])
                return
            if ev[0] == "use":
                for x in self.uses(ev[1]):
                    super().step(x)
                return
            super().step(ev)
        except Violation:
            raise
        except Exception as ex:
            self.failed(ev, ex)

    def like(self, par):
        """Parameters which decide how something looks change nothing else"""
        import mc.env
        self.seen = []
        self.step(SCRIPT)
        env.fresh()
        ref = Option(dict(self.cfg, args=self.cfg["ref"]))
        ref.seen = []
        ref.step(SCRIPT)
        for (m, l, t), (m2, l2, t2) in zip(self.seen, ref.seen):
            for what, a, b, free in (("sends", m, m2, ()), ("LEDs", l, l2, LED_ONLY + BOTH), ("texts", t, t2, LABEL_ONLY)):
                if a != b and par not in free:
                    raise Violation("%s differs from %s at %s in %s: %s instead of %s" % (call(self.e, self.cfg["args"]), call(self.e, self.cfg["ref"]), m[0], what, str(a[1])[:300], str(b[1])[:300]))
        if par == "use_leds" and self.cfg["args"][par] == "False":
            p = [l[1][:3] for m, l, t in self.seen]
            if self.cfg["args"].get("morph_use_leds") == "True" or self.e["name"] == "RIG_SELECT_AND_MORPH_STATE":
                return
            if any(x != p[0] and any(y != (0, 0, 0) for y in x) for x in p):     # they are off in tuner mode
                raise Violation("%s: LEDs change: %s" % (call(self.e, self.cfg["args"]), p))
        if par == "text" and self.cfg["args"]["text"] == "'abc'" and not any("abc" in x for m, l, t in self.seen for x in t[1]):
            raise Violation("%s: text is never shown" % call(self.e, self.cfg["args"]))

    def uses(self, long):
        t = target(self.cfg["client"], self.e["name"])
        if t == "AdafruitEncoder":
            return [("turn", 0, 3), ("turn", 0, -1)] if not long else [("turn", 0, -5), ("tap", self.fw.switches[1])]
        if t == "AdafruitPotentiometer":
            p = self.fw.pots[0]
            return [("pedal", p, 0), ("pedal", p, 65535)] if not long else [("pedal", p, 20000), ("pedal", p, 20100)]
        return [("hold" if long else "tap", self.fw.switches[0])] if self.fw.switches else []

    def check(self, ev):
        if self.cfg["kind"] == "actions" or ev[0] == "start":
            super().check(ev)


class Any(Sys):
    """events: ("config", kind, client, name, arguments, reference arguments) and what happens then"""

    def __init__(self, cfg):
        self.o = None

    def outcome(self):
        return self.o and self.o.outcome()

    def step(self, ev):
        if ev[0] == "config":
            self.o = Option({"kind": ev[1], "client": ev[2], "name": ev[3], "args": dict(ev[4]), "ref": dict(ev[5]) if len(ev) > 5 else None})
        elif self.o:
            self.o.step(ev)


class Catalogue(Sys):
    """The parameters and defaults shown by the configurator are those of the code"""

    def __init__(self, cfg):
        pass

    def step(self, ev):
        _, kind, client, name = ev
        e = next(x for c, x in entries(kind) if c == client and x["name"] == name)
        ns = {}
        env.install()
        exec("from %s import %s as it" % (e["importPath"], e.get("importName", name).split(".")[0]), ns)
        f = ns["it"]
        for k in name.split(".")[1:]:
            f = getattr(f, k)
        par = [p for p in inspect.signature(f.__init__ if inspect.isclass(f) else f).parameters.values() if p.name != "self"]
        if [p.name for p in par] != [p["name"] for p in e["parameters"]]:
            raise Violation("%s: parameters %s, catalogue says %s" % (name, [p.name for p in par], [p["name"] for p in e["parameters"]]))
        exec("from %s import *" % e["importPath"], ns)
        ns.update(vars(sys.modules[e["importPath"]]))
        for p, q in zip(par, e["parameters"]):
            if q["default"] is None:
                if p.default is not inspect.Parameter.empty:
                    raise Violation("%s: parameter %s is optional, but not in the catalogue" % (name, p.name))
                continue
            if p.default is inspect.Parameter.empty:
                raise Violation("%s: parameter %s is required, but optional in the catalogue" % (name, p.name))
            v = eval(q["default"], dict(ns))
            if v != p.default and repr(v) != repr(p.default):
                raise Violation("%s: default of %s is %r, catalogue says %r" % (name, p.name, p.default, v))


U, H = ("use", False), ("use", True)
SCRIPT = ("script", (U, U, ("rig", 13), U, H, ("toggle",), U, ("morph",), ("tuner", 1), U, ("tempo",), ("away",), U, ("back",), U))
OPS = (U, H, ("rig", 13), ("toggle",), ("morph",), ("tempo",), ("tuner", 1), ("away",))


def sensible(name, a):
    if name == "ROTATING_MESSAGES":
        return ("[[" in a.get("led_colors", "")) == (a.get("num_leds", "1") != "1")         # as its description demands
    if "mapping" in a and ("5000" in (a.get("value_on"), a.get("value_off")) or a.get("max_value") == "10000"):
        return not seven(a["mapping"])                                                     # a control change has 7 bits
    if a.get("rig_off", "None") != "None" and a.get("bank", "None") != "None":
        return a.get("bank_off", "None") != "None"                                         # as its error message demands
    return True


def configs(th):
    return (x for x in all_configs(th) if sensible(x[2], x[3]))


def all_configs(th):
    """(kind, client, name, args, single)"""
    for kind in ("actions", "callbacks"):
        for client, e in entries(kind):
            if target(client, e["name"]) is None and not e.get("target"):
                continue
            b = base(client, e)
            yield kind, client, e["name"], b, True
            opts = {p["name"]: [v for v in values(client, e["name"], p) if v != p["default"] and v != b.get(p["name"])] for p in e["parameters"]}
            for n, vs in opts.items():
                for v in vs:
                    yield kind, client, e["name"], dict(b, **{n: v}), True
            for m, n in combinations(opts, 2):
                if not th and (m in LOOKS or n in LOOKS):
                    continue
                for v, w in product(opts[m], opts[n]):
                    yield kind, client, e["name"], dict(b, **{m: v, n: w}), False


def looks():
    """(kind, client, name, args, reference, parameter)"""
    for client, e in entries("actions"):
        if target(client, e["name"]) is None:
            continue
        b = base(client, e)
        if any(p["name"] == "display" for p in e["parameters"]):
            b["display"] = "DISPLAY_HEADER_1"
        for p in e["parameters"]:
            n = p["name"]
            if n in LED_ONLY + LABEL_ONLY + BOTH:
                for v in values(client, e["name"], p):
                    if v != b.get(n) and sensible(e["name"], dict(b, **{n: v})):
                        yield client, e["name"], dict(b, **{n: v}), b, n


def seven(m):
    """Is the mapping set by a message with 7 bit values?"""
    if m not in _seven:
        env.fresh()
        env.install()
        ns = {}
        exec(HEAD.split("from pyswitch.hardware")[0] + imports(m), ns)
        x = eval(m, ns).set
        _seven[m] = any(type(y).__name__ != "KemperNRPNMessage" for y in (x if isinstance(x, list) else [x]))
    return _seven[m]


_seven = {}


def tasks(tier):
    th = tier != "quick"
    r = []

    def add(name, it, size=400):
        it = list(it)
        for i in range(0, len(it), size):
            r.append((enumerate_cases, (name, Any, {}, it[i:i + size]), {}))

    def ev(kind, client, name, args, *ref):
        return ("config", kind, client, name, tuple(args.items())) + tuple(tuple(x.items()) for x in ref)

    r.append((enumerate_cases, ("catalogue", Catalogue, {}, [[("entry", k, c, e["name"])] for k in ("actions", "callbacks", "mappings") for c, e in entries(k)]), {}))
    all_ = list(configs(True))
    add("options", ([ev(*x[:4]), SCRIPT] for x in all_))
    add("looks", ([ev("actions", c, n, a, b), ("like", p)] for c, n, a, b, p in looks()), 60)
    singles = [x for x in all_ if x[4]]
    add("operations", ([ev(*x[:4])] + list(o) for x in singles for o in product(OPS, repeat=2)), 3000)
    if th:
        add("operations", ([ev(*x[:4])] + list(o) for x in singles for o in product(OPS, repeat=3) if not any(k in LOOKS and v != base_of(x).get(k) for k, v in x[3].items())), 3000)
    return r


def base_of(x):
    return base(x[1], next(e for c, e in entries(x[0]) if c == x[1] and e["name"] == x[2]))
