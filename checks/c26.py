"""C26: tuner display (note, deviance) and strobe tuner."""
from itertools import permutations

from mc import env, rig
from mc.env import Clock
from mc.explore import Sys, Violation, bfs, enumerate_cases

BOUNDS = {"quick": "tuner display: all 16384 deviance values rising and falling, all 128 notes, over 12 layouts/calibrations/note name sets; strobe: all orders of "
                   "deviance reports (in tune, low, high, extreme), waiting times below/above the frame period, tuner off/on and repeated reports for "
                   "11 settings with 1-5 switches and every order of 3 and 4 switches, depth 6",
          "thorough": "same, strobe depth 8"}
ASSUMPTIONS = ["the device reports note and deviance while the tuner is engaged (bidirectional mode)",
               "the parameters of the switches do not change while the strobe uses their LEDs"]
CACHE = {}
NAMES = ('C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B')
IN, OUT, NEU = (0, 200, 10), (200, 100, 0), (240, 240, 240)


def dv(v):
    return rig.k_single(0x7c, 0x0f, v)


def note(v):
    return rig.k_single(0x7d, 0x54, v)


def state(v):
    return rig.k_single(0x7f, 0x7e, v)


def flat(g):
    r = []
    for x in g.content:
        r += flat(x) if hasattr(x, "content") else [x]
    return r


class Disp(Sys):
    """cfg: kind (callback|element), bounds, kw; step ('sweep', values) feeds all of them"""

    def __init__(self, cfg):
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        K = env.mod("clients.kemper")
        self.cfg = cfg
        self.b = cfg["bounds"]
        B = Ui.DisplayBounds(*self.b)
        kw = dict(cfg.get("kw", {}), color_in_tune=IN, color_out_of_tune=OUT, color_neutral=NEU)
        self.lo, self.hi = kw.get("calibration_low", 8192 - 350), kw.get("calibration_high", 8192 + 350)
        self.names = kw.get("note_names") or NAMES
        self.width = kw.get("deviance_width", 5)
        self.height = kw.get("deviance_height", 40)
        self.zoom = kw.get("deviance_zoom", 2.4)
        root = El.DisplayElement(bounds=B)
        if cfg["kind"] == "callback":
            sp = K.TunerDisplayCallback(splash_default=root, **kw)
        else:
            M = K.KemperMappings
            a = dict(mapping_note=M.TUNER_NOTE(), mapping_deviance=M.TUNER_DEVIANCE())
            for x in cfg.get("without", ()):
                del a[x]
            t = El.TunerDisplay(bounds=B, layout={"font": "f"}, scale=2, **a, **kw)
            sp = K.TunerDisplayCallback(splash_default=root, splash_tuner=t)
        self.app = rig.App([(rig.Switch(), {"actions": []})], root=root, splash=sp)
        self.app.recv(state(1))
        self.work = 0
        els = flat(self.app.display.tft.shown)
        R = env.Rect
        rects = [e for e in els if isinstance(e, R) and e.width == self.width and e.height == self.height]
        self.labels = [e for e in els if isinstance(e, env.Label)]
        dev = "mapping_deviance" not in cfg.get("without", ())
        if len(rects) != (2 if dev else 0) or len(self.labels) != (0 if "mapping_note" in cfg.get("without", ()) else 1):
            raise Violation("tuner display has %s bars and %s labels" % (len(rects), len(self.labels)))
        if dev:
            self.mark0, self.mark = rects
        self.x = None
        self.name = None
        self.dev = dev

    def events(self):
        return []

    def step(self, ev):
        for v in ev[1]:
            self.work += 1
            if ev[0] == "note":
                self.app.feed(note(v))
                self.app.tick(1)
                self.name = self.names[v % 12]
            else:
                self.app.feed(dv(v))
                self.app.tick(1)
                if self.dev:
                    self.check(v)
            if self.labels and self.name is not None and self.labels[0].text != self.name:
                raise Violation("note shown: %r, expected %r" % (self.labels[0].text, self.name))
        if self.app.port.inq:
            raise Violation("messages left unread")

    def check(self, v):
        bx, by, bw, bh = self.b
        m, x = self.mark, self.mark.x
        if not (bx <= x and x + self.width <= bx + bw and m.y == by + bh - self.height):
            raise Violation("deviance %s: marker at %s (width %s) leaves the bounds %s" % (v, x, self.width, self.b))
        off = max(-8192, min((v - 8192) * self.zoom, 8192)) / 16384
        exp = bx + (bw - self.width) * (0.5 + off)
        if abs(x - exp) > 2.01:
            raise Violation("deviance %s: marker at %s, expected about %.1f" % (v, x, exp))
        if abs(self.mark0.x - (bx + (bw - self.width) / 2)) > 1.01:
            raise Violation("in tune mark is not centered: %s" % self.mark0.x)
        if self.x is not None and (x - self.x[1]) * (v - self.x[0]) < 0:
            raise Violation("marker moves the wrong way: %s at deviance %s, %s at %s" % (self.x[1], self.x[0], x, v))
        self.x = (v, x)
        col = IN if self.lo <= v <= self.hi else OUT
        if m.fill != col and not (v == 8192 and self.first):
            raise Violation("deviance %s: marker colour %s, expected %s" % (v, m.fill, col))
        if self.labels and self.labels[0].color != hexc(col) and not (v == 8192 and self.first):
            raise Violation("deviance %s: note colour %s, expected %s" % (v, self.labels[0].color, col))
        if v != 8192:
            self.first = False

    first = True      # 8192 is the initial state of the display

    def outcome(self):
        return (self.name, self.x)


def hexc(c):
    return c


class Strobe(Sys):
    """cfg: n, orders, kw, process"""
    GRID = 480
    COLOR = (200, 100, 60)

    def __init__(self, cfg):
        self.cfg = cfg
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        K = env.mod("clients.kemper")
        CM = env.mod("clients.local.actions.custom").CUSTOM_MESSAGE
        kw = dict(cfg.get("kw", {}))
        self.dim = kw.setdefault("strobe_dim", 0.8)
        kw.setdefault("strobe_color", self.COLOR)
        self.col = kw["strobe_color"]
        self.speed = kw.get("strobe_speed", 1000)
        self.fps = kw.get("strobe_max_fps", 120)
        self.rev = kw.get("strobe_reverse", True)
        self.proc = cfg.get("process", False)
        self.n = cfg["n"]
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        sp = K.TunerDisplayCallback(splash_default=root, strobe=True, process_overridden_actions=self.proc, **kw)
        inputs = [(rig.Switch(), {"actions": [CM(message=(0xb0, 50 + i, 1), color=(0, 90, 250))]}) for i in range(self.n)]
        inputs.append((rig.Pot(0), {"actions": []}))
        orders = cfg.get("orders", list(range(self.n)))
        self.order = sorted(range(self.n), key=lambda i: orders[i])
        self.app = rig.App(inputs, root=root, splash=sp, strobe_orders=orders + [0])
        self.app.tick(201)
        self.normal = [tuple(x) for x in self.app.leds.leds]
        self.period = int(1000 / self.fps * self.n)
        self.on = False
        self.t = 0                 # time since the last change of the LEDs (or tuner on)
        self.S = None              # possible positions of the spot
        self.lit = False           # LEDs show the strobe
        self.last = None
        self.step(("on",))

    def roots(self):
        return (self.app, self.on, self.t, self.lit, sorted(self.S) if self.S is not None else None)

    def events(self):
        if not self.on:
            return [("on",), ("dv", 16383, 40)]
        s, l = self.period // 3 + 1, self.period + 5
        return [("dv", v, d) for v in self.cfg.get("vals", (0, 8192, 9000)) for d in (s, l)] + [("off",), ("on",)]

    def leds(self):
        r = [tuple(x) for x in self.app.leds.leds]
        out = []
        for i in self.order:
            seg = r[3 * i:3 * i + 3]
            if len(set(seg)) != 1:
                raise Violation("the LEDs of switch %s differ: %s" % (i, seg))
            out.append(seg[0])
        return out

    def ks(self, led):
        r = [k for k in range(17) if all(abs(int(c * (k / 16) ** 2 * self.dim + 1e-9) - x) <= 1 for c, x in zip(self.col, led))]
        if not r:
            raise Violation("LED shows %s, which is no brightness of the strobe color %s (dim %s)" % (led, self.col, self.dim))
        return r

    def fit(self, leds):
        key = (self.n, self.col, self.dim, tuple(leds))
        if key not in CACHE:
            CACHE[key] = frozenset(self.fit1(leds))
        return set(CACHE[key])

    def fit1(self, leds):
        ks = [self.ks(l) for l in leds]
        G = self.GRID
        S = set()
        for g in range(G):
            ok = True
            for i in range(self.n):
                d = (g / G - i / self.n) % 1.0
                d = min(d, 1 - d)
                b = max(0.0, 1 - d / 0.3)
                if not any(k / 16 - 0.02 <= b <= (k + 1) / 16 + 0.02 for k in ks[i]):
                    ok = False
                    break
            if ok:
                S.add(g)
        return S

    def step(self, ev):
        a = self.app
        before = self.leds()
        if ev[0] == "on":
            a.feed(state(1))
            a.tick(0)
            if not self.on:
                self.S = None
            self.on, self.t = True, 0
            now = self.leds()
            if not self.proc:
                if any(x != (0, 0, 0) for x in now) and not self.lit:
                    raise Violation("LEDs not dark when the tuner is engaged: %s" % now)
            self.lit = False
        elif ev[0] == "off":
            a.feed(state(0))
            a.tick(0)
            self.on = self.lit = False
            if [tuple(x) for x in a.leds.leds] != self.normal:
                raise Violation("LEDs after the tuner mode: %s, expected %s" % (a.leds.leds, self.normal))
        else:
            v, dt = ev[1:]
            a.feed(dv(v))
            a.tick(dt)
            now = self.leds()
            self.t += dt
            if not self.on or self.n < 2:
                if now != before:
                    raise Violation("%s: LEDs changed without strobe: %s" % (ev, now))
                self.t = min(self.t, 1000)
            elif self.t <= self.period:
                if now != before:
                    raise Violation("%s: LEDs changed after %s ms, frame period is %s" % (ev, self.t, self.period))
            else:
                # in this direction (clockwise is ascending)
                d = v - 8191
                e = min(abs(d), 100 * self.period) * self.t / (self.speed * 2000) * self.GRID
                lo, hi = 0.5 * e - 2, 2 * e + 2
                sign = (1 if d > 0 else -1) * (-1 if self.rev else 1)
                S = self.fit(now)
                if self.S is not None:
                    mv = range(int(lo) if lo > -2 else -2, int(hi) + 1)
                    reach = {(g + sign * m) % self.GRID for g in self.S for m in mv}
                    S2 = S & reach
                    if not S2:
                        raise Violation("%s: strobe %s: spot moved from %s to %s, expected %s by %.1f of %s" % (
                            ev, now, span(self.S), span(S), "clockwise" if sign > 0 else "counter clockwise", e, self.GRID))
                    S = S2
                if not S:
                    raise Violation("%s: the LEDs show no running spot: %s" % (ev, now))
                self.S = S
                self.t = 0
                self.lit = True
        self.last = tuple(self.leds())

    def outcome(self):
        return self.last


def span(S):
    return "%s..%s" % (min(S), max(S)) if S else "nothing"


def tasks(tier):
    th = tier == "thorough"
    r = []
    up = list(range(16384))
    ntimes = list(range(128)) + list(range(127, -1, -5))
    for cfg in ({"kind": "callback", "bounds": (0, 0, 240, 240)},
                {"kind": "callback", "bounds": (10, 20, 220, 200), "kw": {"calibration_high": 8500, "calibration_low": 8000}},
                {"kind": "callback", "bounds": (0, 0, 240, 240), "kw": {"note_names": ["n%d" % i for i in range(12)]}},
                {"kind": "element", "bounds": (20, 30, 200, 150), "kw": {"deviance_zoom": 1}},
                {"kind": "element", "bounds": (20, 30, 201, 150), "kw": {"deviance_zoom": 1, "deviance_width": 8, "deviance_height": 17}},
                {"kind": "element", "bounds": (5, 0, 100, 150), "kw": {"deviance_zoom": 10, "deviance_width": 1}},
                {"kind": "element", "bounds": (0, 0, 320, 240), "kw": {"deviance_zoom": 0.5, "calibration_high": 9000, "calibration_low": 8192}},
                {"kind": "element", "bounds": (1, 1, 240, 100), "without": ("mapping_note",)},
                {"kind": "element", "bounds": (1, 1, 240, 100), "kw": {"note_names": tuple("abcdefghijkl")}, "without": ("mapping_deviance",)}):
        cases = [(("dv", up), ("note", ntimes), ("dv", up[::-1])), (("note", [69]), ("dv", [0, 16383, 8192, 8191, 8193, 0, 8192, 16383, 0]), ("note", [0, 127, 1]))]
        r.append((enumerate_cases, ("tuner-display", Disp, cfg, cases), {}))
    for cfg in ({"n": 4}, {"n": 4, "orders": [2, 0, 3, 1]}, {"n": 3, "kw": {"strobe_reverse": False}}, {"n": 2, "kw": {"strobe_speed": 300}},
                {"n": 1}, {"n": 5, "kw": {"strobe_max_fps": 60, "strobe_color": (255, 255, 255), "strobe_dim": 1}, "orders": [4, 3, 2, 1, 0]},
                {"n": 4, "process": 1}, {"n": 3, "process": 1, "kw": {"strobe_reverse": False}},
                {"n": 4, "vals": (7000, 8192, 16383)}, {"n": 6, "vals": (7900, 8400)}, {"n": 3, "vals": (7900, 8400, 8191), "kw": {"strobe_speed": 100, "strobe_max_fps": 300}}):
        r.append((bfs, ("strobe", Strobe, cfg, 8 if th else 6), {"time_limit": 250 if th else 60}))
    for n in (3, 4):
        for o in permutations(range(n)):
            r.append((bfs, ("strobe-order", Strobe, {"n": n, "orders": list(o), "vals": (7900, 9000)}, 5 if th else 3), {"time_limit": 60}))
    return r
