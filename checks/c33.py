"""C33: contract of display labels: text, wrapping, colours, overriding text, low memory."""
from itertools import product
from mc import env, rig
from mc.rig import flat
from mc.explore import Sys, Violation, bfs, enumerate_cases

BOUNDS = {"quick": "40 layouts (text and background colours, stroke, wrapping, initial text, scale) x with/without callback x enough/low memory: all orders of text, background and "
                   "text colour changes, overriding text, parameter changes, losses and (late) initialisation to depth 5; all background colours in steps of 9 for the automatic text colour",
          "thorough": "depth 6, background colours in steps of 5"}
ASSUMPTIONS = ["a background colour is neither added nor removed after creation (not supported, raises an exception)",
               "backgrounds with several colours: known finding (C33-rainbow)"]
WHITE, BLACK = (255, 255, 255), (0, 0, 0)
BACKS = [(200, 255, 190), (20, 30, 90), (255, 0, 0), (0, 200, 0)]
TEXTS = ["abc", "abcdefghij", 7, ""]


def auto(back):
    if not back:
        return (WHITE,)
    lum = back[0] * 0.2126 + back[1] * 0.7151 + back[2] * 0.0721
    if abs(lum - 140) < 0.05:
        return (WHITE, BLACK)
    return (WHITE,) if lum < 140 else (BLACK,)


def wrap(text, width):
    text = str(text)
    if not text or not width:
        return text
    n = max(1, width // 10)
    return "\n".join(text[i:i + n] for i in range(0, len(text), n))


class Lab(Sys):
    def __init__(self, cfg):
        self.cfg = cfg
        El, U = env.mod("ui.elements"), env.mod("ui.ui")
        self.layout = dict(cfg["layout"], font="/f")
        for k in ("textColor", "backColor"):
            if self.layout.get(k):
                self.layout[k] = tuple(self.layout[k])
        kw = {}
        self.map = None
        if cfg.get("callback"):
            Cl = env.mod("controller.client").ClientParameterMapping
            CC = env.sys.modules["adafruit_midi.control_change"].ControlChange
            self.map = Cl.get(name="c33", response=CC(20, 0), request=CC(21, 0))
            kw["callback"] = env.mod("controller.callbacks.parameter_display").ParameterDisplayCallback(mapping=self.map, default_text="dflt")
        if cfg.get("scale"):
            kw["scale"] = cfg["scale"]
        self.bounds = (11, 13, 101, 37)
        self.label = El.DisplayLabel(layout=dict(self.layout), bounds=U.DisplayBounds(*self.bounds), **kw)
        self.root = El.DisplayElement(bounds=U.DisplayBounds(0, 0, 240, 240))
        self.root.add(self.label)
        self.app = None
        self.low = False
        self.text = str(self.layout.get("text", ""))
        self.back = self.layout.get("backColor")
        self.init_color = self.layout.get("textColor")
        self.color = None if not self.init_color else (self.init_color,)
        self.override = None
        self.value = None
        if not cfg.get("late"):
            self.init()
            self.check(("init",))

    def roots(self):
        return (self.app, self.label, self.root, self.text, self.back, self.color, self.override, self.value, self.low)

    def outcome(self):
        return (self.text, self.back, self.color, self.override)

    def init(self):
        if self.cfg.get("low"):
            env.HW.mem_free = 1024 * 15 - 1
        elif self.cfg.get("edge"):
            env.HW.mem_free = 1024 * 15
        self.app = rig.App([], root=self.root)
        self.low = bool(self.cfg.get("low"))
        if not self.color:
            self.color = auto(self.back)

    def set(self, text):
        self.text = "Low Memory!" if self.low else str(text)

    def content(self):
        return "dflt" if self.value is None else str(self.value)

    def refresh(self):
        if self.override:
            self.set(self.override)
        elif self.map:
            self.set(self.content())

    def events(self):
        ev = [("text", t) for t in TEXTS] + [("color", c) for c in ((1, 2, 3), None)]
        if self.back:
            ev += [("back", c) for c in BACKS[:2]]
        if self.app is None:
            return ev + [("init",)]
        ev += [("over", "OVER"), ("over", None)]
        if self.map:
            ev += [("ans", 5), ("ans", 6), ("lost",)]
        return ev

    def step(self, ev):
        k = ev[0]
        if k == "init":
            self.init()
        elif k == "text":
            self.label.text = ev[1]
            self.set(ev[1])
        elif k == "color":
            self.label.text_color = ev[1]
            self.color = (ev[1],) if ev[1] else auto(self.back)
        elif k == "back":
            self.label.back_color = ev[1]
            if self.back != ev[1]:
                self.back = ev[1]
                # a label without own text colour adapts to the background
                self.color = (self.init_color,) if self.init_color else auto(self.back)
        elif k == "over":
            self.label.override_text = ev[1]
            self.label.update_label()
            self.override = ev[1]
            self.refresh()
        elif k == "ans":
            self.app.update()
            self.app.recv(rig.cc(20, ev[1]))
            self.value = ev[1]
            self.refresh()
        elif k == "lost":
            for _ in range(3):
                self.app.tick(2100)
            # the display falls back to the default when nobody answers
            self.value = None
            self.refresh()
        self.check(ev)

    def check(self, ev):
        l = self.label
        if l.text != self.text:
            raise Violation("%s: text of the label is %r, expected %r" % (ev, l.text, self.text))
        if self.color and l.text_color not in self.color:
            raise Violation("%s: text colour is %s, expected %s" % (ev, l.text_color, self.color))
        if l.back_color != self.back:
            raise Violation("%s: background is %s, expected %s" % (ev, l.back_color, self.back))
        if self.app is None:
            return
        x, y, w, h = self.bounds
        d = flat(self.app.display.tft.shown)
        s = self.layout.get("stroke", 0)
        if self.back:
            if not d or not isinstance(d[0][0], env.Rect):
                raise Violation("%s: no background is drawn below the text" % (ev,))
            r, gx, gy = d.pop(0)
            got = (r.x + gx, r.y + gy, r.width, r.height, r.fill)
            exp = (x + s, y + s, w - 2 * s, h - 2 * s, self.back)
            if got != exp:
                raise Violation("%s: background drawn is %s, expected %s" % (ev, got, exp))
        if len(d) != 1 or not isinstance(d[0][0], env.Label):
            raise Violation("%s: unexpected drawing: %s" % (ev, [type(e[0]).__name__ for e in d]))
        t, gx, gy = d[0]
        exp = wrap(self.text, self.layout.get("maxTextWidth"))
        if t.text != exp:
            raise Violation("%s: %r is drawn, expected %r" % (ev, t.text, exp))
        if t.color not in self.color:
            raise Violation("%s: text is drawn in %s, expected %s" % (ev, t.color, self.color))
        if t.anchor_point != (0.5, 0.5) or (gx + t.anchored_position[0], gy + t.anchored_position[1]) != (x + w // 2, y + h // 2):
            raise Violation("%s: text is not centered in its area: %s + %s" % (ev, (gx, gy), t.anchored_position))
        if t.scale != self.cfg.get("scale", 1) or t.line_spacing != self.layout.get("lineSpacing", 1) or t.font != "font:/f":
            raise Violation("%s: text is drawn with scale %s, line spacing %s, font %s" % (ev, t.scale, t.line_spacing, t.font))


class Auto(Sys):
    """Automatic text colour over all background colours on a grid. Event: (step, phase)."""

    def __init__(self, cfg):
        El, U = env.mod("ui.elements"), env.mod("ui.ui")
        self.label = El.DisplayLabel(layout={"font": "f", "backColor": (1, 1, 1)}, bounds=U.DisplayBounds(0, 0, 50, 20))
        root = El.DisplayElement(bounds=U.DisplayBounds(0, 0, 240, 240))
        root.add(self.label)
        self.app = rig.App([], root=root)
        self.work = 0

    def step(self, ev):
        st, r = ev
        for g, b in product(range(0, 256, st), repeat=2):
            c = (r, g, b)
            self.label.back_color = c
            self.work += 1
            got = flat(self.app.display.tft.shown)[-1][0].color
            if got not in auto(c):
                raise Violation("text on background %s is drawn in %s" % (c, got))


class Rainbow(Sys):
    """Background given as tuple of colours (documented in the README as rainbow background)."""

    def __init__(self, cfg):
        self.cfg = cfg

    def step(self, ev):
        El, U = env.mod("ui.elements"), env.mod("ui.ui")
        colors = ev[1]
        lay = {"font": "f", "backColor": colors, "stroke": 1}
        if ev[0] == "text":
            lay["textColor"] = (1, 2, 3)
        try:
            label = El.DisplayLabel(layout=lay, bounds=U.DisplayBounds(10, 20, 90, 30))
            root = El.DisplayElement(bounds=U.DisplayBounds(0, 0, 240, 240))
            root.add(label)
            app = rig.App([], root=root)
            d = [e[0].fill for e in flat(app.display.tft.shown) if isinstance(e[0], env.Rect)]
        except Exception as e:
            raise Violation("rainbow background: a label with several background colours can't be shown: %s" % type(e).__name__)
        if not set(colors) <= set(d):
            raise Violation("rainbow background: a label with background colours %s is drawn with %s" % (colors, d))


def tasks(tier):
    th = tier != "quick"
    r = []
    st = 5 if th else 9
    cs = [[(st, x)] for x in range(0, 256, st)]
    for i in range(4):
        r.append((enumerate_cases, ("auto", Auto, {}, cs[i::4]), {}))
    lay = []
    for tc, bc in product((None, (9, 99, 199)), (None, (0, 0, 0), (255, 255, 0), (20, 30, 90))):
        lay += [dict(textColor=tc, backColor=bc, stroke=1, text="init"), dict(textColor=tc, backColor=bc, maxTextWidth=40)]
    lay += [dict(backColor=(1, 2, 3), stroke=3, maxTextWidth=55, lineSpacing=0.7, text="initial text"), {}, dict(text=12)]
    RB = ((0, 255, 0), (255, 255, 0), (255, 0, 0))
    for k in ("auto", "text"):
        for n in (2, 3):
            r.append((enumerate_cases, ("rainbow", Rainbow, {}, [[(k, RB[:n])]]), {}))
    d = 6 if th else 5
    for i, l in enumerate(lay):
        for o in ({}, {"callback": 1}, {"late": 1}, {"low": 1}):
            c = dict(o, layout=l)
            if i % 3 == 0:
                c["scale"] = 3
            if i % 2 and not o:
                c["edge"] = 1
            if o.get("low"):
                c["callback"] = i % 2
                c["late"] = i % 3 == 1
            r.append((bfs, ("label", Lab, c, d), {"time_limit": 500}))
    return r
