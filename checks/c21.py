"""C21: morph button and morph state displays."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs
from checks.nav import Device, NR

BOUNDS = {"quick": "morph button, morph display, rig selection with morph state (toggling or momentary, always or only for the selected rig) alone and combined; "
                   "presses, releases, morph and rig changes at the device, lost answers, page changes in every order, depth 5-7; all 16384 morph values",
          "thorough": "same, depth 7-9"}
ASSUMPTIONS = ["the device answers morph state requests with its current value; after the displays of a rig selection got active, the first changed value "
               "may or may not be taken over (documented in the code)"]
A, B = (200, 40, 0), (0, 90, 250)
RED, BLUE = (255, 0, 0), (0, 0, 255)
VALS = (0, 16383, 5000)


def blend(a, b, v):
    return tuple(x + int((y - x) * (v / 16383)) for x, y in zip(a, b))


def near(a, b):
    return len(a) == 3 and all(abs(x - y) <= 1 for x, y in zip(a, b))


class Morph(Sys):
    """cfg: acts: [(kind, kw)], page: bool"""

    def __init__(self, cfg):
        self.cfg = cfg
        M = env.mod("clients.kemper.actions.morph")
        RM = env.mod("clients.kemper.actions.rig_select_and_morph_state").RIG_SELECT_AND_MORPH_STATE
        RS = env.mod("clients.kemper.actions.rig_select").RIG_SELECT
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        lay = {"font": "f", "backColor": (9, 9, 9)}
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        page = None
        if cfg.get("page"):
            page = env.mod("clients.local.actions.pager").PagerAction(pages=[{"id": 1}, {"id": 2}])
        self.labels, inputs = [], []
        for i, (k, kw) in enumerate(cfg["acts"]):
            l = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 20 * i, 100, 20), layout=lay)
            root.add(l)
            self.labels.append(l)
            kw = dict(kw)
            if page and i == 0:
                kw.update(id=1, enable_callback=page.enable_callback)
            if k == "btn":
                a = M.MORPH_BUTTON(display=l, **kw)
            elif k == "disp":
                a = M.MORPH_DISPLAY(display=l, **kw)
            elif k == "rigm":
                a = RM(morph_display=l, **kw)
            else:
                a = RS(display=l, **kw)
            inputs.append((rig.Switch(), {"actions": [a]}))
        if page:
            inputs.append((rig.Switch(), {"actions": [page]}))
        self.app = rig.App(inputs, root=root)
        self.n = len(self.labels)
        self.d = Device(7)
        self.raw = cfg.get("raw", 0)
        self.M = {0}
        self.seen = [None] * self.n        # raw value a display has taken last
        self.maybe = [True] * self.n       # may ignore the next changed value
        self.act = [None] * self.n
        self.en = True
        self.tgt = [None] * self.n
        self.lost = False
        self.last = None
        self.d.announce()
        self.settle()
        self.check(("start",))

    def roots(self):
        return (self.app, self.labels, self.d.rig, self.raw, sorted(self.M), self.seen, self.maybe, self.act, self.en, self.tgt)

    def events(self):
        ev = [("rel" if self.app.hw[i].pushed else "push", i) for i in range(self.n)]
        ev += [("raw", v) for v in VALS if v != self.raw]
        if any(k in ("rigm", "rig") for k, _ in self.cfg["acts"]):
            ev += [("dev", r) for r in (7, 8, 2) if r != self.d.rig]
        if self.cfg.get("page") and not any(h.pushed for h in self.app.hw):
            ev.append(("page",))
        return ev

    def active(self, i):
        k, kw = self.cfg["acts"][i]
        if i == 0 and self.cfg.get("page") and not self.en:
            return False
        if k == "rig":
            return None
        if k == "rigm" and kw.get("morph_only_when_enabled", True):
            return self.d.rig % NR == kw["rig"] - 1 and (not kw.get("bank") or self.d.rig // NR == kw["bank"] - 1)
        return True

    def settle(self):
        got = []
        for r in range(3):
            self.app.tick(201 if r else 0)
            for _ in range(5):
                s = self.app.sent()
                if not s and not self.d.out:
                    break
                for m in s:
                    if m == rig.k_req_single(0, 11):
                        self.d.out.append(rig.k_single(0, 11, self.raw))
                    else:
                        got.append(m)
                        self.d.receive(m)
                out, self.d.out = self.d.out, []
                for o in out:
                    self.app.feed(o)
                self.app.tick(0)
                self.app.tick(0)
        return got

    def possible(self):
        """What the displays may make of the value of the device"""
        for i in range(self.n):
            a = self.active(i)
            if a is None:
                continue
            if a != self.act[i]:
                self.act[i] = a
                if self.cfg["acts"][i][0] == "rigm":
                    self.maybe[i] = True
        act = [i for i in range(self.n) if self.act[i] and self.seen[i] != self.raw]
        if act:
            sure = any(not self.maybe[i] or self.cfg["acts"][i][0] != "rigm" for i in act)
            late = [i for i in act if self.maybe[i]]
            self.M = {self.raw} if sure else self.M | {self.raw}
            for i in act:
                self.seen[i] = self.raw
                self.maybe[i] = False if sure and self.cfg["acts"][i][0] != "rigm" else self.maybe[i] and False

    def toggle(self):
        self.M = {0 if m > 0 else 16383 for m in self.M}

    def step(self, ev):
        k = ev[0]
        exp = []
        a = self.app
        if k in ("push", "rel"):
            i = ev[1]
            a.hw[i].pushed = k == "push"
            kind, kw = self.cfg["acts"][i]
            on = i or self.en
            if not on:
                pass
            elif kind == "btn":
                exp = [("cc", 80, 1 if k == "push" else 0)]
                if k == "push":
                    self.toggle()
            elif kind in ("rigm", "rig"):
                r = kw["rig"]
                if k == "push":
                    cur = self.d.rig % NR == r - 1 and (not kw.get("bank") or self.d.rig // NR == kw["bank"] - 1)
                    if kw.get("rig_btn_morph") and kw.get("rig_off") is None and cur:
                        if kw.get("momentary_morph"):
                            self.M = {16383}
                        else:
                            self.toggle()
                    else:
                        self.M = {0}
                    if kw.get("bank"):
                        exp.append(("cc", 47, kw["bank"] - 1))
                    tgt = r
                    if kw.get("rig_off") and cur:
                        tgt = kw["rig_off"]
                    exp.append(("cc", 49 + tgt, 1))
                    self.tgt[i] = tgt
                else:
                    exp = [("cc", 49 + self.tgt[i], 0)]
                    if kw.get("rig_btn_morph") and kw.get("rig_off") is None and kw.get("momentary_morph"):
                        if self.d.rig % NR == r - 1 and (not kw.get("bank") or self.d.rig // NR == kw["bank"] - 1):
                            self.M = {0}
                        else:
                            # the rig has been changed at the device meanwhile: not documented
                            self.M = self.M | {0}
        elif k == "raw":
            self.raw = ev[1]
        elif k == "dev":
            self.d.goto(ev[1])
        elif k == "page":
            a.hw[self.n].pushed = True
            a.tick(0)
            a.hw[self.n].pushed = False
            self.en = not self.en
        got = self.settle()
        if got != exp:
            raise Violation("%s: sent %s, expected %s" % (ev, got, exp))
        self.possible()
        self.check(ev)

    def color(self, i, m):
        k, kw = self.cfg["acts"][i]
        if kw.get("color"):
            return kw["color"]
        return blend(kw.get("morph_color_base", RED), kw.get("morph_color_morphed", BLUE), m)

    def check(self, ev):
        if ev[0] == "start":
            self.possible()
            if len(self.M) > 1:
                self.M = {0, self.raw}
        ok = set()
        got = []
        vis = [i for i in range(self.n) if self.act[i] and self.cfg["acts"][i][0] != "rig"]
        for m in self.M:
            good = True
            for i in vis:
                c = self.color(i, m)
                if not near(self.labels[i].back_color, c):
                    good = False
                if self.cfg["acts"][i][0] != "rigm":
                    if any(not near(x, [int(y * 0.3) for y in c]) for x in self.app.led(i)):
                        good = False
                if self.cfg["acts"][i][0] != "rigm" and self.labels[i].text != self.cfg["acts"][i][1].get("text", "Morph"):
                    good = False
            if good:
                ok.add(m)
        if not ok:
            raise Violation("%s: displays show %s, LEDs %s; morph state should be %s" % (
                ev, [(self.labels[i].text, self.labels[i].back_color) for i in vis], self.app.leds.leds, sorted(self.M)))
        self.M = ok
        self.last = (ev[0], tuple(sorted(ok)))

    def outcome(self):
        return self.last


class Sweep(Morph):
    """all values of the device"""

    def events(self):
        return []

    def step(self, ev):
        self.work = getattr(self, "work", 0)
        for v in ev[1]:
            self.work += 1
            self.raw = v
            self.settle()
            self.M = {v}
            self.check(("raw", v))


def tasks(tier):
    from mc.explore import enumerate_cases
    th = tier == "thorough"
    r = []
    C = {"morph_color_base": A, "morph_color_morphed": B}

    def add(d, *acts, **kw):
        r.append((bfs, ("morph", Morph, dict(acts=list(acts), **kw), d + (2 if th else 0)), {"time_limit": 250 if th else 60}))
    btn, disp = ("btn", {}), ("disp", C)
    add(7, btn)
    add(7, ("btn", dict(C, text="foo")), raw=5000)
    add(7, ("btn", dict(color=(10, 20, 30))))
    add(7, disp)
    add(6, btn, disp)
    add(6, btn, disp, page=1)
    add(6, disp, btn, page=1)
    for o in ({}, {"rig_btn_morph": True}, {"rig_btn_morph": True, "momentary_morph": True}):
        for p in ({}, {"morph_only_when_enabled": False}, {"rig_off": 5}, {"bank": 2}):
            add(5, ("rigm", dict(C, rig=3, **o, **p)), ("rig", dict(rig=4)))
        add(5, ("rigm", dict(C, rig=3, **o)), ("rigm", dict(rig=4, **o)))
        add(5, ("rigm", dict(C, rig=3, **o)), btn)
        add(5, ("rigm", dict(C, rig=3, **o)), disp)
        add(5, ("rig", dict(rig=3, **o)), disp)
    for a in (btn, ("disp", {}), disp):
        r.append((enumerate_cases, ("morph-values", Sweep, {"acts": [a]}, [(("sweep", list(range(1, 16384)) + [7, 0]),)]), {}))
    return r
