"""C22: effect slot displays: effect type, colour and state of the slot."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs, enumerate_cases

BOUNDS = {"quick": "all 16384 effect type values for normal and extended names, slot names, fixed text and colour; effect slots, effect buttons and fixed effects: type "
                   "and state changes at the device in both orders, rig changes, presses, page changes, lost answers, polled and bidirectional, depth 8-9",
          "thorough": "same, depth 10-11"}
ASSUMPTIONS = ["the device reports its type and state; effect types and their families as in the MIDI documentation of the device"]

ORANGE, RED, CYAN, GREEN, BLUE, PURPLE, YELLOW, PINK, WHITE, LG = range(10)
FAM = {"Wah": ORANGE, "Dist": RED, "Comp": CYAN, "Gate": CYAN, "Space": GREEN, "Chorus": BLUE, "Phaser": PURPLE, "EQ": YELLOW, "Boost": RED, "Looper": PINK,
       "Pitch": WHITE, "Dual": LG, "Delay": GREEN, "Reverb": GREEN, "Tremolo": BLUE, "Rotary": BLUE, "Vibrato": BLUE, "Slicer": BLUE}
TYPES = {0: "-", 11: "Pitch", 49: "Comp", 50: "Comp", 57: "Gate", 58: "Gate", 64: "Space", 65: "Chorus", 66: "Chorus", 67: "Chorus", 71: "Chorus", 68: "Vibrato", 69: "Rotary",
         70: "Tremolo", 75: "Tremolo", 76: "Tremolo", 81: "Phaser", 82: "Phaser", 83: "Phaser", 89: "Phaser", 91: "Phaser"}
for _n, _r in (("Wah", (1, 2, 3, 4, 6, 7, 8, 9, 10, 12, 13)), ("Dist", (17, 18, 19, 20, 21, 32, 33, 34, 35, 36, 37, 38, 39, 42)), ("Slicer", range(77, 81)),
               ("EQ", range(97, 105)), ("Boost", range(113, 117)), ("Looper", range(121, 124)), ("Pitch", range(129, 133)), ("Dual", range(137, 141)),
               ("Delay", list(range(145, 153)) + list(range(161, 167))), ("Reverb", list(range(177, 184)) + [193])):
    for _t in _r:
        TYPES[_t] = _n


def colors():
    C = env.mod("colors").Colors
    return [C.ORANGE, C.RED, C.CYAN, C.GREEN, C.BLUE, C.PURPLE, C.YELLOW, C.PINK, C.WHITE, C.LIGHT_GREEN]


SLOTS = [("A", 17, 0x32), ("B", 18, 0x33), ("C", 19, 0x34), ("D", 20, 0x35), ("X", 22, 0x38), ("MOD", 24, 0x3a), ("DLY", 27, 0x3c), ("REV", 29, 0x3d),
         ("DLYns", 26, 0x3c), ("REVns", 28, 0x3d)]
FIXED = [("Transpose", 1, WHITE), ("Gate", 6, None), ("Comp", 11, BLUE), ("Boost", 16, RED), ("Wah", 21, ORANGE), ("Chorus", 26, BLUE), ("Air", 36, BLUE), ("Doubler", 41, BLUE)]


class Fx(Sys):
    """cfg: kind (slot|ext), slot, kw, bi, page, start (type, state)"""

    def __init__(self, cfg):
        self.cfg = cfg
        K = env.mod("clients.kemper")
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        A = env.mod("controller.actions").PushButtonAction
        self.label = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 100, 20), layout={"font": "f", "backColor": (9, 9, 9)})
        self.col = colors()
        self.kw = kw = dict(cfg.get("kw", {}))
        self.name, self.cc, self.pg = SLOTS[cfg.get("slot", 0)]
        self.bi = cfg.get("bi", False)
        page = None
        x = {}
        if cfg.get("page"):
            page = env.mod("clients.local.actions.pager").PagerAction(pages=[{"id": 1}, {"id": 2}])
            x = {"id": 1, "enable_callback": page.enable_callback}
        self.ext = cfg["kind"] == "ext"
        if self.ext:
            m = env.mod("clients.kemper.actions.effect_state_extended_names")
            f = m.EFFECT_STATE_EXT
        else:
            f = env.mod("clients.kemper.actions.effect_state").EFFECT_STATE
        a = f(slot_id=cfg.get("slot", 0), display=self.label, mode=A.LATCH, **kw, **x)
        acts = [a]
        # another slot on the other page, using the same display and LEDs
        self.two = cfg.get("two")
        self.t2, self.s2 = self.two[1:] if self.two else (None, None)
        if self.two:
            self.pg2 = SLOTS[self.two[0]][2]
            acts.append(f(slot_id=self.two[0], display=self.label, mode=A.LATCH, id=2, enable_callback=page.enable_callback))
        inputs = [(rig.Switch(), {"actions": acts})]
        if page:
            inputs.append((rig.Switch(), {"actions": [page]}))
        prot = K.KemperBidirectionalProtocol(time_lease_seconds=30) if self.bi else None
        self.app = rig.App(inputs, root=self.label, protocol=prot)
        self.en = True
        self.t, self.s = cfg.get("start", (0, 0))
        self.pressed = None           # state set by a press which has not been reported yet
        self.kt, self.ks = None, None
        self.last = None
        if self.bi:
            self.app.update()
            self.app.recv(rig.k_sense())
            self.app.sent()
            self.app.recv(rig.k_single(self.pg, 0, self.t))
            self.app.recv(rig.k_single(self.pg, 3, self.s))
            if self.two:
                self.app.recv(rig.k_single(self.pg2, 0, self.t2))
                self.app.recv(rig.k_single(self.pg2, 3, self.s2))
            self.kt, self.ks = self.t, self.s
        self.settle()
        self.check(("start",))

    def roots(self):
        return (self.app, self.label, self.en, self.t, self.s, self.kt, self.ks, self.pressed)

    def events(self):
        ev = [("tap",)] if self.en or not self.two else []
        ev += [("type", t) for t in self.cfg.get("types", (0, 33, 145)) if t != self.t]
        ev.append(("state", 1 - self.s))
        if self.cfg.get("both", True):
            ev += [("rig", t, s) for t, s in ((0, 0), (0, 1), (33, 1), (145, 0)) if (t, s) != (self.t, self.s)]
        if self.cfg.get("page"):
            ev.append(("page",))
        if not self.bi:
            ev.append(("lost",))
        return ev

    def settle(self, lost=False):
        got = []
        if self.bi:
            # no poll: what the device has reported is on the wire already
            self.app.tick(0)
            self.app.tick(0)
            for m in self.app.sent():
                if m[0] == "cc":
                    got.append(m)
                    self.s = self.ks = m[2]
            return got
        for r in range(3):
            self.app.tick(201 if r or lost else 0)
            s = self.app.sent()
            for m in s:
                if m == rig.k_req_single(self.pg, 0):
                    if not lost:
                        self.app.feed(rig.k_single(self.pg, 0, self.t))
                        self.kt = self.t
                elif self.two and m == rig.k_req_single(self.pg2, 0):
                    if not lost:
                        self.app.feed(rig.k_single(self.pg2, 0, self.t2))
                elif self.two and m == rig.k_req_single(self.pg2, 3):
                    if not lost:
                        self.app.feed(rig.k_single(self.pg2, 3, self.s2))
                elif m == rig.k_req_single(self.pg, 3):
                    if not lost:
                        self.app.feed(rig.k_single(self.pg, 3, self.s))
                        self.ks = self.s
                else:
                    got.append(m)
                    if m[0] == "cc":
                        self.s = m[2]
            self.app.tick(0)
            self.app.tick(0)
        return got

    def step(self, ev):
        a = self.app
        k = ev[0]
        exp = None
        if k == "tap":
            a.hw[0].pushed = True
            a.tick(0)
            a.hw[0].pushed = False
        elif k == "type":
            self.t = ev[1]
            if self.bi:
                a.feed(rig.k_single(self.pg, 0, self.t))
                self.kt = self.t
        elif k == "state":
            self.s = ev[1]
            if self.bi:
                a.feed(rig.k_single(self.pg, 3, self.s))
                self.ks = self.s
        elif k == "rig":
            self.t, self.s = ev[1:]
            if self.bi:
                a.feed(rig.k_single(self.pg, 0, self.t))
                a.feed(rig.k_single(self.pg, 3, self.s))
                self.kt, self.ks = self.t, self.s
        elif k == "page":
            a.hw[1].pushed = True
            a.tick(0)
            a.hw[1].pushed = False
            a.tick(0)
            self.en = not self.en
        elif k == "lost":
            shown = (self.label.text, self.label.back_color)
            for _ in range(10):
                a.tick(1001)
                got = self.settle(lost=True)
                if got:
                    raise Violation("%s: messages sent without a press: %s" % (ev, got))
            if self.en:
                self.kt = self.ks = None
                self.check(ev)
        before_on = self.shown_on
        got = self.settle()
        if k == "tap" and self.en:
            if len(got) != 1 or got[0][:2] != ("cc", self.cc) or got[0][2] not in (0, 1) or (before_on is not None and got[0][2] != 1 - before_on):
                raise Violation("press while shown %s: sent %s" % ("on" if before_on else "off", got))
        elif got:
            raise Violation("%s: messages sent: %s" % (ev, got))
        if self.en:
            self.check(ev)
        elif self.two:
            kw, self.kw = self.kw, {}
            try:
                self.check(ev, self.t2, self.s2)
            finally:
                self.kw = kw

    shown_on = 0

    def check(self, ev, kt=-1, ks=-1):
        kt, ks = (self.kt, self.ks) if kt == -1 else (kt, ks)
        on, col, txt = self.expect(kt, ks)
        led = [tuple(x) for x in self.app.led(0)]
        lab = (self.label.text, tuple(self.label.back_color))
        ok = []
        for c, t in zip(col, txt):
            for f, d in (((0.3, 1),) if on else ((0.02, 0.2),)):
                if led == [tuple(int(x * f) for x in c)] * 3 and lab == (t, tuple(int(x * d) for x in c)):
                    ok.append(1)
        if not ok:
            raise Violation("%s: type %s, state %s: shown %s, LEDs %s; expected %s, %s, %s" % (ev, kt, ks, lab, led, "on" if on else "off", txt, col))
        self.shown_on = int(on)
        self.last = (lab, on)

    def expect(self, t, s):
        """-> on, possible colours, possible texts (pairwise)"""
        fam = [TYPES[t]] if t in TYPES else (["-"] if t is None else ["-"] + sorted(FAM))
        on = bool(s) and fam[0] != "-"
        if t is not None and t not in TYPES:
            # not documented: any family, but consistently
            on = bool(s) and self.label.text not in self.none_texts()
        D = env.mod("colors").DEFAULT_LABEL_COLOR
        cols, txts = [], []
        pre = self.name + " " if self.kw.get("show_slot_names") else ""
        for f in fam:
            c = self.kw.get("color") or (self.col[FAM[f]] if f in FAM else D)
            n = f
            if self.ext and t is not None:
                n = self.extname(t) or f
            if t is None:
                n = None
            cols.append(c)
            txts.append(self.kw.get("text") or (pre + n if n is not None else self.label.text))
        return on, cols, txts

    def none_texts(self):
        pre = self.name + " " if self.kw.get("show_slot_names") else ""
        return (pre + "-",)

    def extname(self, t):
        return env.mod("clients.kemper.actions.effect_state_extended_names")._EFFECT_TYPE_NAMES.get(t)

    def outcome(self):
        return self.last


class Sweep(Fx):
    """all types, on and off"""

    def events(self):
        return []

    def step(self, ev):
        self.work = getattr(self, "work", 0)
        a = self.app
        seen = {}
        for t in ev[1]:
            for s in (1, 0):
                self.work += 1
                self.t, self.s = t, s
                self.kt, self.ks = t, s
                if s == 1 and (t in TYPES or t < 200 or t % 64 == 1 or t > 16380):
                    a.feed(rig.k_single(self.pg, 0, t))
                    a.feed(rig.k_single(self.pg, 3, s))
                elif s == 1:
                    a.feed(rig.k_single(self.pg, 0, t))
                    self.ks = 0
                else:
                    a.feed(rig.k_single(self.pg, 3, s))
                a.tick(0)
                if not (t not in TYPES and (self.kw.get("text") or self.ext)):
                    self.check(("type", t))
                if self.ext and t in TYPES and self.extname(t) and not self.kw.get("text"):
                    seen[t] = self.label.text
                a.port.out = bytearray()
            a.app_ticks = 0


class Button(Sys):
    """effect button I-IIII and fixed effects. cfg: kind, num, kw"""

    def __init__(self, cfg):
        self.cfg = cfg
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        self.label = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 100, 20), layout={"font": "f", "backColor": (9, 9, 9)})
        kw = dict(cfg.get("kw", {}))
        C = env.mod("colors").Colors
        page = env.mod("clients.local.actions.pager").PagerAction(pages=[{"id": 1}, {"id": 2}])
        x = {"id": 1, "enable_callback": page.enable_callback}
        n = self.num = cfg["num"]
        self.btn = cfg["kind"] == "button"
        if self.btn:
            a = env.mod("clients.kemper.actions.effect_button").EFFECT_BUTTON(num=n, display=self.label, **kw, **x)
            self.color, self.text = kw.get("color", C.LIGHT_GREEN), kw.get("text") or "FX " + "I" * n
        else:
            F = env.mod("clients.kemper.actions.fixed_fx")
            a = F.FIXED_EFFECT_STATE(slot=n, display=self.label, mode=env.mod("controller.actions").PushButtonAction.LATCH, **kw, **x)
            nm, self.addr, c = FIXED[n]
            self.color, self.text = kw.get("color") or (C.LIGHT_BLUE if c is None else colors()[c]), kw.get("text") or nm
        self.app = rig.App([(rig.Switch(), {"actions": [a]}), (rig.Switch(), {"actions": [page]})], root=self.label)
        self.en = True
        self.s = 0            # effect button: shown state; fixed effect: state at the device
        self.rig = None
        self.last = None
        self.settle()
        self.check(("start",))

    def roots(self):
        return (self.app, self.label, self.en, self.s, self.rig)

    def events(self):
        ev = [("push",) if not self.app.hw[0].pushed else ("rel",), ("dev", 1), ("dev", 2)]
        if not self.app.hw[0].pushed:
            ev.append(("page",))
        return ev

    def settle(self):
        got = []
        for r in range(3):
            self.app.tick(201 if r else 0)
            for m in self.app.sent():
                if not self.btn and m == rig.k_req_single(5, self.addr):
                    self.app.feed(rig.k_single(5, self.addr, self.s))
                else:
                    got.append(m)
                    if not self.btn and m[:9] == ("sx", 0, 32, 51, 2, 127, 1, 0, 5) and m[9] == self.addr:
                        self.s = m[10] * 128 + m[11]
            self.app.tick(0)
            self.app.tick(0)
        return got

    def step(self, ev):
        a, k = self.app, ev[0]
        exp = []
        if k in ("push", "rel"):
            a.hw[0].pushed = k == "push"
            if self.en and k == "push":
                v = 1 - self.s
                exp = [("cc", 74 + self.num, v)] if self.btn else [("sx", 0, 32, 51, 2, 127, 1, 0, 5, self.addr, 0, v)]
                self.s = v
        elif k == "dev":
            if self.btn:
                a.feed(rig.cc(32, 0), rig.pc(ev[1]))
                self.s = 0
            else:
                self.s = ev[1] - 1
        else:
            a.hw[1].pushed = True
            a.tick(0)
            a.hw[1].pushed = False
            self.en = not self.en
            if self.btn and self.en:
                self.s = 0
            if self.btn and not self.en:
                self.s = 0
        s = self.s
        got = self.settle()
        if got != exp:
            raise Violation("%s: sent %s, expected %s" % (ev, got, exp))
        if self.s != s:
            raise Violation("%s: state of the device changed" % (ev,))
        if self.en:
            self.check(ev)

    def check(self, ev):
        on = self.s and (not self.btn or self.cfg.get("kw", {}).get("use_internal_state", True))
        led = [tuple(x) for x in self.app.led(0)]
        lab = (self.label.text, tuple(self.label.back_color))
        f, d = (0.3, 1) if on else (0.02, 0.2)
        exp = ((self.text, tuple(int(x * d) for x in self.color)), [tuple(int(x * f) for x in self.color)] * 3)
        if (lab, led) != exp:
            raise Violation("%s: shown %s, LEDs %s; expected %s" % (ev, lab, led, exp))
        self.last = (lab, bool(on))

    def outcome(self):
        return self.last


def tasks(tier):
    th = tier == "thorough"
    r = []
    X = (10, 200, 30)

    def add(cls, d, **cfg):
        r.append((bfs, ("fx", cls, cfg, d + (4 if th else 2)), {"time_limit": 250 if th else 60}))
    for bi in (0, 1):
        add(Fx, 7, kind="slot", bi=bi)
        add(Fx, 6, kind="slot", bi=bi, page=1, start=(33, 1))
        add(Fx, 6, kind="slot", bi=bi, page=1, two=(1, 101, 1), start=(33, 1))
        add(Fx, 5, kind="ext", bi=bi, page=1, two=(1, 0, 1), start=(33, 1))
        add(Fx, 6, kind="ext", bi=bi, slot=5 if bi else 7, kw={"show_slot_names": True}, types=(0, 137, 183))
        add(Fx, 6, kind="slot", bi=bi, slot=3 if bi else 8, kw={"text": "foo", "color": X})
    for kind in ("slot", "ext"):
        for i, kw in enumerate(({}, {"show_slot_names": True}, {"color": X}, {"text": "foo"})):
            r.append((enumerate_cases, ("fx-types", Sweep, {"kind": kind, "slot": (2, 5, 1, 4)[i], "kw": kw, "bi": 1}, [(("sweep", list(range(16384)) + [0, 33, 0]),)]), {}))
    for n in range(1, 5):
        add(Button, 6, kind="button", num=n)
    add(Button, 6, kind="button", num=2, kw={"use_internal_state": False, "text": "t", "color": X})
    for n in range(8):
        add(Button, 6, kind="fixed", num=n, kw={} if n % 2 else {"text": "x%d" % n, "color": X} if n == 4 else {})
    return r
