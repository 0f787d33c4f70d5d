"""C30: paging changes nothing but what is visible: every pair of ready-made functions shares switch and label on two pages;
reference is the same real code with both functions on a switch and label of their own."""
from itertools import product
from mc import env, rig
from mc.explore import Sys, Violation, enumerate_cases
from checks.kdev import KDev

BOUNDS = {"quick": "52 variants of ready-made functions in all pairs on two pages of one switch and label: all sequences operation, page, operation / page, operation, page (operations: press; rig, effect, "
                   "parameter, morph, tempo changes at the device; bank preselection; rig selection); 4 partners: all sequences of 3 with page changes; polling and bidirectional protocol",
          "thorough": "sequences of 4 with the partners, all pairs with both protocols"}
ASSUMPTIONS = ["simulated amplifier after its MIDI documentation",
               "values remembered as \"auto\" off values are only learned while visible; LEDs and colours a function does not define stay as they were; the simulated morph state is shared (morph functions in one pair are not covered)"]
SLOTS = (50, 51, 52, 53, 56, 58, 60, 61)
RIGS = {7: {s: (0, 0) for s in SLOTS}, 13: {s: (t, 1) for s, t in zip(SLOTS, (1, 33, 49, 57, 17, 113, 177, 145))},
        500: {s: (t, i % 2) for i, (s, t) in enumerate(zip(SLOTS, (81, 65, 97, 13, 121, 156, 180, 11)))}}
SLOT_CC = {17: 50, 18: 51, 19: 52, 20: 53, 22: 56, 24: 58, 26: 60, 27: 60, 28: 61, 29: 61}
A = "clients.kemper.actions."
LO = "clients.local.actions."
LOOP = {"REC_PLAY_OVERDUB": 88, "STOP": 89, "TRIGGER": 90, "REVERSE": 91, "HALF_SPEED": 92, "CANCEL": 93, "ERASE": 94}
FIXED = (1, 6, 11, 16, 21, 26, 36, 41)


class Dev(KDev):
    def load(self):
        for s, (t, on) in RIGS[self.rig].items():
            self.set(s, 0, t)
            self.set(s, 3, on)
        self.set(4, 1, 8192 if self.rig % 2 else 9000)
        self.set(0, 11, 0)

    def receive(self, m):
        if m[0] == "cc" and m[1] in SLOT_CC:
            if not self.lost:
                self.set(SLOT_CC[m[1]], 3, 1 if m[2] else 0)
            return True
        return super().receive(m)

    def goto(self, r):
        super().goto(r)
        if r in RIGS:
            self.load()


def generic(name="gen"):
    cl = env.mod("controller.client")
    return cl.ClientParameterMapping.get(name=name, set=cl.ControlChange(20, 0), response=cl.ControlChange(21, 0))


def nrpn():
    K = env.mod("clients.kemper")
    return env.mod("controller.client").ClientParameterMapping.get(name="Par", set=K.KemperNRPNMessage(1, 10, 1), request=K.KemperNRPNMessage(0x41, 10, 1),
                                                                  response=K.KemperNRPNMessage(1, 10, 1))


RIGEV, FX, MO, TE, CC, PRE = "rig", "fx", "morph", "tempo", "cc", "bank"
# module, function, keyword arguments, events which matter
ACTIONS = {
    "boost": (A + "rig_volume_boost", "RIG_VOLUME_BOOST", dict(boost_volume=0.75, remember_off_value=False), ("vol", RIGEV)),
    "boost latch": (A + "rig_volume_boost", "RIG_VOLUME_BOOST", dict(boost_volume=0.5, remember_off_value=False, mode=20), ("vol", RIGEV)),
    "morph": (A + "morph", "MORPH_BUTTON", {}, (MO, RIGEV)),
    "morph fixed": (A + "morph", "MORPH_BUTTON", dict(color=(9, 99, 200)), (MO,)),
    "morph display": (A + "morph", "MORPH_DISPLAY", {}, (MO, RIGEV)),
    "tap": (A + "tempo", "TAP_TEMPO", dict(use_leds=True), (TE,)),
    "tempo": (A + "tempo", "SHOW_TEMPO", {}, (TE, RIGEV)),
    "slot": (A + "effect_state", "EFFECT_STATE", dict(slot_id=0), (FX, RIGEV)),
    "slot latch names": (A + "effect_state", "EFFECT_STATE", dict(slot_id=6, show_slot_names=True, mode=20), (FX, RIGEV)),
    "slot fixed": (A + "effect_state", "EFFECT_STATE", dict(slot_id=5, text="X", color=(1, 99, 77)), (FX, RIGEV)),
    "slot ext": (A + "effect_state_extended_names", "EFFECT_STATE_EXT", dict(slot_id=1), (FX, RIGEV)),
    "slot ext names": (A + "effect_state_extended_names", "EFFECT_STATE_EXT", dict(slot_id=7, show_slot_names=True), (FX, RIGEV)),
    "bank up": (A + "bank_up_down", "BANK_UP", {}, (RIGEV,)),
    "bank up target": (A + "bank_up_down", "BANK_UP", dict(display_mode=20, text="{bank}"), (RIGEV, PRE)),
    "bank up preselect": (A + "bank_up_down", "BANK_UP", dict(display_mode=20, preselect=True), (RIGEV, PRE, "sel")),
    "bank down preselect": (A + "bank_up_down", "BANK_DOWN", dict(preselect=True), (RIGEV, PRE, "sel")),
    "rig": (A + "rig_select", "RIG_SELECT", dict(rig=3), (RIGEV, PRE, "sel")),
    "rig target": (A + "rig_select", "RIG_SELECT", dict(rig=3, display_mode=20), (RIGEV, PRE, "sel")),
    "rig off": (A + "rig_select", "RIG_SELECT", dict(rig=3, rig_off=2, display_mode=20), (RIGEV, PRE)),
    "rig bank": (A + "rig_select", "RIG_SELECT", dict(rig=3, bank=3, rig_off=2, bank_off=5, display_mode=20), (RIGEV, PRE)),
    "rig none": (A + "rig_select", "RIG_SELECT", dict(rig=None), (RIGEV, PRE)),
    "bank sel": (A + "bank_select", "BANK_SELECT", dict(bank=3), (RIGEV, PRE)),
    "bank sel pre": (A + "bank_select", "BANK_SELECT", dict(bank=3, bank_off=5, preselect=True, display_mode=20), (RIGEV, PRE, "sel")),
    "rig up": (A + "rig_up_down", "RIG_UP", {}, (RIGEV, PRE)),
    "rig down": (A + "rig_up_down", "RIG_DOWN", dict(keep_bank=False, display_mode=20), (RIGEV, PRE)),
    "rig morph": (A + "rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE", dict(rig=3, rig_btn_morph=True), (RIGEV, MO)),
    "rig morph target": (A + "rig_select_and_morph_state", "RIG_SELECT_AND_MORPH_STATE", dict(rig=3, rig_off=2, display_mode=20, morph_only_when_enabled=False), (RIGEV, MO)),
    "effect button": (A + "effect_button", "EFFECT_BUTTON", dict(num=2, use_internal_state=False), (RIGEV,)),
    "custom": (LO + "custom", "CUSTOM_MESSAGE", dict(message=(176, 20, 1), message_release=(176, 20, 0), text="cu", color=(1, 55, 99)), (RIGEV,)),
    "up": (LO + "param_change", "PARAMETER_UP_DOWN", dict(mapping=nrpn, offset=900, text="P {val}", color=(90, 200, 99)), ("par",)),
    "text": (LO + "fixed_text", "DISPLAY_FIXED_TEXT", dict(text="fixed"), (RIGEV,)),
    "text colors": (LO + "fixed_text", "DISPLAY_FIXED_TEXT", dict(text="fixed", back_color=(1, 2, 99), text_color=(99, 5, 5)), (RIGEV,)),
    "keys": (LO + "hid", "HID_KEYBOARD", dict(keycodes=4, text="key", color=(9, 9, 99)), (RIGEV,)),
    "binary": (LO + "binary_switch", "BINARY_SWITCH", dict(mapping=nrpn, text="bin", value_on=9000, value_off=100, color=(8, 200, 3)), ("par",)),
    "binary latch": (LO + "binary_switch", "BINARY_SWITCH", dict(mapping=nrpn, text="bin", value_on=9000, value_off=50, mode=20, comparison_mode=20, color=(8, 200, 3)), ("par",)),
    "rotate": (LO + "rotate", "ROTATING_MESSAGES", dict(messages=[[176, 20, 1], [176, 20, 2], [176, 22, 3]], led_colors=[(200, 0, 0), (0, 200, 0)], texts=["a", "b", "c"]), (RIGEV,)),
    "boomerang": ("clients.boomerang.actions.boomerang", "BOOMERANG_STACK", {}, (RIGEV,)),
}
for _i in range(8):
    ACTIONS["fixed %d" % _i] = (A + "fixed_fx", "FIXED_EFFECT_STATE", dict(slot=_i, mode=20 if _i % 2 else 50), ("fixed",))
for _n in LOOP:
    ACTIONS["loop " + _n] = (A + "looper", "LOOPER_" + _n, {}, (RIGEV,))


def make(name, **kw):
    m, f, k, ev = ACTIONS[name]
    P = env.mod("controller.actions").PushButtonAction
    k = {a: b() if callable(b) else b for a, b in k.items()}
    if "mode" in k:
        k["mode"] = {20: P.LATCH, 50: P.HOLD_MOMENTARY}[k["mode"]]
    return getattr(env.mod(m), f)(**k, **kw)




class Paged(Sys):
    """cfg: a (function on page 1), b (function on page 2, same switch and label)"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        self.build(True)

    def build(self, paged):
        env.mod("clients.kemper")
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.l = [El.DisplayLabel(layout={"font": "f", "backColor": (7, 7, 7)}, bounds=Ui.DisplayBounds(0, 40 * i, 240, 40)) for i in range(1 if paged else 2)]
        for x in self.l:
            root.add(x)
        pg = env.mod("clients.local.actions.pager").PagerAction(pages=[{"id": 1}, {"id": 2}])
        fs = [[make(self.cfg[k], display=self.l[0 if paged else i], **({"enable_callback": pg.enable_callback, "id": i + 1} if paged else {}))] for i, k in enumerate("ab")]
        pre = [env.mod(A + "bank_up_down").BANK_UP(preselect=True)]
        sel = [env.mod(A + "rig_select").RIG_SELECT(rig=4)]
        acts = [fs[0] + fs[1], [pg], pre, sel] if paged else [fs[0], fs[1], pre, sel]
        self.paged = paged
        b = self.cfg.get("bidi")
        self.app = rig.App([(rig.Switch(), {"actions": a}) for a in acts], root=root, protocol=env.mod("clients.kemper").KemperBidirectionalProtocol(30) if b else None)
        self.d = Dev(7, bidi=b)
        self.d.load()
        self.d.announce()
        self.page = 0
        self.wait(2)

    def talk(self):
        for _ in range(12):
            s = self.app.sent()
            if not s and not self.d.out:
                return
            for m in s:
                if not self.d.receive(m) and m[0] not in ("pc",):
                    raise Violation("message the device does not know: %r" % (m,))
            out, self.d.out = self.d.out, []
            for i in range(0, len(out), 4):
                for o in out[i:i + 4]:
                    self.app.feed(o)
                self.app.tick(0)
            self.app.tick(0)
        raise Violation("endless conversation")

    def wait(self, n):
        for _ in range(n):
            self.app.tick(201)
            self.d.sense()
            self.talk()

    def tap(self, i):
        for v in (True, False):
            if i is not None:
                self.app.hw[i].pushed = v
            self.app.tick(10)
            self.talk()

    def look(self):
        """What is seen of the function of the current page"""
        l = self.l[0 if self.paged else self.page]
        return [[tuple(x) for x in self.app.led(0 if self.paged else self.page)], l.text, l.back_color, l.text_color]

    def step(self, ev):
        if ev[0] == "end":
            return self.end()
        self.log.append(ev)
        self.do(ev)

    def do(self, ev):
        k, d = ev[0], self.d
        if k == "tap":
            self.tap(0 if self.paged else self.page)
        elif k == "page":
            self.tap(1 if self.paged else None)
            self.page = 1 - self.page
        elif k == "rig":
            d.goto(ev[1])
        elif k == "fx":
            for s in SLOTS:
                d.set(s, *ev[1:])
        elif k == "fixed":
            for s in FIXED:
                d.set(5, s, 1 - d.params.get((5, s), 0))
        elif k == "vol":
            d.set(4, 1, ev[1])
        elif k == "par":
            d.set(10, 1, ev[1])
        elif k == "morph":
            d.set(0, 11, ev[1])
        elif k == "tempo":
            d.set(4, 0, ev[1])
            d.out += [rig.k_single(124, 0, v) for v in (1, 0, ev[2])]
        elif k == "bank":
            self.tap(2)
        elif k == "sel":
            self.tap(3)
        self.wait(2)

    def end(self):
        self.wait(2)
        a, sa = self.look(), self.d.key()
        blink = "preselectedBank" in self.app.ctl.shared
        log, page = self.log, self.page
        env.fresh()
        self.build(False)
        for ev in log:
            self.do(ev)
        self.wait(2)
        b, sb = self.look(), self.d.key()
        if sa != sb:
            raise Violation("%s and %s: after %s the device is in state %s instead of %s" % (self.cfg["a"], self.cfg["b"], log, sa, sb))
        f = self.cfg["ab"[page]]
        for x in (a, b):
            if f in ("tempo", "text", "text colors") or blink:
                x[0] = None
            if f == "text":
                x[2] = x[3] = None
            if f.startswith("rig morph") and x[0]:
                x[0] = x[0][:2]
        if a != b:
            raise Violation("%s and %s: after %s, %s shows %s, without pages %s" % (self.cfg["a"], self.cfg["b"], log, f, a, b))

    def outcome(self):
        return self.look()


EV = {RIGEV: [("rig", 13), ("rig", 500)], FX: [("fx", 3, 1), ("fx", 3, 0), ("fx", 0, 49), ("fx", 0, 0)], "fixed": [("fixed",)], "vol": [("vol", 12287), ("vol", 5000)],
      "par": [("par", 9000), ("par", 77)], MO: [("morph", 9000), ("morph", 16383)], TE: [("tempo", 7680, 1), ("tempo", 8000, 0)], PRE: [("bank",)], "sel": [("sel",)]}


MORPHING = [n for n in ACTIONS if "morph" in n]
PARTNERS = ("slot latch names", "rig target", "bank up preselect", "binary")


def ops(*names):
    return [("tap",)] + [x for v in EV if any(v in ACTIONS[n][3] for n in names) for x in EV[v]]


def tasks(tier):
    th = tier != "quick"
    r = []
    end, page = ("end",), ("page",)

    def add(bidi, a, b, cases):
        for i in range(0, len(cases), 400):
            r.append((enumerate_cases, ("pages bidirectional" if bidi else "pages", Paged, {"a": a, "b": b, "bidi": bidi}, cases[i:i + 400]), {}))

    for bidi in (False, True):
        for a in ACTIONS:
            for b in ACTIONS:
                # two functions simulating the morph state are not covered
                if a in MORPHING and b in MORPHING or bidi and not (th or a in PARTNERS or b in PARTNERS):
                    continue
                e = ops(a, b)
                add(bidi, a, b, [[x, page, y, end] for x in e for y in e] + [[page, x, page, end] for x in e])
                if b in PARTNERS and (th or not bidi):
                    e = ops(a)
                    add(bidi, a, b, [list(c) + [end] for n in ((3, 4) if th else (3,)) for c in product([page] + e, repeat=n) if page in c])
    return r
