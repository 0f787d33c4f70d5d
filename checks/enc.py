"""Encoders, pedals and value previews with reference models (C16, C17, C18)."""
from mc import env, rig
from mc.env import Clock
from mc.explore import Sys, Violation

ORIG, BLINK = (11, 22, 33), (200, 200, 200)


class PreviewModel:
    """What the display label must show."""

    def __init__(self):
        self.text = None             # preview text
        self.until = None            # time after which the preview ends at the next update
        self.stay = False
        self.owner = None

    def show(self, text, timeout, stay, owner):
        self.text, self.stay, self.owner = text, stay, owner
        self.timeout = timeout
        self.until = Clock.now + timeout if timeout else None

    def finish(self, immediately):
        self.stay = False
        if immediately or not self.until:
            self.text = None
        else:
            self.until = Clock.now + self.timeout

    def update(self):
        if self.text and not self.stay and self.until and self.until < Clock.now:
            self.text = None


class Enc(Sys):
    """cfg: encs: [{"kind": "cc"|"ccr"|"nrpn", "kw": {...}, "accept": button or None, "cancel": button or None, "preview": bool,
    "init": value or None}], buttons: n, events..."""

    def __init__(self, cfg):
        self.cfg = cfg
        cl = env.mod("controller.client")
        EA = env.mod("controller.actions.EncoderAction").EncoderAction
        EB = env.mod("clients.local.actions.encoder_button").ENCODER_BUTTON
        CB = env.mod("controller.callbacks").Callback
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        K = env.mod("clients.kemper")
        P, CC = cl.ClientParameterMapping, cl.ControlChange
        me = self
        self.base_map = P.get(name="base", response=CC(90, 0))

        class Own(CB):
            def __init__(s):
                super().__init__(mappings=[me.base_map])

            def update_label(s, label):
                label.text = "base %s" % me.base_map.value

        layout = {"font": "f", "backColor": (9, 9, 9)}
        if cfg.get("textcolor", True):
            layout["textColor"] = ORIG
        self.label = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 200, 20), layout=layout, callback=Own())
        self.orig = ORIG if cfg.get("textcolor", True) else (255, 255, 255)
        self.reset_map = P.get(name="rm", response=CC(91, 0))
        btns = [EB() for _ in range(cfg.get("buttons", 0))]
        inputs, self.maps, self.kw, self.hw = [], [], [], []
        self.en = [True] * len(cfg["encs"])

        class En:
            def __init__(s, i):
                s.i = i

            def init(s, appl):
                pass

            def enabled(s, action):
                return me.en[s.i]
        for i, e in enumerate(cfg["encs"]):
            k = e["kind"]
            name = e.get("name", "Par%d" % i)
            if k == "cc":
                m = P.get(name=name, set=CC(20 + i, 0))
            elif k == "ccr":
                m = P.get(name=name, set=CC(20 + i, 0), response=CC(40 + i, 0))
            else:
                m = P.get(name=name, set=K.KemperNRPNMessage(1, 10, i), request=K.KemperNRPNMessage(0x41, 10, i), response=K.KemperNRPNMessage(1, 10, i))
            self.maps.append(m)
            kw = dict(e.get("kw", {}))
            self.kw.append(kw)
            if kw.get("convert_value"):
                kw = dict(kw, convert_value=lambda v: "<%r>" % v)
            if e.get("accept") is not None:
                kw["accept_action"] = btns[e["accept"]]
            if e.get("cancel") is not None:
                kw["cancel_action"] = btns[e["cancel"]]
            if e.get("preview"):
                kw["preview_display"] = self.label
                if e.get("reset"):
                    kw["preview_reset_mapping"] = self.reset_map
            if e.get("en"):
                kw["enable_callback"] = En(i)
            h = rig.Enc(e.get("pos", 10))
            self.hw.append(h)
            inputs.append((h, {"actions": [EA(mapping=m, **kw)]}))
        self.nb0 = len(inputs)
        for b in btns:
            inputs.append((rig.Switch(), {"actions": [b]}))
        self.app = rig.App(inputs, root=self.label)
        n = len(cfg["encs"])
        # device and model
        self.dev = [e.get("init") for e in cfg["encs"]]
        self.val = [None] * n
        self.pre = [None] * n
        self.base = None
        self.resetv = None
        self.pm = PreviewModel()
        self.app.tick(201)
        self.resp()
        for i, e in enumerate(cfg["encs"]):
            if e["kind"] == "ccr" and e.get("init") is not None:
                self.app.recv(rig.cc(40 + i, e["init"]))
                self.val[i] = e["init"]
        self.content(1)
        if cfg.get("resets"):
            self.resets(1)
        self.app.tick(201)
        self.resp()
        self.last = None
        self.seen = set()
        self.check("start")

    def roots(self):
        return (self.app, self.maps, self.label, self.dev, self.val, self.pre, self.base, self.resetv, self.en, self.pm)

    # ------------------------------------------------------------- device

    def content(self, v):
        self.base = v
        self.app.port.inq += rig.cc(90, v)
        self.drain()

    def resets(self, v):
        self.app.port.inq += rig.cc(91, v)
        self.drain()
        if self.resetv is not None and self.resetv != v:
            for i, e in enumerate(self.cfg["encs"]):
                if e.get("reset"):
                    self.cancel(i)
        self.resetv = v

    def drain(self):
        for _ in range(4):
            self.app.tick(0)

    def resp(self, lost=False):
        """Messages sent: returns sets, answers requests."""
        sets = []
        for m in self.app.sent():
            if m[0] == "cc":
                sets.append((m[1] - 20, m[2]))
                self.dev[m[1] - 20] = m[2]
            elif m[:7] == ("sx",) + rig.MAN + (2, 0x7f, 1) and m[8] == 10:
                v = m[10] * 128 + m[11]
                sets.append((m[9], v))
                self.dev[m[9]] = v
            else:
                ok = False
                for i, e in enumerate(self.cfg["encs"]):
                    if e["kind"] == "nrpn" and m == rig.k_req_single(10, i):
                        ok = True
                        if self.dev[i] is not None and not lost:
                            self.app.port.inq += rig.k_single(10, i, self.dev[i])
                            self.val[i] = self.dev[i]
                if not ok:
                    raise Violation("unexpected message %r" % (m,))
        self.drain()
        return sets

    # ------------------------------------------------------------- reference

    def kind(self, i):
        return self.cfg["encs"][i]["kind"]

    def presel(self, i):
        return self.cfg["encs"][i].get("accept") is not None

    def limits(self, i):
        kw = self.kw[i]
        nr = self.kind(i) == "nrpn"
        return kw.get("min_value", 0), kw.get("max_value") if kw.get("max_value") is not None else (16383 if nr else 127)

    def stepw(self, i):
        s = self.kw[i].get("step_width")
        return s if s is not None else (80 if self.kind(i) == "nrpn" else 1)

    def text(self, i, v):
        if self.kw[i].get("convert_value"):
            return "<%r>" % v
        return "%s: %d%%" % (self.cfg["encs"][i].get("name", "Par%d" % i), round(v * 100 / self.limits(i)[1]))

    def turn(self, i, d):
        """Returns the expected set messages."""
        old = int(self.hw[i].position * self.stepw(i))
        self.hw[i].position += d
        delta = int(self.hw[i].position * self.stepw(i)) - old
        if not delta or not self.en[i]:
            return []
        lo, hi = self.limits(i)
        base = self.pre[i] if self.pre[i] is not None else self.val[i]
        v = min(hi, max(lo, (base or 0) + delta))
        if v == base:
            return []
        p = self.cfg["encs"][i].get("preview")
        if p:
            # only one preselection can be shown
            for j in range(len(self.pre)):
                if j != i and self.cfg["encs"][j].get("preview"):
                    self.pre[j] = None
            self.pm.show(self.text(i, v), self.kw[i].get("preview_timeout_millis", 1500), self.presel(i), i)
        if self.presel(i):
            self.pre[i] = v
            return []
        self.val[i] = v
        return [(i, v)]

    def cancel(self, i):
        self.pre[i] = None
        if self.cfg["encs"][i].get("preview"):
            self.pm.finish(True)

    def press(self, b):
        exp = []
        for i, e in enumerate(self.cfg["encs"]):
            if e.get("accept") == b and self.pre[i] is not None:
                exp.append((i, self.pre[i]))
                self.val[i] = self.pre[i]
                self.pre[i] = None
                if e.get("preview"):
                    self.pm.finish(False)
            if e.get("cancel") == b:
                self.cancel(i)
        return exp

    # ------------------------------------------------------------- steps

    def events(self):
        c = self.cfg
        ev = []
        for i, e in enumerate(c["encs"]):
            ev += [("turn", i, d) for d in c.get("turns", (1, -1, 3))]
            if e["kind"] != "cc":
                ev += [("dev", i, v) for v in c.get("vals", ()) if v != self.dev[i]]
            if e.get("en"):
                ev += [("en", i)]
        ev += [("btn", b) for b in range(c.get("buttons", 0))]
        ev += [("idle", t) for t in c.get("idle", (201,))]
        if c.get("content"):
            ev += [("content", 3 - self.base)]
        if c.get("resets"):
            ev += [("reset", 3 - self.resetv)]
        if self.pm.stay:
            ev += [("blink",)]
        return ev

    def step(self, ev):
        exp, got = [], []
        if ev[0] == "turn":
            exp = self.turn(ev[1], ev[2])
            self.drain()
        elif ev[0] == "dev":
            i, v = ev[1:]
            self.dev[i] = v
            if self.kind(i) == "ccr":
                self.app.port.inq += rig.cc(40 + i, v)
                self.val[i] = v
                self.drain()
            else:
                # a polled value is known after the next update
                self.idle(201, got)
        elif ev[0] == "en":
            self.en[ev[1]] = not self.en[ev[1]]
            self.drain()
        elif ev[0] == "btn":
            h = self.app.hw[self.nb0 + ev[1]]
            exp = self.press(ev[1])
            h.pushed = True
            self.drain()
            h.pushed = False
            self.drain()
        elif ev[0] == "idle":
            self.idle(ev[1], got)
        elif ev[0] == "content":
            self.content(ev[1])
        elif ev[0] == "reset":
            self.resets(ev[1])
        elif ev[0] == "blink":
            s = set()
            for _ in range(6):
                self.idle(201, got)
                s.add(self.label.text_color)
            if s != {self.orig, BLINK}:
                raise Violation("preselected value does not blink: %r" % (s,))
        got += self.resp()
        if got != exp:
            raise Violation("%r: sent (encoder, value) %r, expected %r" % (ev, got, exp))
        self.check(ev)
        self.last = (ev, got, self.label.text)

    def idle(self, dt, got):
        self.app.tick(dt)
        for e in self.cfg["encs"]:
            if e.get("preview"):
                self.pm.update()
        got += self.resp()

    def check(self, ev):
        exp = self.pm.text if self.pm.text else "base %s" % self.base
        if self.label.text != exp:
            raise Violation("after %r: display shows %r, expected %r" % (ev, self.label.text, exp))
        if not self.pm.stay and self.label.text_color != self.orig:
            raise Violation("after %r: display has text colour %r, expected %r" % (ev, self.label.text_color, self.orig))
        for i in range(len(self.val)):
            if self.kind(i) != "cc" and self.val[i] is not None and self.maps[i].value != self.val[i]:
                raise Violation("after %r: value of encoder %d is %r, expected %r" % (ev, i, self.maps[i].value, self.val[i]))

    def outcome(self):
        return self.last
