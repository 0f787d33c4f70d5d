"""C31: tempo: tap button, tempo LED and tempo labels."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs, enumerate_cases
from checks.kdev import KDev, exchange

BOUNDS = {"quick": "tempo display alone, with change preview, with tap button, on a page sharing LED and label with another function, with several LED brightnesses, colours and texts: "
                   "all orders of beats, tempo changes, rig changes, tuner on/off, page changes, lost answers and waiting, depth 5-6; all 16384 tempo values; tap presses with all interleavings",
          "thorough": "depth 7-8"}
ASSUMPTIONS = ["a tempo change coming together with or after a rig change may or may not be shown in the preview", "while the tuner is engaged the tempo displays are not judged", "pages are not switched while the tap button is held",
               "before the first beat the LED is not judged; the tempo text is judged while the device answers"]
G = (9, 200, 30)


def bad(m):
    raise Violation("message the device does not know: %r" % (m,))


class Tempo(Sys):
    """cfg: show kw, change (timeout or None), tap, page"""

    def __init__(self, cfg):
        self.cfg = cfg
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        T = env.mod("clients.kemper.actions.tempo")
        lay = {"font": "f", "backColor": (9, 9, 9), "text": "init"}
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        B = Ui.DisplayBounds(0, 0, 100, 20)

        class Const(env.mod("controller.callbacks").Callback):
            def update_label(self, label):
                label.text = "normal"
        self.label = El.DisplayLabel(layout=lay, bounds=B)
        self.chg = El.DisplayLabel(layout=dict(lay, text="normal"), bounds=B, callback=Const())
        for l in (self.label, self.chg):
            root.add(l)
        kw = dict(cfg.get("show", {}))
        if cfg.get("label", 1):
            kw["display"] = self.label
        if cfg.get("change"):
            kw.update(change_display=self.chg)
            if cfg["change"] != "default":
                kw["change_timeout_millis"] = cfg["change"]
        self.timeout = {"default": 1500}.get(cfg.get("change"), cfg.get("change"))
        page = None
        inputs = []
        if cfg.get("page"):
            page = env.mod("clients.local.actions.pager").PagerAction(pages=[{"id": 1}, {"id": 2}])
            kw.update(id=1, enable_callback=page.enable_callback)
        acts = [T.SHOW_TEMPO(**kw)]
        if page:
            acts.append(env.mod("clients.local.actions.custom").CUSTOM_MESSAGE(message=[0xB0, 3, 4], text="other", color=(50, 60, 70), display=self.label if cfg.get("label", 1) else None,
                                                                               id=2, enable_callback=page.enable_callback))
        inputs.append((rig.Switch(), {"actions": acts}))
        self.taplabel = None
        if cfg.get("tap"):
            self.taplabel = El.DisplayLabel(layout=lay, bounds=B)
            root.add(self.taplabel)
            inputs.append((rig.Switch(), {"actions": [T.TAP_TEMPO(display=self.taplabel, use_leds=True, color=(0, 100, 0))]}))
        if page:
            inputs.append((rig.Switch(), {"actions": [page]}))
        self.app = rig.App(inputs, root=root)
        self.color = kw.get("color", env.mod("colors").Colors.LIGHT_GREEN)
        self.br = kw.get("led_brightness", 0.02)
        self.text = kw.get("text", "{bpm} bpm")
        self.d = KDev(5)
        self.d.params[(4, 0)] = 120 * 64
        self.on = True
        self.beat = None
        self.bpm = None
        self.tuner = 0
        self.now = 0
        self.prev = None         # (text, shown from)
        self.hidden = False      # tempo changed while the display was not active
        self.maybe = []          # preview which may be shown or not
        self.rigchg = True          # the rig is not known before the first tempo arrives
        self.alive = True
        self.settle(())
        self.settle(())
        self.d.announce()
        self.settle(())
        if cfg.get("change") or cfg.get("label", 1):
            self.bpm = self.d.params[(4, 0)]
        self.check(("start",))

    def roots(self):
        return (self.app, self.label, self.chg, self.d.key(), self.on, self.beat, self.bpm, self.tuner, self.prev and (self.prev[0], self.prev[1] - self.now),
                [(t, x - self.now) for t, x in self.maybe], self.rigchg, self.alive, self.hidden)

    def outcome(self):
        return (self.label.text, self.chg.text, tuple(self.app.led(0)) if self.app.leds.leds else 0)

    def tick(self, dt):
        self.app.tick(dt)
        self.now += dt

    def settle(self, ev):
        got = []
        self.tick(201)
        s = self.app.sent()
        for m in s:
            if self.alive:
                if not self.d.receive(m):
                    bad(m)
            if m[0] == "cc":
                got.append(m)
        out, self.d.out = self.d.out, []
        for o in out:
            self.app.feed(o)
        self.tick(0)
        self.tick(0)
        for m in self.app.sent():
            if m[0] == "cc":
                got.append(m)
        return got

    def events(self):
        ev = [("beat", 0 if self.beat else 1)]
        ev += [("bpm", v) for v in (120 * 64, 90 * 64 + 31) if v != self.d.params[(4, 0)]]
        ev += [("tuner", 1 - self.tuner), ("wait", 700), ("wait", 1600)]
        if self.cfg.get("change"):
            ev.append(("rig",))
        if self.cfg.get("page") and not any(h.pushed for h in self.app.hw):
            ev.append(("page",))
        if self.cfg.get("tap"):
            ev.append(("tap",))
        ev.append(("lost",) if self.alive else ("back",))
        return ev

    def step(self, ev):
        k = ev[0]
        exp = []
        if k == "beat":
            self.app.feed(rig.k_single(0x7C, 0, ev[1]))
            self.tick(0)
            self.beat = ev[1]
        elif k == "bpm":
            self.d.params[(4, 0)] = ev[1]
        elif k == "tuner":
            self.tuner = ev[1]
            self.app.recv(rig.k_single(127, 126, self.tuner))
        elif k == "wait":
            self.tick(ev[1])
        elif k == "rig":
            self.d.rig = 5 + (self.d.rig + 1) % 3
            self.d.announce()
            self.rigchg = True
        elif k == "page":
            hw = self.app.hw[-1]
            hw.pushed = True
            self.tick(0)
            hw.pushed = False
            self.on = not self.on
        elif k == "tap":
            hw = self.app.hw[1]
            hw.pushed = not hw.pushed
            exp = [("cc", 30, 1 if hw.pushed else 0)]
        elif k == "lost":
            self.alive = False
        else:
            self.alive = True
            self.app.tick(2001)
            self.now += 2001
        got = self.settle(ev)
        if got != exp:
            raise Violation("%s: sent %s, expected %s" % (ev, got, exp))
        # what is known now
        wants = bool(self.cfg.get("change") or self.cfg.get("label", 1))
        if k == "back" or self.alive:
            v = self.d.params[(4, 0)] if wants else None
            if k == "back" and v is not None:
                self.settle(ev)
            if v is not None and v != self.bpm:
                first = self.bpm is None
                self.bpm = v
                if self.cfg.get("change"):
                    t = self.show()
                    if self.on and not self.tuner and not first and not self.rigchg and k == "bpm":
                        self.prev, self.maybe.append((t, self.now)), []
                    elif k == "back" or first or self.rigchg or self.tuner or not self.on:
                        self.maybe.append((t, self.now))
                    if self.on and not self.tuner:
                        self.rigchg = False
                    else:
                        self.hidden = self.rigchg = True
        if k in ("tuner", "page") and self.hidden and self.on and not self.tuner and self.cfg.get("change"):
            self.maybe.append((self.show(), self.now))
            self.hidden = False
        # over with the next display update after the timeout
        if self.prev and self.now - self.prev[1] > self.timeout:
            self.prev = None
        self.maybe = [(t, x) for t, x in self.maybe if self.now - x <= self.timeout + 201]
        self.check(ev)

    def show(self):
        return self.text.replace("{bpm}", str(int(self.bpm / 64 + 0.5)))

    def check(self, ev):
        if self.cfg.get("tap"):
            if self.taplabel.text != "Tap":
                raise Violation("%s: tap button is labelled %r" % (ev, self.taplabel.text))
        if self.cfg.get("change"):
            t = self.chg.text
            if self.maybe:
                # if it is not shown, nothing happens to a previous one
                ok = t == "normal" or t in [m[0] for m in self.maybe] or (self.prev and t == self.prev[0])
            elif self.prev:
                ok = t == self.prev[0]
            else:
                ok = t == "normal"
            if not ok:
                raise Violation("%s: preview label shows %r, expected %r" % (ev, t, self.prev[0] if self.prev else "normal"))
        if self.tuner:
            return
        if self.on:
            if self.beat is not None:
                c = [int(x * self.br) for x in self.color] if self.beat else [0, 0, 0]
                for x in self.app.led(0):
                    if any(abs(a - b) > 1 for a, b in zip(x, c)):
                        raise Violation("%s: tempo LED is %s, expected %s" % (ev, self.app.led(0), c))
            if self.cfg.get("label", 1):
                if self.label.back_color != self.color:
                    raise Violation("%s: tempo label has colour %s, expected %s" % (ev, self.label.back_color, self.color))
                if self.alive and self.bpm is not None and self.label.text != self.show():
                    raise Violation("%s: tempo label shows %r, expected %r" % (ev, self.label.text, self.show()))
        else:
            if self.cfg.get("label", 1) and self.label.text != "other":
                raise Violation("%s: label shows %r on the other page" % (ev, self.label.text))


class Values(Sys):
    def __init__(self, cfg):
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        T = env.mod("clients.kemper.actions.tempo")
        self.label = El.DisplayLabel(layout={"font": "f", "backColor": (9, 9, 9)}, bounds=Ui.DisplayBounds(0, 0, 100, 20))
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        root.add(self.label)
        self.app = rig.App([(rig.Switch(), {"actions": [T.SHOW_TEMPO(display=self.label, text="T{bpm}!")]})], root=root)
        self.d = KDev(0)
        self.work = 0

    def step(self, ev):
        for v in ev[1]:
            self.work += 1
            self.d.params[(4, 0)] = v
            self.app.tick(201)
            exchange(self.app, self.d, bad)
            t = self.label.text
            if t[:1] != "T" or t[-1:] != "!" or not t[1:-1].isdigit() or abs(int(t[1:-1]) * 64 - v) > 32:
                raise Violation("tempo %s (%.2f bpm) is shown as %r" % (v, v / 64, t))


def tasks(tier):
    x = 2 if tier != "quick" else 0
    r = []
    for c, d in (({}, 6), ({"change": "default"}, 5), ({"change": 600, "label": 0}, 5), ({"page": 1, "show": {"color": G, "led_brightness": 0.5}}, 6),
                 ({"page": 1, "change": 3000, "show": {"text": "tempo"}}, 5), ({"page": 1, "label": 0}, 6), ({"tap": 1, "show": {"text": "{bpm}/{bpm}"}}, 5),
                 ({"tap": 1, "page": 1, "change": "default"}, 5)):
        r.append((bfs, ("tempo", Tempo, c, d + x), {"time_limit": 500 if x else 100}))
    r.append((enumerate_cases, ("values", Values, {}, [[("v", list(range(k, 16384, 16)))] for k in range(16)]), {}))
    return r
