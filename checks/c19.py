"""C19: parameter up/down switches with repetition."""
from mc import env, rig
from mc.env import Clock
from mc.explore import Sys, Violation, bfs
from checks.enc import PreviewModel

BOUNDS = {"quick": "one and two up/down switches on a polled and an unpolled parameter, repetition off/200/500 ms, ranges, previews, page changes: all "
                   "orders of press, release, updates (201 ms), waiting, device side changes, lost answers and page changes to depth 6-7",
          "thorough": "same, depth 8-9"}
ASSUMPTIONS = ["messages are processed by the device in the order sent"]
COL = (200, 100, 40)


class Par(Sys):
    """cfg: kind, offs: [offset], kw, vals, init, page: bool"""

    def __init__(self, cfg):
        self.cfg = cfg
        cl = env.mod("controller.client")
        UD = env.mod("clients.local.actions.param_change").PARAMETER_UP_DOWN
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        K = env.mod("clients.kemper")
        P, CC = cl.ClientParameterMapping, cl.ControlChange
        self.nr = cfg["kind"] == "nrpn"
        if self.nr:
            self.m = P.get(name="Par", set=K.KemperNRPNMessage(1, 10, 1), request=K.KemperNRPNMessage(0x41, 10, 1), response=K.KemperNRPNMessage(1, 10, 1))
        else:
            self.m = P.get(name="Par", set=CC(20, 0), response=CC(40, 0))
        lay = {"font": "f", "backColor": (9, 9, 9)}
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.prev = None
        kw = dict(cfg.get("kw", {}))
        self.max = kw.get("max_value") or (16383 if self.nr else 127)
        self.rep = kw.get("repeat_interval_millis", 200)
        if cfg.get("preview"):
            self.base_map = P.get(name="base", response=CC(90, 0))
            CB = env.mod("controller.callbacks").Callback
            me = self

            class Own(CB):
                def __init__(s):
                    super().__init__(mappings=[me.base_map])

                def update_label(s, label):
                    label.text = "base %s" % me.base_map.value
            self.prev = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 200, 100, 20), layout=dict(lay, textColor=(1, 2, 3)), callback=Own())
            root.add(self.prev)
            kw["change_display"] = self.prev
        self.labels, inputs = [], []
        self.en = True
        page = None
        if cfg.get("page"):
            PG = env.mod("clients.local.actions.pager").PagerAction
            page = PG(pages=[{"id": 1}, {"id": 2}])
        for i, o in enumerate(cfg["offs"]):
            l = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 20 * i, 100, 20), layout=lay)
            root.add(l)
            self.labels.append(l)
            k = dict(kw)
            if page:
                k.update(enable_callback=page.enable_callback, id=1)
            acts = [UD(mapping=self.m, offset=o, display=l, color=COL, **k)]
            if page:
                # the other page has a function on the same switch and label
                B = env.mod("controller.callbacks").BinaryParameterCallback
                acts.append(env.mod("controller.actions").PushButtonAction({
                    "callback": B(mapping=P.get(name="other", response=CC(91, 0)), text="other", color=(1, 2, 99)), "display": l, "id": 2, "enableCallback": page.enable_callback}))
            inputs.append((rig.Switch(), {"actions": acts}))
        if page:
            inputs.append((rig.Switch(), {"actions": [page]}))
        self.app = rig.App(inputs, root=root)
        self.n = len(cfg["offs"])
        self.dev = cfg.get("init")
        self.known = None
        self.held = [None] * self.n          # time of the last step while held
        self.pm = PreviewModel()
        self.base = None
        self.stale = self.updated = False
        self.away = [None] * self.n
        self.app.tick(201)
        self.exchange()
        if not self.nr and self.dev is not None:
            self.app.port.inq += rig.cc(40, self.dev)
            self.known = self.dev
            self.drain()
        if self.prev:
            self.content(1)
        self.last = None
        self.check(("start",))

    def roots(self):
        return (self.app, self.m, self.labels, self.prev, self.dev, self.known, self.held, self.en, self.pm, self.base, self.stale, self.updated, self.away)

    def content(self, v):
        self.base = v
        self.app.port.inq += rig.cc(90, v)
        self.drain()

    def drain(self):
        for _ in range(4):
            self.app.tick(0)

    def exchange(self, lost=False):
        sets = []
        for _ in range(4):
            for m in self.app.sent():
                if m[0] == "cc" and m[1] == 20:
                    sets.append(m[2])
                    self.dev = m[2]
                elif m[:9] == ("sx",) + rig.MAN + (2, 0x7f, 1, 0, 10) and m[9] == 1:
                    self.dev = m[10] * 128 + m[11]
                    sets.append(self.dev)
                elif self.nr and m == rig.k_req_single(10, 1):
                    if self.dev is not None and not lost:
                        self.app.port.inq += rig.k_single(10, 1, self.dev)
                        self.known = self.dev
                else:
                    raise Violation("unexpected message %r" % (m,))
            self.drain()
        if sets:
            self.known = sets[-1]        # what has been set is known, whatever was requested before
        return sets

    def events(self):
        c = self.cfg
        ev = []
        for i in range(self.n):
            # a new press while the page is away for less than an update interval cannot be told from holding on
            if not self.en and not self.updated and not self.app.hw[i].pushed:
                continue
            ev.append(("rel" if self.app.hw[i].pushed else "push", i))
        ev.append(("upd",))
        if self.nr and c.get("lost"):
            ev.append(("upd", "lost"))
        ev += [("dev", v) for v in c.get("vals", ()) if v != self.dev]
        if c.get("page"):
            ev.append(("page",))
        if c.get("idle"):
            ev.append(("idle", c["idle"]))
        if self.prev and c.get("content"):
            ev.append(("content", 3 - self.base))
        return ev

    def change(self, i, exp):
        """The step switch i does now: from the current value, or from the one just set while repeating."""
        base = self.known if self.held[i] is None else self.held[i][1]
        if base is None:
            return
        v = min(self.max, max(0, base + self.cfg["offs"][i]))
        exp.append(v)
        self.known = v
        if self.prev:
            self.pm.show("Par: %d%%" % round(v * 100 / self.max), self.cfg["kw"].get("change_timeout_millis", 1500), False, 0)
        self.held[i] = (Clock.now, v)

    def step(self, ev):
        exp, got = [], []
        k = ev[0]
        refresh = False
        stale, updated = self.stale, self.updated
        self.updated = updated or k in ("upd", "idle")
        if k == "page" and self.en:
            self.updated = False
        if k == "rel" and not self.en:
            self.away[ev[1]] = None
        if k == "push":
            self.app.hw[ev[1]].pushed = True
            if self.en:
                self.change(ev[1], exp)
            self.drain()
            got += self.exchange()
        elif k == "rel":
            self.app.hw[ev[1]].pushed = False
            self.held[ev[1]] = None
            self.drain()
        elif k in ("upd", "idle"):
            for dt in ((201,) if k == "upd" else (ev[1],)):
                self.app.tick(dt)
                if self.rep:
                    for i in range(self.n):
                        if self.held[i] is not None and self.held[i][0] + self.rep < Clock.now:
                            self.change(i, exp)
                self.pm.update()
                got += self.exchange(lost=len(ev) > 1 and ev[1] == "lost")
                refresh = True
        elif k == "dev":
            self.dev = ev[1]
            if not self.nr:
                self.app.port.inq += rig.cc(40, ev[1])
                self.known = ev[1]
                self.drain()
                refresh = True
        elif k == "page":
            h = self.app.hw[self.n]
            h.pushed = True
            self.drain()
            h.pushed = False
            self.drain()
            self.en = not self.en
            # back on the page before the next update: still held
            if not self.en:
                self.away = self.held
                self.held = [None] * self.n
            elif not updated:
                self.held = [h if self.app.hw[i].pushed else None for i, h in enumerate(self.away)]
        elif k == "content":
            self.content(ev[1])
        got += self.exchange()
        # with two switches, the value can have been requested before the change
        if refresh:
            self.stale = bool(self.n > 1 and got)
        if stale and k == "push" and len(got) == 1:
            exp = got
            self.known = got[0]
            if self.held[ev[1]]:
                self.held[ev[1]] = (self.held[ev[1]][0], got[0])
                if self.prev:
                    self.pm.text = "Par: %d%%" % round(got[0] * 100 / self.max)
        if got != exp:
            raise Violation("%r: parameter set to %r, expected %r" % (ev, got, exp))
        self.fresh = refresh
        self.check(ev)
        self.last = (ev, got)

    def check(self, ev):
        if self.prev:
            e = self.pm.text or "base %s" % self.base
            if self.prev.text != e:
                raise Violation("after %r: preview label shows %r, expected %r" % (ev, self.prev.text, e))
        if not self.en:
            return
        if self.n > 1 and ev[0] not in ("upd", "idle"):
            return              # the other switch follows with the next answer
        if ev == ("upd", "lost") or self.stale:
            return
        for i in range(self.n):
            f = (self.known or 0) / self.max
            if self.cfg["offs"][i] < 0:
                f = 1 - f
            l = self.labels[i]
            t = l.text
            if self.known is None:
                ok = t == "?%"
            else:
                ok = t.endswith("%") and t[:-1].isdigit() and abs(int(t[:-1]) - self.known * 100 / self.max) <= 0.5001
            if not ok:
                raise Violation("after %r: label %d shows %r, value is %r of %d" % (ev, i, t, self.known, self.max))
            for a, b in zip(l.back_color, COL):
                if abs(a - b * f) > 1:
                    raise Violation("after %r: label %d has colour %r at %r" % (ev, i, l.back_color, self.known))
            br = self.cfg.get("kw", {}).get("led_brightness", 0.3)
            for p in self.app.led(i):
                for a, b in zip(p, COL):
                    if abs(a - b * f * br) > 1:
                        raise Violation("after %r: LED %d has colour %r at %r" % (ev, i, p, self.known))

    def outcome(self):
        return self.last


def tasks(tier):
    th = tier == "thorough"
    d = 9 if th else 7
    r = []

    def add(depth=0, **cfg):
        r.append((bfs, ("updown", Par, cfg, d + depth), {"time_limit": 400 if th else 60}))
    add(1, kind="nrpn", offs=[100], init=16200, vals=(0, 8000))
    add(1, kind="nrpn", offs=[-3000], init=4000, vals=(16383,), kw={"repeat_interval_millis": None})
    add(1, kind="nrpn", offs=[7], init=980, kw={"max_value": 1000, "repeat_interval_millis": 500}, lost=1)
    add(1, kind="nrpn", offs=[7], init=None, vals=(3,))
    add(1, kind="cc", offs=[1], init=None, vals=(3, 126))
    add(1, kind="cc", offs=[-40], init=100, vals=(3, 50), kw={"led_brightness": 1, "repeat_interval_millis": 0})
    add(1, kind="cc", offs=[5], init=100, kw={"repeat_interval_millis": 300})
    add(kind="nrpn", offs=[1000, -1000], init=8000, vals=(16383, 500))
    add(kind="nrpn", offs=[1000, -800], init=8000, page=1)
    add(kind="cc", offs=[10], init=40, page=1, vals=(20,))
    add(kind="cc", offs=[10], init=None, page=1, vals=(20,))
    add(kind="nrpn", offs=[-1000], init=None, page=1, vals=(20,))
    add(kind="nrpn", offs=[1000], init=8000, preview=1, kw={}, idle=1501, content=1)
    add(kind="cc", offs=[10], init=40, preview=1, kw={"change_timeout_millis": 400}, idle=1001, content=1)
    add(kind="nrpn", offs=[1000, -800], init=8000, preview=1, kw={"repeat_interval_millis": 400}, idle=1501)
    return r
