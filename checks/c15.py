"""C15: tuner mode: tuner display, overridden switches, return to normal operation."""
from mc import env, rig
from mc.env import Clock
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "tuner button (latch, hold momentary), a latching function with LEDs, message switches with release messages, hold actions and hold "
                   "repetition, actions processed in tuner mode or not; own tuner display; strobe on/off; presses, "
                   "releases, waiting, parameter changes, tuner switched at the device and late reports in every order, depth 6-8",
          "thorough": "same, depth 7-9"}
ASSUMPTIONS = ["the device switches the tuner by CC 31 and reports every change of it, in order (bidirectional mode)",
               "a switch pressed before the tuner mode began gets no release when it goes up in tuner mode (as documented in the code for the tuner button)"]
COL = (200, 100, 40)


def tuner(v):
    return rig.k_single(0x7f, 0x7e, v)


class Tuner(Sys):
    """cfg: sw: list of kinds, process: bool, strobe: bool, own: bool, long: waiting times"""

    def __init__(self, cfg):
        self.cfg = cfg
        cl, A = env.mod("controller.client"), env.mod("controller.actions")
        BP = env.mod("controller.callbacks").BinaryParameterCallback
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        K = env.mod("clients.kemper")
        TM = env.mod("clients.kemper.actions.tuner").TUNER_MODE
        CM = env.mod("clients.local.actions.custom").CUSTOM_MESSAGE
        PG = env.mod("clients.local.actions.pager").PagerAction
        PB = A.PushButtonAction
        self.kinds = cfg["sw"]
        self.n = len(self.kinds)
        self.root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.par = cl.ClientParameterMapping.get(name="Par", set=cl.ControlChange(20, 0), response=cl.ControlChange(20, 0))
        inputs = []
        for i, k in enumerate(self.kinds):
            d = {}
            if k == "tuner":
                d["actions"] = [TM(mode=PB.LATCH)]
            elif k == "tunerhm":
                d["actions"] = [TM()]
            elif k == "latch":
                d["actions"] = [PB({"callback": BP(mapping=self.par, color=COL), "mode": PB.LATCH, "useSwitchLeds": True})]
            else:
                d["actions"] = [CM(message=(0xb0, 50 + i, 1), message_release=(0xb0, 50 + i, 0), color=COL)]
                if k in ("hold", "rep"):
                    d["actionsHold"] = [CM(message=(0xb0, 60 + i, 1), message_release=(0xb0, 60 + i, 0), use_leds=False)]
                    d["holdTimeMillis"] = 600
                    d["holdRepeat"] = k == "rep"
            inputs.append((rig.Switch(), d))
        kw = {}
        self.own = None
        if cfg.get("own"):
            self.own = kw["splash_tuner"] = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.splash = K.TunerDisplayCallback(splash_default=self.root, process_overridden_actions=cfg.get("process", False),
                                             strobe=cfg.get("strobe", False), strobe_color=(100, 200, 50), strobe_dim=0.5, **kw)
        self.app = rig.App(inputs, root=self.root, splash=self.splash)
        self.proc = cfg.get("process", False)
        self.dev_t = 0            # tuner of the device
        self.reps = []            # reports on their way
        self.T = False            # tuner mode as last reported
        self.pb = False           # some switch was pressed in tuner mode
        self.press = [None] * self.n     # None or dict(k=norm|over, t=time left until hold, fired, maybe)
        self.p = 0                # parameter of the latching function
        self.tst = False          # state of the tuner button function
        self.dark = False
        self.last = None
        self.app.tick(201)
        self.app.tick(0)
        self.app.sent()
        self.app.feed(rig.cc(20, 0))
        self.app.tick(201)
        self.check_view(("start",), True)

    def roots(self):
        return (self.app, self.splash, self.dev_t, self.reps, self.T, self.pb, self.press, self.p, self.tst, self.dark)

    def events(self):
        ev = [(("rel" if self.app.hw[i].pushed else "push"), i) for i in range(self.n)]
        if len(self.reps) < 2:
            ev.append(("dev",))
        if self.reps:
            ev.append(("report",))
        elif not self.cfg.get("nore"):
            ev.append(("repeat",))
        ev.append(("upd",))
        if any(k in ("hold", "rep", "tunerhm") for k in self.kinds):
            ev.append(("wait",))
        if "latch" in self.kinds and not self.cfg.get("nopar"):
            ev.append(("par",))
        if self.cfg.get("strobe"):
            ev += [("dv", 0), ("dv", 9000)]
        return ev

    # --- model
    def act_push(self, i, out):
        k = self.kinds[i]
        if k == "tuner" or k == "tunerhm":
            self.tst = not self.tst
            out.append(("cc", 31, int(self.tst)))
        elif k == "latch":
            self.p = 0 if self.p else 1
            out.append(("cc", 20, self.p))
        else:
            out.append(("cc", 50 + i, 1))

    def act_release(self, i, out):
        if self.kinds[i] == "tunerhm":
            if self.press[i]["since"] > 600:
                self.tst = not self.tst
                out.append(("cc", 31, int(self.tst)))
        elif self.kinds[i] not in ("tuner", "latch"):
            out.append(("cc", 50 + i, 0))

    def model(self, ev):
        """-> list of alternatives (lists of messages)"""
        k = ev[0]
        out = []
        if k == "push":
            i = ev[1]
            pr = self.press[i] = {"over": self.T, "since": 0, "hold": None, "fired": 0, "pushed": False}
            if self.T:
                self.pb = True
                if not self.proc:
                    return [out]
            if self.kinds[i] in ("hold", "rep"):
                pr["hold"] = 0
            else:
                self.act_push(i, out)
            pr["pushed"] = True
        elif k == "rel":
            i = ev[1]
            pr = self.press[i]
            maybe = False
            if self.T:
                ended = self.pb
                if ended:
                    out.append(("cc", 31, 0))
                self.pb = False
                if not self.proc or not ended:
                    # swallowed. With actions processed in tuner mode, one release may stand for several switches
                    maybe = self.proc and pr["pushed"]
                    if not maybe:
                        self.press[i] = None
                        return [out]
            if not pr["pushed"]:
                self.press[i] = None
                return [out]
            more = []
            if pr["hold"] is not None:
                if not pr["fired"]:
                    self.act_push(i, more)
                    self.act_release(i, more)
            else:
                self.act_release(i, more)
            self.press[i] = None
            return [out + more] + ([out] if maybe else [])
        return [out]

    def hold_fire(self, i):
        return [("cc", 60 + i, 1), ("cc", 60 + i, 0)]

    def step(self, ev):
        a = self.app
        k = ev[0]
        dt = 0
        if k in ("push", "rel"):
            a.hw[ev[1]].pushed = k == "push"
        alts = self.model(ev)
        was = self.T
        if k == "dev":
            self.dev_t = 1 - self.dev_t
            self.reps.append(self.dev_t)
        elif k == "report":
            v = self.reps.pop(0)
            a.feed(tuner(v))
            self.set_t(v)
        elif k == "repeat":
            a.feed(tuner(self.dev_t))
            self.set_t(self.dev_t)
        elif k == "par":
            self.p = 0 if self.p else 1
            a.feed(rig.cc(20, self.p))
        elif k == "dv":
            a.feed(rig.k_single(0x7c, 0x0f, ev[1]))
            if self.T and self.cfg.get("strobe"):
                self.dark = False
        elif k == "upd":
            dt = 201
        elif k == "wait":
            dt = 701
        if dt:
            for i, pr in enumerate(self.press):
                if not pr:
                    continue
                pr["since"] = min(pr["since"] + dt, 1501)
                if pr["hold"] is not None:
                    pr["hold"] += dt
                    rep = self.kinds[i] == "rep"
                    if pr["hold"] > 600 and (rep or not pr["fired"]):
                        pr["hold"] = 0
                        f = self.hold_fire(i)
                        if was and not self.proc:
                            # begun before the tuner mode: may or may not go on
                            alts = [x + f for x in alts] + alts
                            pr["fired"] = 1
                        else:
                            alts = [x + f for x in alts]
                            pr["fired"] = 1
                    if pr["hold"] > 600:
                        pr["hold"] = 701
        a.tick(dt)
        for _ in range(3):
            a.tick(0)
        got = a.sent()
        self.last = tuple(got)
        if got not in alts:
            raise Violation("%s in tuner mode %s: sent %s, expected %s" % (ev, was, got, " or ".join(map(str, alts))))
        # device side
        for m in got:
            if m[:2] == ("cc", 31):
                if m[2] != self.dev_t:
                    self.dev_t = m[2]
                    self.reps.append(m[2])
            elif m[:2] == ("cc", 20):
                a.feed(rig.cc(20, m[2]))
                a.tick(0)
        if k == "par" and self.T:
            self.dark = False
        self.check_view(ev, dt > 200 or (was and not self.T))

    def set_t(self, v):
        if v == 1:
            self.dark = True
            self.T = True
            self.tst = True
        else:
            self.T = self.dark = False
            self.pb = False
            self.tst = False

    def check_view(self, ev, settled):
        shown = self.app.display.tft.shown
        if self.T:
            ok = shown is self.own.splash if self.own else shown is not None and shown is not self.root.splash
        else:
            ok = shown is self.root.splash
        if not ok:
            raise Violation("%s: display shows the %s display, tuner mode is %s" % (ev, "default" if shown is self.root.splash else "tuner", self.T))
        leds = self.app.leds.leds
        if self.T and not self.proc and not self.cfg.get("strobe"):
            if self.dark and any(tuple(x) != (0, 0, 0) for x in leds):
                raise Violation("%s: LEDs are not dark in tuner mode: %s" % (ev, leds))
        elif self.T and self.cfg.get("strobe"):
            for x in leds:
                if not self.proc and not all(0 <= x[j] <= (100, 200, 50)[j] * 0.5 for j in range(3)) and not self.par_shown(x):
                    raise Violation("%s: strobe LEDs exceed colour and brightness: %s" % (ev, leds))
        elif not self.T and settled:
            for i, k in enumerate(self.kinds):
                exp = {"latch": COL if self.p else None, "msg": None, "hold": None, "rep": None}.get(k, 0)
                if k == "latch":
                    f = 0.3 if self.p else 0.02
                elif k in ("tuner", "tunerhm"):
                    exp = env.mod("colors").DEFAULT_SWITCH_COLOR
                    f = 0.3 if self.tst else 0.02
                else:
                    continue
                col = exp or COL
                want = tuple(int(c * f) for c in col)
                if any(tuple(x) != want for x in self.app.led(i)):
                    raise Violation("%s: after tuner mode LEDs of switch %s show %s instead of %s" % (ev, i, self.app.led(i), want))

    def par_shown(self, x):
        return True if not self.dark else False

    def outcome(self):
        return (self.T, self.last)


def tasks(tier):
    th = tier == "thorough"
    r = []

    def add(d, sw, **kw):
        r.append((bfs, ("tuner", Tuner, dict(sw=sw, **kw), d + (1 if th else 0)), {"time_limit": 250 if th else 60}))
    add(8, ["tuner", "msg"])
    add(6, ["tunerhm", "latch"])
    add(7, ["msg", "hold"])
    add(7, ["msg", "rep"])
    add(6, ["tuner", "latch", "hold"], own=1)
    add(8, ["tuner", "msg"], process=1)
    add(7, ["msg", "hold"], process=1)
    add(7, ["latch", "rep"], process=1)
    add(6, ["tuner", "latch"], strobe=1)
    add(6, ["latch", "hold"], strobe=1, process=1)
    return r
