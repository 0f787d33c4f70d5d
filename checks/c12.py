"""C12: on/off functions mirror the device: state, messages, LEDs, labels."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "5 comparison modes, reference values, restoring the off value, separate off parameter, several messages, colour callback, "
                   "write-only functions, brightness/dim settings; polled and bidirectional device; presses, device side changes, lost "
                   "answers, outages, page-like enable changes in every order, depth 6-7",
          "thorough": "same, depth 8-9"}
ASSUMPTIONS = ["the device applies the messages it gets", "the simulated device answers as the Kemper MIDI documentation says"]

VALS = (0, 2, 3, 5, 6, 9, 10)
CMP = {0: lambda v, r: v == r, 10: lambda v, r: v > r, 20: lambda v, r: v >= r, 30: lambda v, r: v < r, 40: lambda v, r: v <= r, 999: lambda v, r: False}


class Bin(Sys):
    def __init__(self, cfg):
        self.cfg = cfg
        cl = env.mod("controller.client")
        BP = env.mod("controller.callbacks").BinaryParameterCallback
        A = env.mod("controller.actions")
        El = env.mod("ui.elements")
        Ui = env.mod("ui.ui")
        self.label = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 100, 20), layout={"font": "f", "backColor": (9, 9, 9)})
        P, CC, SX = cl.ClientParameterMapping, cl.ControlChange, cl.SystemExclusive
        self.bi = cfg.get("bi", False)
        prot = None
        K = env.mod("clients.kemper")
        if self.bi:
            prot = K.KemperBidirectionalProtocol(time_lease_seconds=30)
            m = K.KemperMappings.EFFECT_STATE(0)
            self.addr, self.cc = (0x32, 3), [17]
        else:
            self.addr, self.cc = (10, 1), cfg.get("ccs", [20])
            sets = [CC(c, 0) for c in self.cc]
            resp = {} if cfg.get("noresponse") else {
                "request": K.KemperNRPNMessage(0x41, 10, 1), "response": K.KemperNRPNMessage(1, 10, 1)}
            m = P.get(name="bp", set=sets[0] if len(sets) == 1 else sets, **resp)
        self.m = m
        kw = dict(cfg.get("kw", {}))
        md = None
        if cfg.get("disable_cc"):
            md = P.get(name="bpd", set=CC(cfg["disable_cc"], 0))
            kw["mapping_disable"] = md
        self.color = lambda v: ((v or 0) * 20, 100, 7)
        if cfg.get("colorcb"):
            kw["color_callback"] = lambda action, value: self.color(value)
        else:
            kw["color"] = (200, 100, 40)
        self.cb = BP(mapping=m, **kw)
        self.en = True
        me = self

        class En:
            def init(s, appl):
                pass

            def enabled(s, action):
                return me.en
        self.act = A.PushButtonAction({"callback": self.cb, "display": self.label, "mode": A.PushButtonAction.LATCH,
                                       "useSwitchLeds": True, "enableCallback": En()})
        self.app = rig.App([(rig.Switch(), {"actions": [self.act]})], root=self.label, protocol=prot, config=cfg.get("config", {}))
        if self.bi:
            self.app.update()
            self.app.recv(rig.k_sense())
        # device
        self.d = 0
        # model
        self.dirty = False           # pressed since the last value known from the device
        self.off = None              # last value reported while off (for "auto")
        self.known = None
        self.app.update()
        self.swallow()
        self.answer("lost")
        self.act_state = self.act.state
        self.last = None
        self.offline()

    def roots(self):
        return (self.app, self.m, self.cb, self.act, self.label, self.d, self.dirty, self.off, self.known, self.en)

    def swallow(self):
        pass

    def reference(self):
        kw = self.cfg.get("kw", {})
        r = kw.get("reference_value")
        if r is None:
            r = kw.get("value_enable", 1)
            if isinstance(r, list):
                r = r[0]
        return r

    def cmp(self, v):
        if v is None:
            return False
        return CMP[self.cfg.get("kw", {}).get("comparison_mode", 20)](v, self.reference())

    def events(self):
        ev = [("en",)]
        undetermined = self.act.state and self.off is None and "auto" in (lambda v: v if isinstance(v, list) else [v])(
            self.cfg.get("kw", {}).get("value_disable", 0))
        if not undetermined or self.cfg.get("race"):
            ev += [("tap", "ok")] + ([] if self.bi else [("tap", "lost")])
        if self.cfg.get("refuse"):
            ev += [("tap", "refused")]
        if self.bi:
            ev += [("push", v) for v in (0, 1)] + [("loss",), ("upd", "lost")]
        else:
            ev += [("upd", "ok"), ("upd", "lost"), ("offline",)]
            if not self.dirty or self.cfg.get("race"):
                ev += [("dev", v) for v in self.cfg.get("vals", VALS) if v != self.d]
        return ev

    def answer(self, how):
        """Let the device process what was sent. Returns (messages set, answered)."""
        sets, answered = [], False
        for m in self.app.sent():
            if m[0] == "cc":
                sets.append(m)
                if (m[1] == self.cc[0] or m[1] == self.cfg.get("disable_cc")) and how != "refused":
                    self.d = m[2]
            elif m == rig.k_req_single(*self.addr):
                if how != "lost":
                    self.app.feed(rig.k_single(*self.addr, self.d))
                    answered = True
            elif m[:6] == ("sx", 0, 32, 51, 2, 127) and m[6] == 0x7E:
                pass
            else:
                raise Violation("unexpected message %r" % (m,))
        if answered:
            self.app.tick(0)
            self.app.tick(0)
        more = self.app.sent()
        if more:
            raise Violation("unexpected messages after an answer: %r" % (more,))
        return sets, answered

    def offline(self):
        if self.bi or self.cfg.get("noresponse"):
            return
        for _ in range(6):
            self.app.tick(1001)
            s, a = self.answer("lost")
            if s:
                raise Violation("set message without a press: %r" % (s,))
        self.known = None
        if self.en and not self.dirty and self.cfg.get("kw", {}).get("comparison_mode") != 999 and self.act.state:
            raise Violation("shown as on although the device does not answer")

    def step(self, ev):
        app = self.app
        answered = False
        cfg = self.cfg
        kw = cfg.get("kw", {})
        if ev[0] == "tap":
            before = self.act.state
            app.hw[0].pushed = True
            app.tick(0)
            sets, answered = self.answer(ev[1])
            app.hw[0].pushed = False
            app.tick(0)
            if app.sent():
                raise Violation("messages sent on release of a latch switch")
            exp = []
            if self.en:
                ve, vd = kw.get("value_enable", 1), kw.get("value_disable", 0)
                if not before:
                    vals = ve if isinstance(ve, list) else [ve]
                    ccs = self.cc
                elif md_cc(cfg):
                    vals, ccs = [vd], [md_cc(cfg)]
                else:
                    vals, ccs = vd if isinstance(vd, list) else [vd], self.cc
                if "auto" in vals:
                    if self.off is None:
                        vals, ccs = [], []
                    else:
                        vals = [self.off if v == "auto" else v for v in vals]
                exp = [("cc", c, v) for c, v in zip(ccs, vals)]
                self.dirty = True
                if not answered and self.act.state == before and not (self.bi and exp == []):
                    raise Violation("press did not toggle the state")
            if sets != exp:
                raise Violation("press while %s: sent %r, expected %r" % ("on" if before else "off", sets, exp))
            if self.bi and self.en:
                answered = True      # the set value is taken as reported
        elif ev[0] == "en":
            self.en = not self.en
            # the application resets all actions on such changes (page change)
            app.ctl.reset_actions()
            app.tick(1001)
            sets, answered = self.answer("ok")
            if sets:
                raise Violation("set message without a press: %r" % (sets,))
            if self.en and (self.bi or cfg.get("noresponse")):
                self.dirty = False
        elif ev[0] == "dev":
            self.d = ev[1]
        elif ev[0] == "push":
            self.d = ev[1]
            app.recv(rig.k_single(*self.addr, ev[1]))
            answered = True
        elif ev[0] == "loss":
            app.tick(1600)
            app.tick(5001)
            app.tick(5001)
            self.answer("lost")
            app.recv(rig.k_sense())
            if self.en and self.act.state:
                raise Violation("shown as on although the connection got lost")
            self.known = None
            self.check_display(ev)
            self.dirty = False
            self.m_none = True
        elif ev[0] == "upd":
            if self.bi:
                app.recv(rig.k_sense())
            app.tick(1001)
            sets, answered = self.answer(ev[1])
            if sets:
                raise Violation("set message without a press: %r" % (sets,))
        elif ev[0] == "offline":
            self.offline()
        if answered:
            self.known = self.d
            if self.en and kw.get("comparison_mode") != 999:
                if self.act.state != self.cmp(self.d):
                    raise Violation("after %r: device reports %r, shown as %s" % (ev, self.d, "on" if self.act.state else "off"))
            if not self.cmp(self.d) and self.en:
                self.off = self.d
            self.dirty = False
        self.check_display(ev)
        self.last = (ev[0], self.act.state, self.d, self.app.led(0)[0])

    def check_display(self, ev):
        if not self.en:
            return
        cfg, kw, app = self.cfg, self.cfg.get("kw", {}), self.app
        conf = cfg.get("config", {})
        active = not cfg.get("noresponse") or kw.get("use_internal_state")
        on = self.act.state and active

        def pick(key, on, con, dflt_on, coff, dflt_off):
            v = kw.get(key)
            if v is None:
                return conf.get(con, dflt_on) if on else conf.get(coff, dflt_off)
            if v == "on":
                return conf.get(con, dflt_on)
            if v == "off":
                return conf.get(coff, dflt_off)
            return v
        br = pick("led_brightness_on" if on else "led_brightness_off", on, "ledBrightnessOn", 0.3, "ledBrightnessOff", 0.02)
        dim = pick("display_dim_factor_on" if on else "display_dim_factor_off", on, "displayDimFactorOn", 1, "displayDimFactorOff", 0.2)
        col = self.color(self.m.value) if cfg.get("colorcb") else (200, 100, 40)
        e = tuple(int(c * br) for c in col)
        for g in app.led(0):
            if any(abs(a - b) > 1 for a, b in zip(g, e)):
                raise Violation("after %r: state %s, LED shows %r, expected %r" % (ev, self.act.state, g, e))
        e = tuple(int(c * dim) for c in col)
        if self.label.back_color != e:
            raise Violation("after %r: state %s, label colour %r, expected %r" % (ev, self.act.state, self.label.back_color, e))
        t = kw.get("text")
        if t:
            e = t
            if not self.act.state and active and kw.get("text_disabled"):
                e = kw["text_disabled"]
            if self.label.text != e:
                raise Violation("after %r: state %s, label text %r, expected %r" % (ev, self.act.state, self.label.text, e))

    def outcome(self):
        return self.last


def md_cc(cfg):
    return cfg.get("disable_cc")


def tasks(tier):
    x = 0 if tier == "quick" else 2
    C = [
        {"kw": {}, "vals": (0, 1, 2)},
        {"kw": {"text": "T"}, "vals": (0, 1)},
        {"kw": {"comparison_mode": 0, "value_enable": 10, "value_disable": 3, "text": "T", "text_disabled": "t"}},
        {"kw": {"comparison_mode": 10, "reference_value": 5, "value_enable": 10, "value_disable": 0}, "config": {"ledBrightnessOn": 0.8, "displayDimFactorOff": 0.5}},
        {"kw": {"comparison_mode": 20, "reference_value": 5, "value_enable": 9, "value_disable": 3}},
        {"kw": {"comparison_mode": 30, "reference_value": 5, "value_enable": 2, "value_disable": 5}},
        {"kw": {"comparison_mode": 40, "reference_value": 5, "value_enable": 2, "value_disable": 9}},
        {"kw": {"comparison_mode": 0, "reference_value": 3, "value_enable": 3, "value_disable": 0}},
        {"kw": {"value_enable": 9, "value_disable": "auto"}, "vals": (0, 3, 5, 9)},
        {"kw": {"comparison_mode": 0, "value_enable": 6, "value_disable": "auto"}, "vals": (0, 5, 6, 9)},
        {"kw": {"value_enable": 5, "value_disable": 0}, "disable_cc": 30, "vals": (0, 5)},
        {"kw": {"value_enable": [5, 6], "value_disable": [0, 2]}, "ccs": [21, 22], "vals": (0, 5, 9)},
        {"kw": {"value_enable": [5, 6], "value_disable": [0, 2], "reference_value": 3}, "ccs": [21, 22], "vals": (0, 3, 5)},
        {"colorcb": True, "kw": {"text": "C"}, "vals": (0, 1, 2)},
        {"noresponse": True, "kw": {"text": "N", "text_disabled": "n"}, "vals": ()},
        {"noresponse": True, "kw": {"text": "N", "text_disabled": "n", "use_internal_state": True, "comparison_mode": 999}, "vals": ()},
        {"kw": {"comparison_mode": 999, "text": "X", "text_disabled": "x"}, "vals": (0, 1)},
        {"kw": {"led_brightness_on": "off", "led_brightness_off": "on", "display_dim_factor_on": "off", "display_dim_factor_off": "on"}, "vals": (0, 1)},
        {"kw": {"led_brightness_on": 0.9, "led_brightness_off": 0.1, "display_dim_factor_on": 0.7, "display_dim_factor_off": 0.4},
         "vals": (0, 1), "config": {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.05, "displayDimFactorOn": 0.6, "displayDimFactorOff": 0.3}},
        {"kw": {"led_brightness_on": "off", "display_dim_factor_off": "on"}, "vals": (0, 1),
         "config": {"ledBrightnessOn": 0.5, "ledBrightnessOff": 0.05, "displayDimFactorOn": 0.6, "displayDimFactorOff": 0.3}},
        {"bi": True, "kw": {"text": "B", "text_disabled": "b"}},
        {"bi": True, "kw": {}},
    ]
    r = [(bfs, ("onoff", Bin, c, 6 + x), {"time_limit": 60 if tier == "quick" else 400}) for c in C]
    # switching off while the value to restore is not known yet: nothing can be sent
    r.append((bfs, ("onoff-undetermined", Bin, {"kw": {"value_enable": 9, "value_disable": "auto"}, "vals": (), "race": True}, 4),
              {"time_limit": 60}))
    # the device does not apply the change, or changes back before the next answer
    r.append((bfs, ("onoff-race", Bin, {"kw": {}, "vals": (0, 1), "race": True, "refuse": True}, 5), {"time_limit": 60}))
    return r
