"""C02: short press versus hold actions."""
from mc import env
from mc.explore import Sys, Violation, bfs
from mc import rig
from checks.c01 import make_actions

BOUNDS = {"quick": "1-2 switches with hold actions (with/without repeat, default and custom hold time), enabled "
                   "flags toggling; waits below/above the hold time, update ticks; BFS to depth 7 or fixpoint",
          "thorough": "as quick, BFS to depth 10"}
ASSUMPTIONS = ["a hold duration exactly equal to the hold time is not judged (never generated)"]


class Hold(Sys):
    def __init__(self, cfg):
        self.cfg = cfg
        self.log, self.en = [], {}
        self.sw = []
        inputs = []
        for i, c in enumerate(cfg["switches"]):
            acts, flat = make_actions(c["actions"], self.log, self.en, "%ds" % i)
            hold, hflat = make_actions(c["hold"], self.log, self.en, "%dh" % i)
            d = {"actions": acts, "actionsHold": hold}
            H = 600
            if "time" in c:
                d["holdTimeMillis"] = H = c["time"]
            if "repeat" in c:
                d["holdRepeat"] = c["repeat"]
            inputs.append((rig.Switch(), d))
            self.sw.append({"flat": flat, "hold": hflat, "H": H, "repeat": c.get("repeat", False),
                            "down": False, "last": 0, "fired": False})
        self.app = rig.App(inputs)
        self.last = None

    def roots(self):
        return (self.app, self.en, self.sw)

    def events(self):
        dts = self.cfg.get("dts", (1, 250, 1001))
        ev = []
        for i in range(len(self.sw)):
            for dt in dts:
                ev.append(("sw", i, dt))
        for dt in dts:
            ev.append(("wait", dt))
        if self.cfg.get("toggle", True):
            ev += [("en", n) for n in sorted(self.en)]
        return ev

    def step(self, ev):
        app = self.app
        if ev[0] == "en":
            self.en[ev[1]] = not self.en[ev[1]]
            return
        if ev[0] == "sw":
            app.hw[ev[1]].pushed = not app.hw[ev[1]].pushed
        app.tick(ev[-1])
        t = env.Clock.now
        expect = []

        def run(names):
            for a in names:
                if self.en.get(a, True):
                    expect.append(("push", a))
                    expect.append(("release", a))

        for i, s in enumerate(self.sw):
            p = app.hw[i].pushed
            if not s["hold"]:
                if p != s["down"]:
                    s["down"] = p
                    expect += [("push" if p else "release", a) for a in s["flat"] if self.en.get(a, True)]
                continue
            if p and not s["down"]:
                s.update(down=True, last=t, fired=False)
                continue
            if not s["down"]:
                continue
            due = (not s["fired"] or s["repeat"]) and t - s["last"] > s["H"]
            if due:
                s.update(fired=True, last=t)
                run(s["hold"])
            if not p:
                if not s["fired"]:
                    run(s["flat"])
                s.update(down=False, last=0, fired=False)
        got = list(self.log)
        del self.log[:]
        if got != expect:
            raise Violation("after %r at +%d ms: expected %r, got %r" % (ev, t - env.T0, expect, got))
        self.last = got

    def outcome(self):
        return self.last


def tasks(tier):
    d = 7 if tier == "quick" else 10
    cfgs = [
        {"switches": [{"actions": ["a"], "hold": ["x"]}]},
        {"switches": [{"actions": ["a"], "hold": ["x"], "repeat": True}]},
        {"switches": [{"actions": ["A", "b"], "hold": ["x", "Y"]}]},
        {"switches": [{"actions": ["A", "b"], "hold": ["x", "Y"], "repeat": True, "time": 400}]},
        {"switches": [{"actions": ["a"], "hold": ["X"]}]},
        {"switches": [{"actions": ["a"], "hold": ["X", ["Y"]], "repeat": True}]},
        {"switches": [{"actions": [], "hold": ["x"], "time": 2000}], "dts": (1, 700, 2001)},
        {"switches": [{"actions": ["a"], "hold": ["x"], "time": 200}, {"actions": ["b"], "hold": ["y"], "time": 1500}],
         "dts": (1, 201, 801)},
        {"switches": [{"actions": ["a"], "hold": ["x"], "repeat": True}, {"actions": ["b"], "hold": ["y"]}]},
        {"switches": [{"actions": ["a"], "hold": ["x"], "repeat": True}, {"actions": ["b", "C"], "hold": []}]},
    ]
    return [(bfs, ("hold", Hold, c, d), {"time_limit": 90 if tier == "quick" else 500}) for c in cfgs]
