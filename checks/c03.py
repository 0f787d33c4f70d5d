"""C03: push button modes."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "all 8 modes x default/custom hold time; press/release/wait/device feedback/reset in any order, "
                   "BFS to depth 8 or fixpoint; pairs of actions on one switch",
          "thorough": "as quick to depth 12"}
ASSUMPTIONS = ["a press lasting exactly the hold time is not judged (never generated)"]

MODES = ["ENABLE", "DISABLE", "LATCH", "MOMENTARY", "MOMENTARY_INVERSE", "HOLD_MOMENTARY", "ONE_SHOT", "NO_STATE_CHANGE"]


class Model:
    def __init__(self, mode, H):
        self.mode, self.H = mode, H
        self.state = False
        self.t = 0
        self.calls = []

    def set(self, v):
        if v != self.state:
            self.state = v
            self.calls.append(v)

    def push(self, now):
        m = self.mode
        if m in ("ENABLE", "MOMENTARY"):
            self.set(True)
        elif m in ("DISABLE", "MOMENTARY_INVERSE"):
            self.set(False)
        elif m in ("LATCH", "HOLD_MOMENTARY"):
            self.set(not self.state)
            self.t = now
        elif m == "ONE_SHOT":
            self.state = True
            self.calls.append(True)

    def release(self, now):
        m = self.mode
        if m == "MOMENTARY":
            self.set(False)
        elif m == "MOMENTARY_INVERSE":
            self.set(True)
        elif m == "HOLD_MOMENTARY":
            if now - self.t > self.H:
                self.set(not self.state)
        elif m == "ONE_SHOT":
            self.state = False


class Modes(Sys):
    def __init__(self, cfg):
        A = env.mod("controller.actions")
        C = env.mod("controller.callbacks")
        self.calls = []
        outer = self

        class Cb(C.Callback):
            def __init__(self, k):
                super().__init__(mappings=[])
                self.k = k

            def state_changed_by_user(self):
                outer.calls.append((self.k, self.action.state))

            def update_displays(self):
                pass

        self.acts, self.models = [], []
        for k, (mode, H) in enumerate(cfg["actions"]):
            c = {"callback": Cb(k), "id": k}
            if mode is not None:
                c["mode"] = getattr(A.PushButtonAction, mode)
            if H:
                c["holdTimeMillis"] = H
            self.acts.append(A.PushButtonAction(c))
            self.models.append(Model(mode or "HOLD_MOMENTARY", H or 600))
        self.app = rig.App([(rig.Switch(), {"actions": self.acts})])
        self.app.update()
        self.cfg = cfg
        self.last = None

    def roots(self):
        return (self.app, self.models)

    def events(self):
        ev = [("sw", dt) for dt in self.cfg["dts"]] + [("wait", 1001)]
        for k in range(len(self.acts)):
            ev += [("fb", k, True), ("fb", k, False), ("reset", k)]
        return ev

    def step(self, ev):
        app = self.app
        for m in self.models:
            m.calls = []
        if ev[0] == "sw":
            app.hw[0].pushed = not app.hw[0].pushed
            app.tick(ev[1])
            for m in self.models:
                (m.push if app.hw[0].pushed else m.release)(env.Clock.now)
        elif ev[0] == "wait":
            app.tick(ev[1])
        elif ev[0] == "fb":
            self.acts[ev[1]].feedback_state(ev[2])
            self.models[ev[1]].state = ev[2]
        else:
            self.acts[ev[1]].reset()
            self.models[ev[1]].state = False
        expect = [(k, v) for k, m in enumerate(self.models) for v in m.calls]
        got = list(self.calls)
        del self.calls[:]
        if got != expect:
            raise Violation("%s after %r: functional changes expected %r, got %r" % (self.cfg["actions"], ev, expect, got))
        st = [a.state for a in self.acts]
        if st != [m.state for m in self.models]:
            raise Violation("%s after %r: state %r, expected %r" % (self.cfg["actions"], ev, st, [m.state for m in self.models]))
        self.last = (got, st)

    def outcome(self):
        return self.last


def tasks(tier):
    d = 8 if tier == "quick" else 12
    cfgs = []
    for m in MODES + [None]:
        cfgs.append({"actions": [(m, 0)], "dts": (1, 250, 601)})
    cfgs.append({"actions": [("HOLD_MOMENTARY", 200)], "dts": (1, 150, 201)})
    cfgs.append({"actions": [("HOLD_MOMENTARY", 3000)], "dts": (1, 1700, 3001)})
    for m in MODES:
        cfgs.append({"actions": [(m, 0), ("LATCH", 0)], "dts": (1, 601)})
        cfgs.append({"actions": [("HOLD_MOMENTARY", 1500), (m, 0)], "dts": (1, 801)})
    if tier == "thorough":
        for m in MODES:
            for m2 in MODES:
                cfgs.append({"actions": [(m, 0), (m2, 900)], "dts": (1, 601)})
    return [(bfs, ("mode", Modes, c, d if len(c["actions"]) == 1 else d - 3), {"time_limit": 60 if tier == "quick" else 300}) for c in cfgs]
