"""C01: press/release dispatch of switches without hold actions."""
from mc import env
from mc.explore import Sys, Violation, bfs, enumerate_cases
from mc import rig

BOUNDS = {"quick": "1-3 switches, 1-4 actions each (nested lists), all enable patterns, BFS to fixpoint; "
                   "updates, bursts of incoming MIDI and idle polls interleaved",
          "thorough": "as quick with larger switch/action sets, BFS to fixpoint"}
ASSUMPTIONS = ["a press shorter than the time between two polls is invisible to the hardware interface"]


def effect(name, en, how):
    """Actions named p/q change what is enabled, like a pager does: p toggles all others when pushed, q when released."""
    if name[1:] == ("p" if how == "push" else "q"):
        for k in en:
            en[k] = not en[k]


def make_actions(shape, log, en, prefix):
    A = env.mod("controller.actions")

    class En:
        def __init__(self, name):
            self.name = name

        def init(self, appl):
            pass

        def enabled(self, action):
            return en[self.name]

    class Rec(A.Action):
        def push(self):
            log.append(("push", self.id))
            effect(self.id, en, "push")

        def release(self):
            log.append(("release", self.id))
            effect(self.id, en, "release")

    flat = []

    def build(shape):
        r = []
        for x in shape:
            if isinstance(x, (list, tuple)):
                r.append(build(x))
            else:
                name = prefix + x
                cfg = {"id": name}
                if x.isupper():
                    en[name] = True
                    cfg["enableCallback"] = En(name)
                flat.append(name)
                r.append(Rec(cfg))
        return r

    return build(shape), flat


class Dispatch(Sys):
    def __init__(self, cfg):
        self.log = []
        self.en = {}
        inputs = []
        self.flat = []
        for i, shape in enumerate(cfg["switches"]):
            acts, flat = make_actions(shape, self.log, self.en, "%d" % i)
            self.flat.append(flat)
            inputs.append((rig.Switch(), {"actions": acts}))
        self.app = rig.App(inputs, led_pixels=cfg.get("pixels", 3))
        self.down = [False] * len(inputs)        # model: level last seen
        self.n = len(inputs)
        self.cfg = cfg
        self.toggles = sorted(self.en)
        if self.log:
            raise Violation("actions triggered before any press: %r" % self.log)

    def roots(self):
        return (self.app, self.en, self.down)

    def events(self):
        ev = [("sw", i, not self.app.hw[i].pushed, how) for i in range(self.n) for how in ("tick", "update", "burst")]
        ev += [("en", t) for t in self.toggles]
        ev += [("poll", 0), ("poll", 1001)]
        # two switches changing between the same two polls
        if self.n > 1:
            ev += [("both",)]
        return ev

    def step(self, ev):
        app = self.app
        expect = []
        if ev[0] == "en":
            self.en[ev[1]] = not self.en[ev[1]]
        en = dict(self.en)
        if ev[0] == "en":
            pass
        elif ev[0] == "poll":
            app.tick(ev[1])
        else:
            idx = [ev[1]] if ev[0] == "sw" else list(range(self.n))
            for i in idx:
                app.hw[i].pushed = not app.hw[i].pushed
            how = ev[3] if ev[0] == "sw" else "tick"
            if how == "burst":
                app.feed(*[rig.cc(7, k) for k in range(5)])
                app.tick(0)
            elif how == "update":
                app.tick(1001)
            else:
                app.tick(0)
        for i in range(self.n):
            p = app.hw[i].pushed
            if p != self.down[i]:
                self.down[i] = p
                for a in self.flat[i]:
                    if en.get(a, True):
                        expect.append(("push" if p else "release", a))
                        effect(a, en, expect[-1][0])
        if en != self.en:
            raise Violation("enabled states differ: %r, expected %r" % (self.en, en))
        got = list(self.log)
        del self.log[:]
        if got != expect:
            raise Violation("after %r: expected action calls %r, got %r" % (ev, expect, got))
        self.last = got

    def outcome(self):
        return self.last if hasattr(self, "last") else None


def tasks(tier):
    cfgs = [
        {"switches": [["A"]]},
        {"switches": [["A", "b", "C"]]},
        {"switches": [["A", ["B", "c"], "D"]]},
        {"switches": [["A", "B"], ["C"]]},
        {"switches": [["A", ["b"]], [], ["C"]]},
        {"switches": [["A"], ["B"], ["C"]], "pixels": 0},
        {"switches": [["A", "p", "B"], ["C", "q"]]},
        {"switches": [[["A", "b"], ["C"]], ["d"]], "pixels": 1},
    ]
    if tier == "thorough":
        cfgs += [{"switches": [["A", "B", "C", "D"], ["E", "f"]]},
                 {"switches": [["A", "B"], ["C", "D"], ["E"]]},
                 {"switches": [[["A"], ["B", "C"], "D", "e", "F"]]}]
    return [(bfs, ("dispatch", Dispatch, c, 40 if tier == "thorough" else 12), {"time_limit": 200}) for c in cfgs]
