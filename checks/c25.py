"""C25: explore mode (finding out the wiring of unknown devices)."""
from mc import env, rig
from mc.env import HW
from mc.explore import Sys, Violation, bfs, enumerate_cases
from checks import fw

BOUNDS = {"quick": "the real start script in explore mode on boards with 1-30 pins (also named like GP26_A0, or twice), of which 0-29 can't be used: all orders of pressing and releasing up to 4 switches (also at the "
                   "same time) to depth 7, every pin of the 30 pin board pressed alone and after every other one",
          "thorough": "depth 9, up to 5 switches"}
ASSUMPTIONS = ["after start, the first step leads to the first or the last triplet"]


class Explore(Sys):
    """cfg: pins, busy (pins which can't be used), use (indices of pressed switches)"""

    def __init__(self, cfg):
        self.cfg = cfg
        board = env.sys.modules["board"]
        dio = env.sys.modules["digitalio"].DigitalInOut
        gp = {k: getattr(board, k) for k in dir(board) if k.startswith("GP")}
        busy = set(cfg["busy"])
        extra = [k for k in cfg["pins"] if k not in gp]       # boards name some pins like GP26_A0, also in addition
        init = dio.__init__
        import adafruit_misc.neopixel as npx

        def claim(o, port):
            if port in busy or port in HW.gpio:
                raise ValueError("%s in use" % port)
            init(o, port)
        out = env.mod("misc")
        self.printed = []
        try:
            for k in gp:
                if k not in cfg["pins"]:
                    delattr(board, k)
            for k in extra:
                setattr(board, k, k.split("_")[0])
            dio.__init__ = claim
            self.fw = fw.Fw("content", config={"exploreMode": True}, explore=True)
        finally:
            dio.__init__ = init
            for k, v in gp.items():
                setattr(board, k, v)
            for k in extra:
                delattr(board, k)
        self.names, self.ports = [], []
        for p in sorted(cfg["pins"]):
            q = p.split("_")[0]
            if q not in busy and q not in self.ports:
                self.names.append(p)
                self.ports.append(q)
        if list(HW.gpio) != self.ports:
            raise Violation("listens to %s, available: %s" % (list(HW.gpio), self.ports))
        self.n = len(self.names)
        self.cur = None                  # highlighted triplet
        self.last = None                 # last pushed pin
        self.ever = set()
        self.down = set()
        self.check(("start",))

    def roots(self):
        return (self.fw.c, self.cur, self.last, self.ever, self.down)

    def outcome(self):
        return (tuple(self.fw.texts()), tuple(self.fw.leds()))

    def events(self):
        return [("release" if i in self.down else "press", i) for i in self.cfg["use"] if i < self.n] + [("tick",)]

    def step(self, ev):
        k = ev[0]
        if k == "press":
            i = ev[1]
            self.fw.press(self.ports[i])
            self.down.add(i)
            d = -1 if i % 2 else 1
            if self.cur is None:
                self.cur = 0 if d > 0 else self.n - 1
            else:
                self.cur = (self.cur + d) % self.n
            self.last = i
            self.ever.add(i)
        elif k == "release":
            self.fw.press(self.ports[ev[1]], False)
            self.down.discard(ev[1])
        self.fw.tick(20)
        self.check(ev)

    def check(self, ev):
        leds = self.fw.leds()
        if len(leds) < 3 * self.n:
            raise Violation("%d LEDs for %d switches" % (len(leds), self.n))
        for i in range(self.n):
            on = [all(x > 200 for x in c) for c in leds[3 * i:3 * i + 3]]
            if self.cur is None:
                if any(on):
                    raise Violation("%s: triplet %d highlighted before anything is pressed" % (ev, i))
            elif on != [i == self.cur] * 3:
                raise Violation("%s: LEDs of triplet %d: %s, highlighted should be %s" % (ev, i, leds[3 * i:3 * i + 3], self.cur))
        objs = self.fw.shown()
        rects, labels = {}, []
        r = None
        for o, x, y in objs:
            if hasattr(o, "fill"):
                r = o
            elif hasattr(o, "text"):
                labels.append((o, r))
        t = [(o.text, q.fill if q else None) for o, q in labels]
        cells = [(a, b) for a, b in t if a in self.cfg["pins"]]
        if [a for a, b in cells] != self.names:
            raise Violation("%s: shown pins %s instead of %s" % (ev, [a for a, b in cells], self.names))
        colors = {}
        for i, (a, b) in enumerate(cells):
            kind = "last" if i == self.last else "ever" if i in self.ever else "never"
            colors.setdefault(kind, set()).add(b)
        if any(len(v) > 1 for v in colors.values()):
            raise Violation("%s: marker colours not uniform: %s" % (ev, colors))
        if len({tuple(v)[0] for v in colors.values()}) != len(colors):
            raise Violation("%s: last pushed, formerly pushed and other pins can't be told apart: %s" % (ev, colors))
        rest = [a for a, b in t if a not in self.cfg["pins"]]
        if self.cur is not None:
            # reported pixel numbers
            px = ", ".join(str(3 * self.cur + j) for j in range(3))
            if not any(px in str(a).replace("\n", " ") and str(3 * self.n) in a for a in rest):
                raise Violation("%s: pixels %s of %d are not shown: %r" % (ev, px, 3 * self.n, rest))


def tasks(tier):
    th = tier != "quick"
    r = []
    allp = ["GP%d" % i for i in range(30)]
    small = [["GP1"], ["GP1", "GP2"], ["GP9", "GP10", "GP25"], ["GP0", "GP1", "GP5", "GP7", "GP9", "GP20"], allp[:11],
             ["GP1", "GP26_A0"], ["GP0", "GP26", "GP26_A0", "GP27_A1"]]
    for pins in small:
        for busy in ([], pins[:1], pins[-1:], pins[1:3]):
            n = len(pins) - len(set(busy))
            if n <= 0:
                continue
            use = list(range(min(n, 5 if th else 4)))
            r.append((bfs, ("orders", Explore, {"pins": pins, "busy": busy, "use": use}, 9 if th else 7), {"time_limit": 600 if th else 100}))
    for busy in ([], ["GP7", "GP12", "GP13", "GP14", "GP15"], ["GP2", "GP3"]):
        n = 30 - len(busy)
        cfg = {"pins": allp, "busy": busy, "use": list(range(n))}
        cases = [[("press", i), ("release", i), ("press", j), ("release", j), ("press", k)] for i in range(n) for j in range(n) for k in ([0, 1] if not th else range(0, n, 3))]
        for i in range(0, len(cases), 300):
            r.append((enumerate_cases, ("pins", Explore, cfg, cases[i:i + 300]), {}))
        # round trip over all triplets, in both directions
        for i in (0, 1):
            r.append((enumerate_cases, ("round trip", Explore, cfg, [[(e, i) for _ in range(2 * n + 1) for e in ("press", "release")]]), {}))
    return r
