"""C34: the complete firmware with every shipped configuration."""
import re
from itertools import product
from mc import env, rig
from mc.env import Clock, HW
from mc.explore import Sys, Violation, enumerate_cases
from checks.kdev import KDev
from checks import fw

BOUNDS = {"quick": "the real start script with all shipped configurations (default, templates, examples): all sequences of 2 operations out of tapping and holding every switch, turning "
                   "every encoder, moving every pedal, rig change, effect assignment, effect states, morph, tuner, tempo, loss and return of the amplifier; all sequences of 3 changes at the amplifier are compared to a fresh start",
          "thorough": "sequences of 3 operations (4 at the amplifier)"}
ASSUMPTIONS = ["MIDI bridge library (binary) replaced by a wrapper which passes all messages", "simulated amplifier after its MIDI documentation"]
NAME = re.compile(r"Rig name (\d+)")
SLOTS = (50, 51, 52, 53, 56, 58, 60, 61)
# rig -> effect types and states
RIGS = {7: {s: (0, 0) for s in SLOTS}, 12: {s: (t, 1) for s, t in zip(SLOTS, (1, 33, 49, 57, 17, 113, 177, 145))},
        500: {s: (t, i % 2) for i, (s, t) in enumerate(zip(SLOTS, (81, 65, 97, 13, 121, 156, 180, 11)))}}


def kemper(folder):
    return "Kemper" in folder or folder == "content" or "templates" in folder


# effect types of the categories which the chrjohns example has no names for: examined on their own (family "names", known finding)
CHR = "examples/Kemper Profiler/MIDICaptain 10/chrjohns"
NONAMES = {68, 69, 70, 75, 76, 77, 78, 79, 80}


class Dev(KDev):
    banned = ()

    def set(self, page, num, v):
        super().set(page, num, 1 if num == 0 and page in SLOTS and v in self.banned else v)

    def load(self):
        for s, (t, on) in RIGS[self.rig].items():
            self.set(s, 0, t)
            self.set(s, 3, on)

    def goto(self, r):
        super().goto(r)
        if r in RIGS:
            self.load()


class Run(Sys):
    """cfg: folder, files, amp (a Kemper is connected), bidi"""
    DEV = Dev

    def __init__(self, cfg):
        self.cfg = cfg
        self.amp = cfg["amp"]
        self.boot()
        self.n = 0

    def boot(self, other=None):
        self.fw = fw.Fw(self.cfg["folder"], self.cfg.get("files"), code=self.cfg.get("code"))
        self.d = self.DEV(7, bidi=True)
        if self.cfg["folder"] == CHR and not self.cfg.get("names"):
            self.d.banned = NONAMES
        if other is not None:
            self.d.rig, self.d.params, self.d.names = other.rig, dict(other.params), dict(other.names)
        else:
            self.d.load()
        pins = [p for k in (HW.gpio, HW.analog) for p, l in k.items() for _ in l] + [p for e in HW.encoders for p in (e.a, e.b)] + [p for u in HW.uarts for p in u.args[:2]] + \
            [x.port for x in HW.pixels] + [p for d in HW.displays for p in (d.bus.command, d.bus.chip_select, d.bus.spi.clock, d.bus.spi.mosi)]
        if len(set(pins)) < len(pins):
            raise Violation("pins used twice: %s" % sorted(str(p) for p in pins))
        self.d.out.clear()
        self.away = False
        self.wait(600)
        if self.amp:
            self.d.announce()
        self.wait(600)
        self.check(("start",))

    def outcome(self):
        return (tuple(self.fw.texts()), tuple(self.fw.leds()))

    # ------------------------------------------------------------------------
    def talk(self):
        for _ in range(15):
            s = self.fw.sent()
            if not s and not self.d.out:
                return
            if self.amp and not self.away:
                for m in s:
                    if not self.d.receive(m):
                        raise Violation("message the device does not know: %r" % (m,))
            out, self.d.out = self.d.out, []
            if self.away:
                out = []
            for i in range(0, len(out), 3):
                for o in out[i:i + 3]:
                    self.fw.feed(o)
                self.fw.tick(0)
            self.fw.tick(0)
        raise Violation("endless conversation")

    def wait(self, ms):
        while ms > 0:
            self.fw.tick(min(ms, 201))
            ms -= 201
            if not self.away:
                self.d.sense()
            self.talk()

    def operations(self):
        e = []
        for p in self.fw.switches:
            e += [("tap", p), ("hold", p)]
        for i in self.fw.encoders:
            e += [("turn", i, 1), ("turn", i, -1)]
        for p in self.fw.pots:
            e += [("pedal", p, v) for v in (0, 65535)]
        if self.amp:
            e += self.changes()
        else:
            e.append(("wait",))
        return e

    def changes(self):
        return [("rig", r) for r in RIGS] + [("toggle",), ("types",), ("morph",), ("tuner", 1), ("note",), ("tempo",), ("rename",), ("away",), ("back",), ("wait",)]

    def step(self, ev):
        k, d = ev[0], self.d
        if k == "tap":
            self.fw.press(ev[1])
            self.fw.tick(20)
            self.talk()
            self.fw.press(ev[1], False)
            self.fw.tick(20)
            self.talk()
        elif k == "hold":
            self.fw.press(ev[1])
            self.fw.tick(20)
            self.wait(804)
            self.fw.press(ev[1], False)
            self.fw.tick(20)
            self.talk()
        elif k == "turn":
            self.fw.turn(ev[1], ev[2])
            self.fw.tick(20)
            self.talk()
        elif k == "pedal":
            self.fw.pot(ev[1], ev[2])
            self.fw.tick(20)
            self.talk()
        elif k == "rig":
            d.goto(ev[1])
        elif k == "toggle":
            for s in SLOTS:
                d.set(s, 3, 1 - d.params.get((s, 3), 0))
        elif k == "types":
            for i, s in enumerate(SLOTS):
                d.set(s, 0, (d.params.get((s, 0), 0) + 7 * (i + 1)) % 180)
        elif k == "type":
            d.set(ev[1], 0, ev[2])
            d.set(ev[1], 3, 1)
            try:
                self.wait(804)
            except IndexError as e:
                raise Violation("effect type %d has no name: %s" % (ev[2], e) if ev[2] in NONAMES else "effect type %d: %s" % (ev[2], e))
        elif k == "morph":
            d.set(0, 11, (d.params.get((0, 11), 0) + 5000) % 16384)
        elif k == "tuner":
            v = 3 if d.params.get((127, 126), 3) == 1 else 1
            d.params[(127, 126)] = v
            if d.linked:
                d.out.append(rig.k_single(127, 126, v))
        elif k == "note":
            if d.params.get((127, 126)) == 1 and d.linked:
                d.out += [rig.k_single(125, 84, 40), rig.k_single(124, 15, 9000)]
        elif k in ("tempo", "bpm"):
            d.params[(4, 0)] = 7680 + (d.params.get((4, 0), 0) + 64) % 6400
            if d.linked and k == "tempo":
                d.out += [rig.k_single(124, 0, 1), rig.k_single(124, 0, 0)]
        elif k == "rename":
            d.rename(d.name() + " x")
        elif k == "away":
            self.away = True
            d.linked = False
            self.wait(6500)
        elif k == "back":
            if self.away:
                self.away = False
                self.wait(6500)
                d.announce()
        elif k == "absent":
            self.step(("away",))
            self.step(("back",))
        elif k == "same":
            self.same()
            return
        self.wait(804)
        self.check(ev)

    def check(self, ev):
        if self.fw.bridge and self.fw.bridge.failed:
            raise Violation("%s: error: %r" % (ev, self.fw.bridge.failed))
        for c in self.fw.leds():
            if len(c) != 3 or any(type(x) is not int or x < 0 or x > 255 for x in c):
                raise Violation("%s: LED colour %r" % (ev, c))
        s = HW.displays[-1].shown
        if s is None:
            raise Violation("%s: nothing is shown" % (ev,))
        tx = self.fw.texts()
        for t in tx:
            if type(t) is not str:
                raise Violation("%s: label text %r" % (ev, t))
        for o, x, y in self.fw.shown():
            f = getattr(o, "fill", None)
            if f is not None and (len(f) != 3 or any(type(v) is not int or v < 0 or v > 255 for v in f)):
                raise Violation("%s: fill colour %r" % (ev, f))
            if x < 0 or y < 0 or x >= 240 or y >= 240:
                raise Violation("%s: drawn outside the screen at %d/%d" % (ev, x, y))
        if self.amp and not self.away:
            for t in tx:
                m = NAME.search(t.replace("\n", ""))
                if m and int(m.group(1)) != self.d.rig:
                    raise Violation("%s: shows %r, but rig %d is selected" % (ev, t, self.d.rig))

    def same(self):
        """Everything shown equals what a freshly started device shows with the amplifier in this state"""
        self.wait(4020)                     # tempo and preselection are shown for a while only
        a = self.outcome()
        st = self.d
        env.fresh()
        self.boot(st)
        b = self.outcome()
        # the brightness is stored in single precision: the same colour may differ by a step
        diff = ["label %d: %r instead of %r" % (i, x, y) for i, (x, y) in enumerate(zip(a[0], b[0])) if x != y]
        diff += ["LED %d: %r instead of %r" % (i, x, y) for i, (x, y) in enumerate(zip(a[1], b[1])) if max(abs(m - n) for m, n in zip(x, y)) > 2]
        if diff or len(a[0]) != len(b[0]) or len(a[1]) != len(b[1]):
            raise Violation("differs from a fresh start with the amplifier in the same state: %s" % "; ".join(diff))


def ops(cfg):
    env.fresh()
    s = Run(cfg)
    r = s.operations(), s.changes()
    return r


def tasks(tier):
    th = tier != "quick"
    r = []
    for f in fw.folders():
        cfg = {"folder": f, "amp": kemper(f)}
        o, ch = ops(cfg)
        n = 3 if th else 2
        cases = [list(x) for x in product(o, repeat=n)]
        size = 3000
        for i in range(0, len(cases), size):
            r.append((enumerate_cases, ("operations", Run, cfg, cases[i:i + size]), {}))
        if f == CHR:
            r.append((enumerate_cases, ("names", Run, dict(cfg, names=True), [[("type", s, t)] for s in SLOTS for t in range(200)]), {}))
        if cfg["amp"]:
            # neither the morph state (simulated by PySwitch) nor the phase of the beat are kept by the amplifier
            ch = [c for c in ch if c[0] not in ("tuner", "note", "away", "back", "wait", "morph", "tempo")] + [("absent",), ("bpm",)]
            cases = [list(x) + [("same",)] for k in range(1, n + 2) for x in product(ch, repeat=k)]
            for i in range(0, len(cases), size):
                r.append((enumerate_cases, ("same", Run, cfg, cases[i:i + size]), {}))
    return r
