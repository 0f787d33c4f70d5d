"""C28: labels showing rig name, rig number and parameter values."""
from itertools import product
from mc import env, rig
from mc.explore import Sys, Violation, bfs, enumerate_cases
from checks.kdev import KDev, exchange

BOUNDS = {"quick": "rig name label in all 8 variants, with and without bidirectional protocol, all orders of rig changes, renaming, lost answers, device switched off and on again "
                   "to depth 5-6; all 625 rigs x variants; names of all lengths to 63 and all printable characters; tempo label for all 16384 values; generic parameter labels "
                   "(conversion returning text, number or nothing, default text) with all value/loss sequences to depth 6; volume conversion over the knob range in steps of 0.1 with 5 offsets",
          "thorough": "depth 7-8"}
ASSUMPTIONS = ["without bidirectional protocol a renamed rig gets a new date, as in the device", "an empty rig name is shown like an unknown one",
               "a label showing only the rig number keeps the last one when the device is gone (not documented)"]
RIGS = (0, 7, 624)


def bad(m):
    raise Violation("message the device does not know: %r" % (m,))


def make_label(cb, text=None):
    El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
    root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
    lay = {"font": "f"}
    if text is not None:
        lay["text"] = text
    l = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 200, 20), layout=lay, callback=cb)
    root.add(l)
    return root, l


def idtext(mode, r):
    b, n = r // 5 + 1, r % 5 + 1
    return {"rig": "%d" % n, "bank": "%d" % b}.get(mode, "%d-%d" % (b, n))


class Name(Sys):
    """cfg: show_name, show_rig_id, bidi, start"""

    def __init__(self, cfg):
        self.cfg = cfg
        K = env.mod("clients.kemper")
        self.default = "PySwitch %s" % env.mod("misc").PYSWITCH_VERSION
        root, self.label = make_label(K.KemperRigNameCallback(**{k: cfg[k] for k in ("show_name", "show_rig_id") if k in cfg}), "init")
        kw = {}
        if cfg["bidi"]:
            kw["protocol"] = K.KemperBidirectionalProtocol(30)
        self.app = rig.App([], root=root, **kw)
        self.d = KDev(cfg.get("start", 0), bidi=bool(cfg["bidi"]))
        self.fresh = True
        self.settle()
        self.d.announce()
        self.settle()
        self.rig, self.name = self.d.rig, self.d.name()      # as known to the display (None: unknown)
        self.last = self.name
        self.check(("start",))

    def roots(self):
        return (self.app, self.label, self.d.key(), self.rig, self.name, self.last)

    def outcome(self):
        return self.label.text

    def settle(self, lose=None):
        for r in range(2):
            self.app.tick(201 if r else 0)
            for _ in range(8):
                s = self.app.sent()
                if not s and not self.d.out:
                    break
                for m in s:
                    if lose and m == rig.k_req_string(0, lose):
                        continue
                    if not self.d.receive(m):
                        bad(m)
                out, self.d.out = self.d.out, []
                for o in out:
                    self.app.feed(o)
                self.app.tick(0)
        self.sense()

    def sense(self):
        """keep the link alive, without any update"""
        self.d.sense()
        out, self.d.out = self.d.out, []
        for o in out:
            self.app.feed(o)
        self.app.tick(0)

    def events(self):
        ev = [("dev", r) for r in RIGS if r != self.d.rig] + [("rename", n) for n in ("A", "Foo bar") if self.d.name() != n]
        if self.d.lost:
            ev.append(("back",))
        else:
            ev.append(("off",))
            if not self.cfg["bidi"]:
                ev += [("lose", r, x) for r in RIGS if r != self.d.rig for x in (1, 3)]
        ev.append(("up",))
        return ev

    def step(self, ev):
        k = ev[0]
        d = self.d
        if k == "dev":
            d.goto(ev[1])
            self.settle()
        elif k == "rename":
            d.rename(ev[1])
            self.settle()
        elif k == "lose":
            # the answer to one request gets lost
            d.goto(ev[1])
            self.settle(lose=ev[2])
            self.wait()
            self.settle()
        elif k == "off":
            d.lost = True
            self.wait()
            self.wait()
            self.wait()
            d.linked = False
        elif k == "back":
            d.lost = False
            for _ in range(3):
                self.wait()
                self.settle()
            d.announce()
            self.settle()
        else:
            self.settle()
        if not d.lost:
            self.rig, self.name = d.rig, d.name()
            self.last = self.name
        elif k == "off":
            self.rig, self.name = None, None
        self.check(ev)

    def wait(self):
        if self.d.lost or not self.d.linked:
            # nobody answers
            for _ in range(4):
                self.app.tick(2001)
                for m in self.app.sent():
                    if not self.d.receive(m):
                        bad(m)
                out, self.d.out = self.d.out, []
                for o in out:
                    self.app.feed(o)
                self.app.tick(0)
        else:
            for _ in range(7):
                self.app.tick(500)
                exchange(self.app, self.d, bad)

    def expected(self):
        sn, si = self.cfg.get("show_name", True), self.cfg.get("show_rig_id", False)
        name = self.name or self.default
        names = {name}
        if self.rig is None and not self.cfg["bidi"]:
            names.add(self.last)
        if not si:
            return names
        if self.rig is None:
            if not sn:
                return None
            # the rig number is not requested but sent by the device: it may be kept. Without bidirectional
            # protocol, the name is only requested when its date changes: it may be kept as well
            return names | {idtext(si, r) + " " + n for r in RIGS for n in names}
        return {idtext(si, self.rig) + (" " + name if sn else "")}

    def check(self, ev):
        e = self.expected()
        if e is not None and self.label.text not in e:
            raise Violation("%s: label shows %r, expected %s (rig %s, %r)" % (ev, self.label.text, " or ".join(map(repr, sorted(e))), self.d.rig, self.d.name()))
        d = [o[0] for o in __import__("checks.c33", fromlist=["flat"]).flat(self.app.display.tft.shown)]
        if d[-1].text != self.label.text:
            raise Violation("%s: drawn text is %r instead of %r" % (ev, d[-1].text, self.label.text))


class AllRigs(Name):
    def step(self, ev):
        self.work = getattr(self, "work", 0)
        for x in ev[1]:
            self.work += 1
            if ev[0] == "rig":
                self.d.goto(x)
            else:
                self.d.rename(x)
            self.settle()
            self.rig, self.name = self.d.rig, self.d.name()
            self.check((ev[0], x))


class Bpm(Sys):
    def __init__(self, cfg):
        cb = env.mod("clients.kemper.callbacks.tempo_bpm").KemperTempoDisplayCallback()
        root, self.label = make_label(cb, "start")
        self.app = rig.App([], root=root)
        self.d = KDev(0)
        self.work = 0

    def step(self, ev):
        for v in ev[1]:
            self.work += 1
            self.d.params[(4, 0)] = v
            self.app.tick(201)
            exchange(self.app, self.d, bad)
            t = self.label.text
            if not t.endswith(" bpm") or not t[:-4].isdigit() or abs(int(t[:-4]) * 64 - v) > 32:
                raise Violation("tempo %s (%.2f bpm) is shown as %r" % (v, v / 64, t))


CONV = {
    None: None,
    "text": lambda v: None if v is None else "v%d" % v,
    "num": lambda v: None if v is None else v * 2,
    "some": lambda v: "five" if v == 5 else None,
    "unknown": lambda v: "n/a" if v is None else None,
    "zero": lambda v: "" if v == 6 else (0 if v == 5 else None),
}


class Par(Sys):
    """Generic parameter labels: two on the same parameter, one on another (a text). cfg: conv, default, string"""

    def __init__(self, cfg):
        self.cfg = cfg
        K = env.mod("clients.kemper")
        PD = env.mod("controller.callbacks.parameter_display").ParameterDisplayCallback
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        Cl = env.mod("controller.client").ClientParameterMapping
        self.map = Cl.get(name="c28", response=K.KemperNRPNMessage(1, 9, 4), request=K.KemperNRPNMessage(0x41, 9, 4))
        kw = {} if cfg["default"] is None else {"default_text": cfg["default"]}
        self.specs = [(cfg["conv"], cfg["default"] or ""), (None, "other")]
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.labels = []
        for i, (c, dt) in enumerate(self.specs):
            k = dict(kw) if not i else {"default_text": dt}
            if c or i:
                k["convert_value"] = CONV[c]
            l = El.DisplayLabel(layout={"font": "f", "text": "init"}, bounds=Ui.DisplayBounds(0, 0, 200, 20), callback=PD(mapping=self.map, **k))
            root.add(l)
            self.labels.append(l)
        self.app = rig.App([], root=root)
        self.d = KDev(0)
        self.d.params[(9, 4)] = 3
        self.v = None
        self.first = True
        self.app.update()

    def roots(self):
        return (self.app, self.labels, self.d.key(), self.v, self.first)

    def events(self):
        return [("set", v) for v in (0, 5, 6, 16383) if v != self.d.params[(9, 4)]] + [("poll",), ("late",), ("lost",)]

    def step(self, ev):
        k = ev[0]
        if k == "set":
            self.d.params[(9, 4)] = ev[1]
        elif k == "poll":
            self.app.tick(201)
            exchange(self.app, self.d, bad)
            self.app.tick(0)
            self.v, self.first = self.d.params[(9, 4)], False
        elif k == "late":
            # answered within the waiting time, after several update periods
            self.app.tick(201)
            self.app.tick(900)
            exchange(self.app, self.d, bad)
            self.app.tick(0)
            self.v, self.first = self.d.params[(9, 4)], False
        else:
            for _ in range(3):
                self.app.sent()
                self.app.tick(2100)
            self.v, self.first = None, False
        for l, (c, dt) in zip(self.labels, self.specs):
            if self.first:
                e = "init"
            else:
                e = CONV[c](self.v) if c else None
                if e is None:
                    e = dt if self.v is None else self.v
                e = str(e)
            if l.text != e:
                raise Violation("%s: value %s is shown as %r, expected %r" % (ev, self.v, l.text, e))


class Vol(Sys):
    def __init__(self, cfg):
        self.f = env.mod("clients.kemper.callbacks.convert_volume").convert_volume
        self.work = 0

    def step(self, ev):
        off = ev[0]
        last = None
        for i in range(0, 1001):
            v = i / 10
            self.work += 1
            for x in ((v, int(v)) if i % 10 == 0 else (v,)):
                t = self.f(x, off) if off is not None else self.f(x)
            o = off or 0
            num = t[:-2]
            if not t.endswith("dB") or len(num.split(".")) != 2 or len(num.split(".")[1]) != 1:
                raise Violation("volume %s is shown as %r" % (v, t))
            f = float(num)
            if f and (num[0] == "+") != (f > 0):
                raise Violation("volume %s is shown as %r: sign" % (v, t))
            if last is not None and f < last:
                raise Violation("volume %s is shown as %r, less than a lower position" % (v, t))
            last = f
            if v >= 30 and abs(f - (o + (v - 100) * 0.24)) > 0.0501:
                raise Violation("volume %s with maximum %s is shown as %r" % (v, o, t))
        if last != o or self.f(0, o)[0] != "-" or float(self.f(0, o)[:-2]) > o - 60:
            raise Violation("range of volume: %s .. %s with maximum %s" % (self.f(0, o), self.f(100, o), o))


def tasks(tier):
    th = tier != "quick"
    x = 2 if th else 0
    r = []
    V = [dict(show_name=n, show_rig_id=i) for n in (True, False) for i in (False, "rig", "bank", True) if n or i] + [{}]
    for v in V:
        for b in (0, 1):
            r.append((bfs, ("rigname", Name, dict(v, bidi=b), 5 + x), {"time_limit": 400 if th else 60}))
            ids = list(range(0, 625)) + [0]
            r.append((enumerate_cases, ("rigs", AllRigs, dict(v, bidi=b), [[("rig", ids[k::4])] for k in range(4)]), {}))
    chars = "".join(chr(c) for c in range(32, 127))
    nm = [chars[:i] for i in range(1, 64)] + [c for c in chars if c != " "] + [chars[32:]] + ["x" * 63, " lead", "trail ", "a  b", "7", "None", "0"]
    for b in (0, 1):
        r.append((enumerate_cases, ("names", AllRigs, {"bidi": b, "show_rig_id": True}, [[("name", nm[k::3])] for k in range(3)]), {}))
    r.append((enumerate_cases, ("tempo", Bpm, {}, [[("v", list(range(k, 16384, 16)))] for k in range(16)]), {}))
    for c, dt in product(CONV, (None, "", "dflt")):
        r.append((bfs, ("parameter", Par, {"conv": c, "default": dt}, 6 + x), {"time_limit": 300 if th else 60}))
    r.append((enumerate_cases, ("volume", Vol, {}, [[(o,)] for o in (None, 0, 12, -3.5, 6)]), {}))
    return r
