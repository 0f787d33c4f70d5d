"""C16: expression pedals."""
from mc import env, rig
from mc.env import Clock
from mc.explore import Sys, Violation, bfs, enumerate_cases

BOUNDS = {"quick": "all 65536 raw values up, down and in a coarse zigzag for 16 configurations (CC, NRPN, custom ranges, step counts, "
                   "thresholds, transfer functions); all sequences of positions (9 raw values) and waiting times of length 6 with and without "
                   "auto calibration, enable changes",
          "thorough": "same, length 8"}
ASSUMPTIONS = ["a value counts as right if it differs from the exact linear one by no more than one of the configured steps"]


class Pedal(Sys):
    """cfg: nrpn, kw, raws, dts"""

    def __init__(self, cfg):
        self.cfg = cfg
        cl = env.mod("controller.client")
        AA = env.mod("controller.actions.AnalogAction").AnalogAction
        K = env.mod("clients.kemper")
        P = cl.ClientParameterMapping
        self.m = P.get(name="ped", set=K.KemperNRPNMessage(1, 4, 1) if cfg.get("nrpn") else cl.ControlChange(7, 0))
        kw = dict(cfg.get("kw", {}))
        self.calls = []
        if kw.get("transfer_function"):
            def tf(v):
                self.calls.append(v)
                return int(v // 1000)
            kw["transfer_function"] = tf
        self.en = True
        me = self

        class En:
            def init(s, appl):
                pass

            def enabled(s, action):
                return me.en
        if cfg.get("en"):
            kw["enable_callback"] = En()
        self.kw = kw
        self.fps = kw.get("max_frame_rate", 24)
        self.steps = kw.get("num_steps", 128)
        self.max = kw.get("max_value") if kw.get("max_value") is not None else (16383 if cfg.get("nrpn") else 127)
        self.thr = kw.get("min_raw_value", 1024)
        self.pot = rig.Pot(cfg.get("start", 0))
        self.app = rig.App([(self.pot, {"actions": [AA(mapping=self.m, **kw)]})])
        self.read_at = None          # time of the last message
        self.sent_at = []
        self.value = None
        self.lo = self.hi = None
        self.last = None
        self.work = 0

    def roots(self):
        return (self.app, self.m, self.pot.value, self.value, self.lo, self.hi, self.read_at, self.en)

    def events(self):
        ev = [("pos", r, d) for r in self.cfg["raws"] for d in self.cfg["dts"]]
        if self.cfg.get("en"):
            ev += [("en",)]
        return ev

    # ------------------------------------------------------------- reference

    def ok(self, v, raw):
        """Is v right for this raw position?"""
        kw = self.kw
        if kw.get("auto_calibrate"):
            raw = (raw - self.lo) * 65535 / (self.hi - self.lo) if self.hi > self.lo else 0
        if kw.get("transfer_function"):
            return v in (int(raw // 1000), int((raw + 1) // 1000))
        if self.thr is not None and raw < self.thr - 1:
            return v == 0
        if self.thr is not None and raw < self.thr + 1 and v == 0:
            return True
        if raw > 65534.99 and 65536 % self.steps == 0:
            return v == self.max
        ideal = raw * self.max / 65535
        return 0 <= v <= self.max and abs(v - ideal) <= self.max / self.steps + 1

    def window(self):
        if not self.kw.get("auto_calibrate"):
            return True
        return self.hi is not None and self.hi - self.lo >= int(65536 * self.kw.get("cal_min_window", 0.25))

    def step(self, ev):
        if ev[0] == "en":
            self.en = not self.en
            self.app.tick(0)
            self.poll(("en",))
        elif ev[0] == "pos":
            self.pot.value = ev[1]
            self.app.tick(ev[2])
            self.poll(ev)
        else:
            getattr(self, "e_" + ev[0])(*ev[1:])

    def poll(self, ev):
        got = [m for m in self.app.sent()]
        vals = []
        for m in got:
            if self.cfg.get("nrpn"):
                if m[:9] != ("sx",) + rig.MAN + (2, 0x7f, 1, 0, 4) or m[9] != 1 or len(m) != 12:
                    raise Violation("unexpected message %r" % (m,))
                vals.append(m[10] * 128 + m[11])
            else:
                if m[:2] != ("cc", 7):
                    raise Violation("unexpected message %r" % (m,))
                vals.append(m[2])
        raw = self.pot.value
        due = self.read_at is None or Clock.now - self.read_at > 1000 / self.fps + 1
        early = self.read_at is not None and Clock.now - self.read_at < 1000 / self.fps - 1
        if not self.en:
            if vals:
                raise Violation("disabled pedal sent %r" % (vals,))
            return
        if early:
            if vals:
                raise Violation("%r: more than %d values per second" % (ev, self.fps))
            return
        if not due:
            return
        self.read_at = Clock.now
        if self.kw.get("auto_calibrate"):
            self.lo = raw if self.lo is None else min(self.lo, raw)
            self.hi = raw if self.hi is None else max(self.hi, raw)
        if not self.window():
            if vals:
                raise Violation("%r: value %r sent although only %d..%d have been seen" % (ev, vals, self.lo, self.hi))
            return
        if len(vals) > 1:
            raise Violation("%r: several values %r sent for one position" % (ev, vals))
        if vals:
            if vals[0] == self.value:
                raise Violation("%r: value %d sent again" % (ev, vals[0]))
            self.value = vals[0]
        if self.value is None or not self.ok(self.value, raw):
            raise Violation("%r: value is %r at raw position %d (seen %r..%r)" % (ev, self.value, raw, self.lo, self.hi))
        for c in self.calls:
            if not 0 <= c <= 65535:
                raise Violation("transfer function called with %r" % c)
        del self.calls[:]
        self.last = (raw, self.value)

    def e_sweep(self, a, b, s):
        """All raw positions from a to b."""
        seen = []
        dt = int(1000 / self.fps) + 2
        for raw in range(a, b, s):
            self.pot.value = raw
            self.app.ctl.tick()
            Clock.advance(dt)
            self.app.ctl.tick()
            if self.app.port.out:
                self.poll(("sweep", raw))
                seen.append(self.value)
            else:
                # nothing sent: the old value must still be right
                self.read_at = Clock.now
                if self.kw.get("auto_calibrate"):
                    self.lo = raw if self.lo is None else min(self.lo, raw)
                    self.hi = raw if self.hi is None else max(self.hi, raw)
                if self.window() and (self.value is None or not self.ok(self.value, raw)):
                    raise Violation("sweep: value stays %r at raw position %d" % (self.value, raw))
            self.work += 1
        if not self.kw.get("auto_calibrate") and not self.kw.get("transfer_function"):
            if s == 1 and seen != sorted(seen):
                raise Violation("values of a rising position are not rising: %r" % (seen[:50],))
            if s == -1 and seen != sorted(seen, reverse=True):
                raise Violation("values of a falling position are not falling: %r" % (seen[:50],))
            if abs(s) == 1 and len(set(seen)) > self.steps + 1:
                raise Violation("%d different values, configured are %d steps" % (len(set(seen)), self.steps))
        self.last = ("sweep", tuple(seen))

    def outcome(self):
        return self.last


SWEEP = [{}, {"nrpn": 1}, {"kw": {"max_value": 1}}, {"kw": {"max_value": 100, "num_steps": 16}}, {"nrpn": 1, "kw": {"num_steps": 1024}},
         {"nrpn": 1, "kw": {"num_steps": 100}}, {"kw": {"min_raw_value": None}}, {"kw": {"min_raw_value": 5000}}, {"nrpn": 1, "kw": {"max_value": 1000, "num_steps": 65536}},
         {"kw": {"num_steps": 3}}, {"kw": {"transfer_function": 1}}, {"kw": {"auto_calibrate": True, "transfer_function": 1}}, {"kw": {"auto_calibrate": True}},
         {"nrpn": 1, "kw": {"auto_calibrate": True, "cal_min_window": 0.9}}, {"kw": {"max_frame_rate": 100}}, {"kw": {"max_value": 64}}]


def tasks(tier):
    th = tier == "thorough"
    r = []
    for c in SWEEP:
        r.append((enumerate_cases, ("sweep", Pedal, c, [(("sweep", 0, 65536, 1),), (("sweep", 65535, -1, -1),),
                                                        (("sweep", 30000, 30001, 1), ("sweep", 65535, 0, -777), ("sweep", 0, 65536, 901))]), {}))
    raws = (0, 1000, 1100, 16000, 16800, 33000, 50000, 65535)
    d = 7 if th else 5
    for c in ({}, {"nrpn": 1, "kw": {"num_steps": 32}}, {"kw": {"auto_calibrate": True}}, {"nrpn": 1, "kw": {"auto_calibrate": True, "cal_min_window": 0.5}},
              {"kw": {"auto_calibrate": True, "cal_min_window": 0}}, {"kw": {"auto_calibrate": True, "transfer_function": 1}}, {"en": 1, "kw": {"auto_calibrate": True}},
              {"en": 1, "kw": {"max_frame_rate": 10}}):
        dts = (20, 120) if c.get("kw", {}).get("max_frame_rate") else (20, 60)
        for start in ((0, 33000) if c.get("kw", {}).get("auto_calibrate") else (33000,)):
            r.append((bfs, ("pedal", Pedal, dict(c, raws=raws, dts=dts, start=start), d), {"time_limit": 400 if th else 60, "max_states": 400000}))
    return r
