"""C06: assembly of the rig number from the bank-part and rig-part messages."""
from itertools import combinations
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "8 parameters derived from the rig number, all subsets of size 1-2 and all together; first/second halves, "
                   "repeated and lone halves, foreign CC/SysEx, split delivery of bytes, waits, display updates; BFS to fixpoint",
          "thorough": "as quick, all subsets up to size 3 and larger value sets; BFS to fixpoint"}
ASSUMPTIONS = ["MIDI messages are not interleaved at byte level by the device (running status is not used)"]


def maps():
    K = env.mod("clients.kemper")
    S = env.mod("clients.kemper.mappings.select")
    B = env.mod("clients.kemper.mappings.bank")
    r = {"id": K.KemperMappings.RIG_ID(), "bank": S.MAPPING_BANK_SELECT(), "next": B.MAPPING_NEXT_BANK(), "prev": B.MAPPING_PREVIOUS_BANK()}
    for i in range(5):
        r["rig%d" % i] = S.MAPPING_RIG_SELECT(i)
    return r


class Lis:
    def __init__(self, name, log):
        self.name, self.log = name, log

    def parameter_changed(self, m):
        self.log.append((self.name, m.value))

    def request_terminated(self, m):
        self.log.append((self.name, "terminated"))


class RigId(Sys):
    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        self.app = rig.App([])
        self.m = maps()
        for n in cfg["maps"]:
            for k in range(cfg["listeners"]):
                self.app.ctl.client.register(self.m[n], Lis((n, k), self.log))
        self.part = None
        self.val = None
        self.pending = b""       # bytes announced but not delivered yet
        self.last = None

    def roots(self):
        return (self.app, self.m, self.part, self.val, self.pending)

    def events(self):
        if self.pending:
            return [("rest",), ("tick", 0)]
        ev = []
        for v in self.cfg["hi"]:
            ev += [("m", rig.cc(32, v)), ("half", rig.cc(32, v))]
        for v in self.cfg["lo"]:
            ev += [("m", rig.pc(v)), ("half", rig.pc(v))]
        ev += [("m", rig.cc(33, 1)), ("m", rig.cc(0, 5)), ("m", rig.k_sense()), ("m", rig.k_single(0x32, 3, 1)),
               ("tick", 1001), ("pair", self.cfg["hi"][-1], self.cfg["lo"][-1]), ("burst", 1, 4, 2, 9)]
        return ev

    def model(self, data):
        exp = []
        for m in rig.parse_stream(data):
            if m[0] == "cc" and m[1] == 32:
                self.part = m[2]
            elif m[0] == "pc" and self.part is not None:
                self.val = self.part * 128 + m[1]
                self.part = None
                exp.append(self.val)
        return exp

    def step(self, ev):
        exp = []
        data = b""
        if ev[0] == "m":
            data = ev[1]
        elif ev[0] == "half":
            self.app.feed(ev[1][:1])
            self.app.tick(0)
            self.pending = ev[1][1:]
            self.head = ev[1][:1]
        elif ev[0] == "rest":
            self.app.feed(self.pending)
            exp = self.model(self.head + self.pending)
            self.pending = b""
        elif ev[0] == "pair":
            data = rig.cc(32, ev[1]) + rig.pc(ev[2])
        elif ev[0] == "burst":
            data = rig.cc(32, ev[1]) + rig.pc(ev[2]) + rig.pc(77) + rig.cc(7, 7) + rig.cc(32, ev[3]) + rig.cc(9, 9) + rig.pc(ev[4])
        elif ev[0] == "tick":
            self.app.tick(ev[1])
        if data:
            self.app.feed(data)
            exp = self.model(data)
        if ev[0] != "half":
            self.app.tick(0)
            self.app.tick(0)
        for n in self.cfg["maps"]:
            for k in range(self.cfg["listeners"]):
                got = [v for (x, v) in self.log if x == (n, k)]
                if got != exp:
                    raise Violation("after %r: listener of %s informed of %r, expected %r" % (ev, n, got, exp))
            if self.m[n].value != self.val:
                raise Violation("after %r: %s is %r, expected %r" % (ev, n, self.m[n].value, self.val))
        for n in self.m:
            if n not in self.cfg["maps"] and self.m[n].value is not None:
                raise Violation("%s changed without being registered" % n)
        if self.app.sent():
            raise Violation("something has been sent")
        self.last = (exp, ev[0])
        del self.log[:]

    def outcome(self):
        return self.last


def tasks(tier):
    names = ["id", "bank", "next", "prev"] + ["rig%d" % i for i in range(5)]
    sub = [(n,) for n in names]
    sub += list(combinations(["id", "bank", "prev", "rig0", "rig4"], 2))
    sub += [tuple(names)]
    th = tier == "thorough"
    if th:
        sub += list(combinations(names, 3))
    hi, lo = ((0, 1, 4, 127), (0, 4, 127)) if th else ((0, 4), (0, 127))
    return [(bfs, ("rigid:" + "+".join(s), RigId, {"maps": s, "listeners": 1 + (len(s) == 1), "hi": hi, "lo": lo}, 30),
             {"time_limit": 100}) for s in sub]
