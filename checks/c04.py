"""C04: life cycle of parameter requests."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "up to 5 parameters (single, list request, two-part answer, shared answer address, permanent), "
                   "2-3 listeners; request/answer/partial answer/foreign message/set/waits around half and full "
                   "lifetime; BFS to depth 6-7; dependent parameters as separate families",
          "thorough": "same alphabets, depth +2"}
ASSUMPTIONS = ["a listener does not request a parameter again from within the notification about that very parameter"]

MAN = [0x00, 0x20, 0x33]


class Midi:
    def __init__(self):
        self.out = []

    def send(self, m):
        self.out.append(tuple(bytes(m.__bytes__() if not hasattr(m, "control") and not hasattr(m, "patch") else
                                    (bytes([0xB0, m.control, m.value]) if hasattr(m, "control") else bytes([0xC0, m.patch])))))

    def receive(self):
        return None


def sysex(*data):
    return env.mod("controller.client").SystemExclusive(MAN, list(data))


def build_mappings(kinds):
    cl = env.mod("controller.client")
    P, P2 = cl.ClientParameterMapping, cl.ClientTwoPartParameterMapping
    CC, PC = cl.ControlChange, cl.ProgramChange
    r = {}
    for k in kinds:
        if k == "s1":
            r[k] = P.get(name=k, set=sysex(2, 127, 1, 0, 10, 1), request=sysex(2, 127, 0x41, 0, 10, 1), response=sysex(0, 0, 1, 0, 10, 1))
        elif k == "s2":
            r[k] = P.get(name=k, set=CC(20, 0), request=sysex(2, 127, 0x41, 0, 10, 2), response=sysex(0, 0, 1, 0, 10, 2))
        elif k == "same":    # shares its answer address with s1
            r[k] = P.get(name=k, request=sysex(2, 127, 0x41, 0, 10, 1), response=sysex(0, 0, 1, 0, 10, 1))
        elif k == "list":
            r[k] = P.get(name=k, set=[CC(21, 0), None, CC(22, 0)], request=[CC(60, 1), None, CC(61, 2)], response=CC(62, 0))
        elif k == "two":
            r[k] = P2.get(name=k, request=CC(70, 1), response=[CC(71, 0), PC(0)])
        elif k == "perm":
            r[k] = P.get(name=k, set=CC(31, 0), response=sysex(0, 0, 1, 0, 127, 126))
        elif k == "str":
            r[k] = P.get(name=k, request=sysex(2, 127, 0x43, 0, 0, 1), response=sysex(0, 0, 3, 0, 0, 1), type=P.PARAMETER_TYPE_STRING)
        elif k == "nores":
            r[k] = P.get(name=k, set=CC(33, 0))
        elif k == "noans":     # request without response template: not answerable, must not be sent
            r[k] = P.get(name=k, request=sysex(2, 127, 0x41, 0, 10, 9))
        elif k == "depon":
            r[k] = P.get(name=k, request=sysex(2, 127, 0x43, 0, 0, 3), response=sysex(0, 0, 3, 0, 0, 3), type=P.PARAMETER_TYPE_STRING)
        elif k == "dep":
            r[k] = P.get(name=k, request=sysex(2, 127, 0x43, 0, 0, 1), response=sysex(0, 0, 3, 0, 0, 1), type=P.PARAMETER_TYPE_STRING,
                         depends=build_mappings(["depon"])["depon"])
    return r


def wire(*data):
    return (0xF0,) + tuple(MAN) + tuple(data) + (0xF7,)


REQ_WIRE = {"s1": [wire(2, 127, 0x41, 0, 10, 1)], "s2": [wire(2, 127, 0x41, 0, 10, 2)], "same": [wire(2, 127, 0x41, 0, 10, 1)],
            "list": [(0xB0, 60, 1), (0xB0, 61, 2)], "two": [(0xB0, 70, 1)], "str": [wire(2, 127, 0x43, 0, 0, 1)],
            "depon": [wire(2, 127, 0x43, 0, 0, 3)], "dep": [wire(2, 127, 0x43, 0, 0, 1)]}


class Lis:
    def __init__(self, name, log):
        self.name, self.log = name, log

    def parameter_changed(self, mapping):
        self.log.append(("changed", self.name, mapping.name, mapping.value))

    def request_terminated(self, mapping):
        self.log.append(("terminated", self.name, mapping.name))


class Life(Sys):
    def __init__(self, cfg):
        cl = env.mod("controller.client")
        self.cfg = cfg
        self.midi = Midi()
        self.log = []
        conf = {}
        self.L = 2000
        if "lifetime" in cfg:
            conf["maxRequestLifetimeMillis"] = self.L = cfg["lifetime"]
        self.client = cl.Client(self.midi, conf)
        self.maps = build_mappings(cfg["maps"])
        self.lis = [Lis(i, self.log) for i in range(cfg["listeners"])]
        # model
        self.pend = {}          # name -> [t, [listeners]]
        self.perm = {}          # name -> listeners
        self.part = {}          # two-part first half
        self.value = {k: None for k in self.maps}
        self.last = None

    def roots(self):
        return (self.client, self.maps, self.pend, self.perm, self.part, self.value)

    def events(self):
        ev = []
        for m in self.cfg["maps"]:
            if m == "noans":
                ev.append(("req", m, 0))
                continue
            if m == "perm" or m == "nores":
                ev += [("reg", m, l) for l in range(len(self.lis))]
            else:
                ev += [("req", m, l) for l in range(len(self.lis))] + [("req", m, None)]
                ev.append(("reg", m, 0))
            if m == "two":
                ev += [("cc", 71, 3), ("pc", 5), ("cc", 71, 0)]
            elif m == "list":
                ev += [("cc", 62, 9), ("cc", 60, 1)]
            elif m == "str":
                ev += [("str", m, "AB"), ("str", m, "")]
            elif m not in ("nores", "same"):
                ev += [("ans", m, 0), ("ans", m, 300)]
            if m in ("s2", "list", "perm"):
                ev += [("set", m)]
        ev += [("wait", dt) for dt in self.cfg["waits"]]
        ev += [("foreign",)]
        return ev

    def step(self, ev):
        cl = env.mod("controller.client")
        k = ev[0]
        expect_sent, expect = [], []
        term_ok = set()
        if k in ("req", "reg"):
            m, l = self.maps[ev[1]], (self.lis[ev[2]] if ev[2] is not None else None)
            if k == "req":
                self.client.request(m, l)
                if ev[1] != "noans" and ev[1] != "nores" and ev[1] != "perm":
                    p = self.pend.get(ev[1])
                    if p is None:
                        p = self.pend[ev[1]] = [env.Clock.now, []]
                        expect_sent += REQ_WIRE[ev[1]]
                    if ev[2] is not None and ev[2] not in p[1]:
                        p[1].append(ev[2])
            else:
                self.client.register(m, l)
                if ev[1] == "perm":
                    p = self.perm.setdefault("perm", [])
                    if ev[2] not in p:
                        p.append(ev[2])
        elif k == "set":
            m = self.maps[ev[1]]
            if ev[1] == "list":
                self.client.set(m, [11, 0, 12])
                expect_sent += [(0xB0, 21, 11), (0xB0, 22, 12)]
            else:
                self.client.set(m, 77)
                expect_sent += [(0xB0, 20 if ev[1] == "s2" else 31, 77)]
        else:
            msg, match = None, {}
            if k == "wait":
                env.Clock.advance(ev[1])
            elif k == "ans":
                num = {"s1": (10, 1), "s2": (10, 2), "perm": (127, 126)}[ev[1]]
                msg = sysex(0, 0, 1, 0, num[0], num[1], ev[2] // 128, ev[2] % 128)
                match = {ev[1]: ev[2]}
                if ev[1] == "s1":
                    match["same"] = ev[2]
            elif k == "str":
                msg = sysex(0, 0, 3, 0, 0, 1, *[ord(c) for c in ev[2]], 0)
                match = {"str": ev[2]}
            elif k == "cc":
                msg = cl.ControlChange(ev[1], ev[2])
                if ev[1] == 62:
                    match = {"list": ev[2]}
                elif ev[1] == 71 and "two" in self.pend:
                    self.part["two"] = ev[2]
            elif k == "pc":
                msg = cl.ProgramChange(ev[1])
                if "two" in self.part and "two" in self.pend:
                    match = {"two": self.part.pop("two") * 128 + ev[1]}
            elif k == "foreign":
                msg = sysex(0, 0, 1, 0, 11, 1, 0, 1)
            self.client.receive(msg)
            now = env.Clock.now
            # terminations are allowed (not required yet) beyond the lifetime
            got_term = {g[2] for g in self.log if g[0] == "terminated"}
            for n in list(self.pend):
                t, ls = self.pend[n]
                age = now - t
                if age > self.L:
                    gone = n in got_term or (not ls and self.client.get_matching_request(self.maps[n]) is None)
                    if gone:
                        expect += [("terminated", l, n) for l in ls]
                        del self.pend[n]
                        if n in match:
                            if not ls:      # expired without listeners: answer may or may not still be taken
                                self.value[n] = self.maps[n].value
                            del match[n]
                        continue
                    if age > self.L * 1.5 + 10:
                        raise Violation("request for %s still pending after %d ms (lifetime %d)" % (n, age, self.L))
            for n, v in match.items():
                if n in self.pend:
                    expect += [("changed", l, n, v) for l in self.pend[n][1]]
                    self.value[n] = v
                    del self.pend[n]
                elif n in self.perm:
                    expect += [("changed", l, n, v) for l in self.perm[n]]
                    self.value[n] = v
        got, sent = list(self.log), list(self.midi.out)
        del self.log[:]
        del self.midi.out[:]
        if sorted(got, key=repr) != sorted(expect, key=repr):
            raise Violation("after %r: notifications expected %r, got %r" % (ev, expect, got))
        if sent != expect_sent:
            raise Violation("after %r: messages sent expected %r, got %r" % (ev, expect_sent, sent))
        for n in self.maps:
            if n in self.value and self.maps[n].value != self.value[n]:
                raise Violation("after %r: value of %s is %r, expected %r" % (ev, n, self.maps[n].value, self.value[n]))
        open_now = {r.mapping.name for r in self.client.requests}
        want = set(self.pend) | set(self.perm)
        if open_now != want:
            raise Violation("after %r: open requests %r, expected %r" % (ev, sorted(open_now), sorted(want)))
        self.last = (got, sent)

    def outcome(self):
        return self.last


class Dep(Sys):
    """dep is only requested when the value of depon changed; every listener must converge."""

    def __init__(self, cfg):
        cl = env.mod("controller.client")
        self.cfg = cfg
        self.midi = Midi()
        self.log = []
        self.client = cl.Client(self.midi, {})
        self.maps = build_mappings(["dep"])
        self.dep = self.maps["dep"]
        self.lis = [Lis(i, self.log) for i in range(cfg["listeners"])]
        self.device = ["D0", "N0"]       # simulated device: date, name
        self.seq = 0
        self.last_known = {}             # listener -> (kind, value)
        self.last = None

    def roots(self):
        return (self.client, self.maps, self.device, self.last_known)

    def events(self):
        return [("cycle", order, lose) for order in range(2) for lose in ("", "date", "name")] + \
               [("newrig",), ("wait", 1001), ("wait", 3500)]

    def drain(self, lose=""):
        n = 0
        while self.midi.out:
            m = self.midi.out.pop(0)
            n += 1
            if n > 20:
                raise Violation("request storm")
            if m == REQ_WIRE["depon"][0]:
                if lose == "date":
                    continue
                self.client.receive(sysex(0, 0, 3, 0, 0, 3, *[ord(c) for c in self.device[0]], 0))
            elif m == REQ_WIRE["dep"][0]:
                self.names += 1
                if lose == "name":
                    continue
                self.client.receive(sysex(0, 0, 3, 0, 0, 1, *[ord(c) for c in self.device[1]], 0))
            else:
                raise Violation("unexpected message %r" % (m,))

    def cycle(self, order, lose=""):
        ls = self.lis if order == 0 else self.lis[::-1]
        if self.cfg["interleave"]:
            for l in ls:
                self.client.request(self.dep, l)
                self.drain(lose)
        else:
            for l in ls:
                self.client.request(self.dep, l)
            self.drain(lose)

    def step(self, ev):
        self.names = 0
        if ev[0] == "cycle":
            self.cycle(ev[1], ev[2])
        elif ev[0] == "newrig":
            self.seq = (self.seq + 1) % 3
            self.device = ["D%d" % self.seq, "N%d" % self.seq]
        else:
            env.Clock.advance(ev[1])
            self.client.receive(None)
        for g in self.log:
            self.last_known[g[1]] = g
            if g[2] != "dep":
                raise Violation("listener notified about the dependency: %r" % (g,))
            if g[0] == "changed" and g[3] != self.device[1]:
                raise Violation("stale answer delivered: %r" % (g,))
        self.last = list(self.log)
        del self.log[:]
        # liveness: with a cooperating device, after the lifetime all listeners hold the current value
        # (evaluated on a copy of the history: done as terminal probe)
        if ev[0] == "cycle" and ev[2] == "":
            pass

    def outcome(self):
        return self.last

    def probe(self):
        env.Clock.advance(3500)
        self.client.receive(None)
        env.Clock.advance(3500)
        self.client.receive(None)
        self.names = 0
        del self.midi.out[:]
        self.cycle(0)
        self.cycle(0)
        for g in self.log:
            self.last_known[g[1]] = g
        for i in range(len(self.lis)):
            g = self.last_known.get(i)
            if g is None or g[0] != "changed" or g[3] != self.device[1]:
                raise Violation("listener %d does not hold the device's current value %r after the device answers again: last notice %r"
                                % (i, self.device[1], g))


class DepProbe(Dep):
    """Every state of Dep followed by the convergence probe (probe is the only successor)."""

    def __init__(self, cfg):
        super().__init__(cfg)
        self.done = False

    def roots(self):
        return super().roots() + (self.done,)

    def events(self):
        return [] if self.done else super().events() + [("probe",)]

    def step(self, ev):
        if ev[0] == "probe":
            self.done = True
            self.probe()
        else:
            super().step(ev)


def tasks(tier):
    x = 0 if tier == "quick" else 2
    w = (1, 1001, 2001)
    T = [
        ({"maps": ["s1"], "listeners": 2, "waits": (1, 600, 1001, 2001)}, 8 + x),
        ({"maps": ["s1", "s2"], "listeners": 2, "waits": w}, 5 + x),
        ({"maps": ["s1", "same"], "listeners": 2, "waits": w}, 5 + x),
        ({"maps": ["two"], "listeners": 2, "waits": w}, 7 + x),
        ({"maps": ["two", "s1"], "listeners": 1, "waits": w}, 5 + x),
        ({"maps": ["list", "perm"], "listeners": 2, "waits": w}, 5 + x),
        ({"maps": ["str", "nores", "noans"], "listeners": 2, "waits": (1, 2001)}, 6 + x),
        ({"maps": ["s1", "perm", "s2"], "listeners": 1, "waits": (1001, 2001)}, 6 + x),
        ({"maps": ["s1", "s2"], "listeners": 1, "waits": (100, 251, 501), "lifetime": 500}, 6 + x),
        ({"maps": ["s1", "s2"], "listeners": 1, "waits": (3000, 5001), "lifetime": 6000}, 6 + x),
    ]
    r = [(bfs, ("life:" + "+".join(c["maps"]), Life, c, d), {"time_limit": 60 if tier == "quick" else 400}) for c, d in T]
    for n in (1, 2, 3):
        for il in (False, True):
            r.append((bfs, ("depends", DepProbe, {"listeners": n, "interleave": il}, 5 + x),
                      {"time_limit": 60 if tier == "quick" else 300}))
    return r
