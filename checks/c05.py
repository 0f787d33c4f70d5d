"""C05: parameter addressing and value encoding at wire level."""
from mc import env, rig
from mc.explore import Sys, Violation, enumerate_cases
from checks import kmap

BOUNDS = {"quick": "all parameters x all values (0..127 / 0..16383) in both directions; all 16384 addresses against all "
                   "parameters at once; all CCs, all program changes; string lengths 0..31 and all characters",
          "thorough": "as quick, plus all 14-bit values x three message headers, and every ordered pair of set messages"}
ASSUMPTIONS = ["the address table in checks/kmap.py (Kemper MIDI documentation) is right"]


class Rec:
    def __init__(self):
        self.n = 0

    def parameter_changed(self, m):
        self.n += 1

    def request_terminated(self, m):
        pass


class Wire(Sys):
    def __init__(self, cfg):
        self.work = 0
        self.port = rig.Port()
        dev = env.mod("hardware.adafruit.AdafruitUsbMidiDevice").AdafruitUsbMidiDevice(
            port_in=self.port, port_out=self.port, in_buf_size=100)
        mm = env.mod("controller.midi")
        self.midi = mm.MidiController([mm.MidiRouting(source=dev, target=mm.MidiRouting.APPLICATION),
                                       mm.MidiRouting(source=mm.MidiRouting.APPLICATION, target=dev)])
        self.client = env.mod("controller.client").Client(self.midi, {})
        self.tab = kmap.table()
        self.last = None
        self.m = {n: self.tab[n][0]() for n in self.tab}

    def outcome(self):
        return self.last

    def out(self):
        d = bytes(self.port.out)
        self.port.out = bytearray()
        return rig.parse_stream(d)

    def feed(self, b):
        self.port.inq += b
        for _ in range(4):
            msg = self.midi.receive()
            self.client.receive(msg)
            if not msg and not self.port.inq:
                return

    def step(self, ev):
        getattr(self, "do_" + ev[0])(*ev[1:])
        self.last = ev

    # every value of one parameter, set direction
    def do_set(self, name):
        f, s, ask, ans = self.tab[name]
        m = f()
        if m is not f():
            raise Violation("%s: two definitions of the same parameter" % name)
        if s is None:
            if m.set:
                raise Violation("%s must not be settable" % name)
            self.client.set(m, 1)
            if self.out():
                raise Violation("%s: set message sent for a read only parameter" % name)
            return
        for v in range(16384 if s[0] == "nrpn" else 128):
            self.client.set(m, v)
            got = self.out()
            self.work += 1
            if got != [kmap.set_wire(s, v)]:
                raise Violation("set %s = %d sent %r, expected %r" % (name, v, got, kmap.set_wire(s, v)))

    # request message and every answer value
    def do_answer(self, name, head):
        f, s, ask, ans = self.tab[name]
        m = f()
        r = Rec()
        n = 0
        if ask is None:
            self.client.request(m, r)
            if self.out():
                raise Violation("%s: unexpected request message" % name)
            self.client.register(m, r)
        if ans is None:
            return
        m.depends = None
        if ans[0] == "string":
            cases = [(rig.k_string(0, ans[1], t, head), t) for t in
                     ["x" * k for k in range(0, 32)] + [chr(c) for c in range(1, 128)] + ["".join(chr(c) for c in range(32, 63))]]
        elif ans[0] == "cc":
            cases = [(rig.cc(ans[1], v), v) for v in range(128)]
        elif ans[0] == "rig":
            cases = [(rig.cc(32, v >> 7) + rig.pc(v & 127), v) for v in range(0, 16384, 1)]
        else:
            cases = [(rig.k_single(ans[1], ans[2], v, head), v) for v in range(16384)]
        for wire, v in cases:
            if ask is not None:
                self.client.request(m, r)
                got = self.out()
                if got != [kmap.ask_wire(ask)]:
                    raise Violation("request %s sent %r, expected %r" % (name, got, kmap.ask_wire(ask)))
            self.feed(wire)
            n += 1
            self.work += 1
            if m.value != v or r.n != n:
                raise Violation("%s: answer %s decoded as %r (notified %d times), expected %r (%d)" % (
                    name, wire.hex(" "), m.value, r.n, v, n))
        if self.out():
            raise Violation("%s: unexpected messages sent" % name)

    def all_pending(self, only=None):
        for n in (self.tab if only is None else only):
            m = self.m[n]
            m.depends = None
            if m.request:
                self.client.request(m, None)
            else:
                self.client.register(m, None)
        self.out()

    def changed(self, wire, value, what, exp):
        self.feed(wire)
        self.work += 1
        got = {n for n in self.m if self.m[n].value is not None}
        if got != exp:
            raise Violation("%s changed %r, expected %r" % (what, sorted(got), sorted(exp)))
        for n in exp:
            if self.m[n].value != value:
                raise Violation("%s set %s to %r, expected %r" % (what, n, self.m[n].value, value))
            self.m[n].value = None
        if exp:
            self.all_pending(exp)

    # a message for one address reaches exactly the parameters with that address
    def do_cross(self, page):
        self.all_pending()
        for num in range(128):
            for fn, kind in ((1, "single"), (3, "string"), (0x41, None), (6, None)):
                exp = set()
                if kind == "single":
                    exp = {n for n, t in self.tab.items() if t[3] == ("single", page, num)}
                elif kind == "string" and page == 0:
                    exp = {n for n, t in self.tab.items() if t[3] == ("string", num)}
                self.changed(rig.sx(*rig.MAN, 0, 0, fn, 0, page, num, 3, 7, *([0] if fn == 3 else [])),
                             "\x03\x07" if kind == "string" else 3 * 128 + 7,
                             "message fn %d page %d number %d" % (fn, page, num), exp)
        num = 3
        for man in ((0, 0x20, 0x34), (0, 0x21, 0x33), (1, 0x20, 0x33), (0x33,)):
            self.changed(rig.sx(*man, 0, 0, 1, 0, page, num, 3, 7), 0, "foreign manufacturer %r" % (man,), set())
        for inst in (1, 127):
            self.changed(rig.sx(*rig.MAN, 0, 0, 1, inst, page, num, 3, 7), 0, "other instance %d" % inst, set())

    def do_crosscc(self):
        self.all_pending()
        for c in range(128):
            exp = {n for n, t in self.tab.items() if t[3] == ("cc", c)}
            self.changed(rig.cc(c, 9), 9, "control change %d" % c, exp)
        for p in range(128):
            # program changes only complete a rig ID after CC 32
            exp = {n for n, t in self.tab.items() if t[3] == ("rig",)}
            if p == 0:
                # complete what the CC loop above has started
                self.feed(rig.pc(1))
                for n in exp:
                    self.m[n].value = None
            self.changed(rig.cc(32, 1) + rig.pc(p), 128 + p, "rig id %d" % p, exp)
            self.changed(rig.pc(p), 0, "lone program change %d" % p, set())

    def do_pair(self, a):
        for b in self.tab:
            sa, sb = self.tab[a][1], self.tab[b][1]
            if not sa or not sb:
                continue
            self.client.set(self.m[a], 5)
            self.client.set(self.m[b], 77)
            self.client.set(self.m[a], 99)
            got = self.out()
            self.work += 1
            exp = [kmap.set_wire(sa, 5), kmap.set_wire(sb, 77), kmap.set_wire(sa, 99)]
            if got != exp:
                raise Violation("set %s/%s/%s sent %r, expected %r" % (a, b, a, got, exp))

    def do_distinct(self):
        seen = {}
        for n, m in self.m.items():
            if id(m) in seen:
                raise Violation("parameters %s and %s share one definition" % (n, seen[id(m)]))
            seen[id(m)] = n


def names():
    env.fresh()
    return list(kmap.table())


def tasks(tier):
    ns = names()
    heads = [(0, 0)] if tier == "quick" else [(0, 0), (2, 127), (0, 127)]
    cases = [[("distinct",)], [("crosscc",)]] + [[("set", n)] for n in ns] + [[("answer", n, h)] for n in ns for h in heads]
    cases += [[("pair", n)] for n in ns]
    cases += [[("answer", n, (2, 127))] for n in ns[:3]]
    cross = [[("cross", p)] for p in range(128)]
    allc = cases + cross
    k = 32
    return [(enumerate_cases, ("wire", Wire, {}, allc[i::k]), {}) for i in range(k)]
