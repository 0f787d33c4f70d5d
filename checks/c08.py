"""C08: MIDI routing and byte level transport."""
import sys
from contextlib import contextmanager
from itertools import combinations, product
from mc import env, rig
from mc.explore import Sys, Violation, enumerate_cases

BOUNDS = {"quick": "all 256 routing tables over 2 devices + application x all input sequences up to length 4 (6 symbols); all 32768 tables "
                   "over 3 devices with a fixed traffic pattern; all splits (<= 3 cuts) of message triples at byte level",
          "thorough": "sequences up to length 5; 3 cuts, message triples"}
ASSUMPTIONS = ["single SysEx messages fit into the input buffer of the device (100 bytes)",
               "the bytes of one SysEx message are available at once (the vendored adafruit_midi parser drops the first part of a "
               "SysEx message split between two reads; the library on the device is a binary and outside of what is checked)",
               "the routing tables list every route once"]

APP = "app"
KNOWN = {"cc": lambda tag, n: bytes([0xB0, tag, n]), "pc": lambda tag, n: bytes([0xC0, tag * 16 + n]),
         "sx": lambda tag, n: rig.sx(0, 0x20, 0x33, tag, n, 1)}


def device(port, kind="usb"):
    if kind == "usb":
        m = env.mod("hardware.adafruit.AdafruitUsbMidiDevice")
        return m.AdafruitUsbMidiDevice(port_in=port, port_out=port, in_buf_size=100)
    m = env.mod("hardware.adafruit.AdafruitDinMidiDevice")
    with din_port(port):
        return m.AdafruitDinMidiDevice(gpio_in=1, gpio_out=2, in_buf_size=100, baudrate=31250, timeout=0.001)


@contextmanager
def din_port(port):
    """Every UART opened meanwhile is the passed port."""
    m = env.mod("hardware.adafruit.AdafruitDinMidiDevice")
    b = sys.modules["busio"]
    saved = b.UART, {k: v for k, v in vars(m).items() if v is b.UART}
    make = lambda *a, **k: port
    b.UART = make
    for k in saved[1]:
        setattr(m, k, make)
    try:
        yield
    finally:
        b.UART = saved[0]
        for k, v in saved[1].items():
            setattr(m, k, v)


class Net:
    def __init__(self, ndev, edges):
        mm = env.mod("controller.midi")
        self.ports = [rig.Port() for _ in range(ndev)]
        self.devs = [device(p, "din" if i % 2 else "usb") for i, p in enumerate(self.ports)]
        node = lambda x: mm.MidiRouting.APPLICATION if x == APP else self.devs[x]
        self.edges = edges
        self.ctl = mm.MidiController([mm.MidiRouting(source=node(a), target=node(b)) for a, b in edges])
        self.fed = [[] for _ in range(ndev)]     # expected deliveries by source
        self.sent = []
        self.app_got = []
        self.msg = None
        self.n = 0
        self.total = 0

    def feed(self, src, kind):
        self.n += 1
        if kind == "note":                       # unsupported message types
            self.ports[src].inq += bytes([0x90, 60, 64])
            self.total += 1
        elif kind == "clock":
            self.ports[src].inq += bytes([0xF8])
            self.total += 1
        else:
            b = KNOWN[kind](src + 1, (self.n + 1) // 2)     # includes equal messages in a row
            self.ports[src].inq += b
            self.fed[src] += rig.parse_stream(b)
            self.total += 1

    def receive(self):
        m = self.ctl.receive()
        if m is not None:
            b = bytes(m.__bytes__()) if m.__class__.__name__ == "SystemExclusive" else None
            cl = env.mod("controller.client")
            if isinstance(m, cl.ControlChange):
                self.app_got.append(("cc", m.control, m.value))
            elif isinstance(m, cl.ProgramChange):
                self.app_got.append(("pc", m.patch))
            elif b:
                self.app_got += rig.parse_stream(b)
            else:
                self.total -= 0
        return m

    def send(self):
        self.n += 1
        cl = env.mod("controller.client")
        # the application reuses its message objects
        if self.msg is None:
            self.msg = cl.ControlChange(90, 0)
        self.msg.value = (self.n + 1) // 2
        self.ctl.send(self.msg)
        self.sent.append(("cc", 90, self.msg.value))

    def check(self):
        for _ in range(2 * self.total + 3):
            self.receive()
        src_of = lambda m: ("app" if m[:2] == ("cc", 90) else (m[1] - 1 if m[0] == "cc" else m[1] // 16 - 1 if m[0] == "pc" else m[4] - 1))
        for t in list(range(len(self.devs))) + [APP]:
            got = self.app_got if t == APP else rig.parse_stream(bytes(self.ports[t].out))
            by = {}
            for m in got:
                by.setdefault(src_of(m), []).append(m)
            for s in list(range(len(self.devs))) + [APP]:
                exp = []
                if (s, t) in self.edges:
                    exp = self.sent if s == APP else self.fed[s]
                if by.get(s, []) != exp:
                    raise Violation("routing %r: target %r got %r from %r, expected %r" % (self.edges, t, by.get(s, []), s, exp))


class Routes(Sys):
    """One case = one routing table; inside, all traffic sequences."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.work = 0
        self.last = None

    def step(self, ev):
        edges, syms, depth = ev
        edges = tuple(tuple(e) for e in edges)
        for rev in (False, True):
            for seq in product(syms, repeat=depth):
                n = Net(self.cfg["devices"], edges[::-1] if rev else edges)
                for s in seq:
                    if s == "rx":
                        n.receive()
                    elif s == "tx":
                        n.send()
                    else:
                        n.feed(s[0], s[1])
                self.work += 1
                try:
                    n.check()
                except Violation as v:
                    raise Violation(v.msg + " (traffic %r)" % (seq,))
                self.last = (edges, [len(p.out) for p in n.ports], len(n.app_got))

    def outcome(self):
        return self.last


class Wide(Sys):
    """Three devices: a block of routing tables with one dense traffic pattern."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.work = 0
        self.last = None

    def step(self, ev):
        nodes = [0, 1, 2, APP]
        all_e = [(a, b) for a in nodes for b in nodes if (a, b) != (APP, APP)]
        for mask in range(ev[0], ev[1]):
            edges = tuple(e for i, e in enumerate(all_e) if mask >> i & 1)
            n = Net(3, edges)
            for r in range(2):
                for d in range(3):
                    n.feed(d, "cc")
                n.send()
                n.feed(1, "note")
                n.feed(0, "sx")
                n.receive()
                n.feed(2, "pc")
            self.work += 1
            n.check()
            self.last = (mask, len(n.app_got))

    def outcome(self):
        return self.last


# ---------------------------------------------------------------- byte level transport

class Lis:
    def __init__(self, log):
        self.log = log

    def parameter_changed(self, m):
        self.log.append((m.name, m.value))

    def request_terminated(self, m):
        self.log.append((m.name, None))


class Chunks(Sys):
    """Every way to cut the byte stream of a message tuple into pieces, with a poll after each piece."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.work = 0
        self.last = None

    def setup(self):
        port = rig.Port(self.cfg.get("chunk"))
        if self.cfg["device"] == "usb":
            sys.modules["usb_midi"].ports[:] = [port, port]
            dev = env.mod("hardware.devices.pa_midicaptain").PA_MIDICAPTAIN_USB_MIDI()
        else:
            with din_port(port):
                dev = env.mod("hardware.devices.pa_midicaptain").PA_MIDICAPTAIN_DIN_MIDI()
        mm = env.mod("controller.midi")
        midi = mm.MidiController([mm.MidiRouting(source=dev, target=mm.MidiRouting.APPLICATION)])
        return port, midi

    def step(self, ev):
        msgs = [bytes(m) for m in ev[0]]
        cuts = ev[1]
        data = b"".join(msgs)
        exp = [m for m in rig.parse_stream(data)]
        from itertools import combinations as comb
        K = env.mod("clients.kemper")
        ok, o = [], 0
        for m in msgs:
            ok += [o] if m[0] == 0xF0 else list(range(o, o + len(m)))
            o += len(m)
        for nc in range(cuts + 1):
            for pos in comb([p for p in ok if p], nc):
                port, midi = self.setup()
                got = []
                last = 0
                for p in pos + (len(data),):
                    port.inq += data[last:p]
                    last = p
                    for _ in range(len(data) + 3 if self.cfg.get("chunk") else 2 + len(msgs)):
                        m = midi.receive()
                        if m is not None:
                            got.append(m)
                self.work += 1
                if [self.tup(m) for m in got] != exp:
                    raise Violation("stream %s cut at %r: received %r, expected %r" % (data.hex(" "), pos, [self.tup(m) for m in got], exp))
        self.last = (len(data), exp[0][0])

    def tup(self, m):
        cl = env.mod("controller.client")
        if isinstance(m, cl.ControlChange):
            return ("cc", m.control, m.value)
        if isinstance(m, cl.ProgramChange):
            return ("pc", m.patch)
        if isinstance(m, cl.SystemExclusive):
            return ("sx",) + tuple(m.manufacturer_id) + tuple(m.data)
        return (m.__class__.__name__,)

    def outcome(self):
        return self.last


class Channels(Sys):
    """Incoming and outgoing channel settings of a device."""

    def __init__(self, cfg):
        self.work = 0

    def step(self, ev):
        mm = env.mod("controller.midi")
        cl = env.mod("controller.client")
        for inc in [None] + list(range(16)):
            for outc in range(16):
                port = rig.Port()
                sys.modules["usb_midi"].ports[:] = [port, port]
                dev = env.mod("hardware.devices.pa_midicaptain").PA_MIDICAPTAIN_USB_MIDI(in_channel=inc, out_channel=outc)
                midi = mm.MidiController([mm.MidiRouting(source=dev, target=mm.MidiRouting.APPLICATION),
                                          mm.MidiRouting(source=mm.MidiRouting.APPLICATION, target=dev)])
                midi.send(cl.ControlChange(5, 6))
                midi.send(cl.ProgramChange(9))
                if bytes(port.out) != bytes([0xB0 | outc, 5, 6, 0xC0 | outc, 9]):
                    raise Violation("channel %d: sent %s" % (outc, bytes(port.out).hex(" ")))
                for ch in range(16):
                    port.inq += bytes([0xB0 | ch, 7, ch])
                port.inq += rig.k_sense()
                got = []
                for _ in range(40):
                    m = midi.receive()
                    if m is not None:
                        got.append(m)
                self.work += 1
                if [m.value for m in got[:-1]] != (list(range(16)) if inc is None else [inc]) or not isinstance(got[-1], cl.SystemExclusive):
                    raise Violation("input channel %r: received %r" % (inc, got))

    def outcome(self):
        return "channels"


def tasks(tier):
    th = tier == "thorough"
    r = []
    nodes = [0, 1, APP]
    all_e = [(a, b) for a in nodes for b in nodes if (a, b) != (APP, APP)]
    tables = [tuple(e for i, e in enumerate(all_e) if m >> i & 1) for m in range(256)]
    syms = ((0, "cc"), (0, "sx"), (1, "pc"), (0, "note"), "rx", "tx")
    d = 5 if th else 4
    step = 8
    for i in range(0, 256, step):
        r.append((enumerate_cases, ("routes", Routes, {"devices": 2}, [((t, syms, d),) for t in tables[i:i + step]]), {}))
    for i in range(0, 32768, 2048):
        r.append((enumerate_cases, ("routes3", Wide, {}, [((i, i + 2048),)]), {}))
    M = [rig.cc(47, 3), rig.pc(100), rig.k_sense(), rig.k_single(0x32, 3, 300), rig.k_string(0, 1, "Rig name"), rig.k_string(0, 3, "x" * 40)]
    long = rig.k_string(0, 4, "y" * 88)
    for dev in ("usb", "din"):
        for chunk in (None, 1, 2):
            S = M[:2] if chunk else M
            cases = [(((a, b), 3),) for a in S for b in S] + [(((a, b, c), 3),) for a in S for b in S for c in S]
            if not chunk:
                cases += [(((m, long), 1),) for m in M[:4]] + [(((long, m), 1),) for m in M]
            if th:
                cases += [(((a, b, c, d), 4),) for a in S for b in S for c in S for d in S]
            n = 4
            for k in range(n):
                r.append((enumerate_cases, ("chunks:" + dev, Chunks, {"device": dev, "chunk": chunk}, [tuple(c) for c in cases[k::n]]), {}))
    r.append((enumerate_cases, ("channels", Channels, {}, [(("all",),)]), {}))
    return r
