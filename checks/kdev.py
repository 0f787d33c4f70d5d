"""Simulated Kemper Profiler (Player), as its MIDI documentation describes it. Used with complete applications."""
from mc import env, rig

NB, NR = 125, 5
# parameters which the device sends by itself in bidirectional mode (parameter set 2)
BIDI = {(p, n) for p in (0x32, 0x33, 0x34, 0x35, 0x38, 0x3a) for n in (0, 3)}


class KDev:
    def __init__(self, rig_id=0, bidi=False, params=None, names=None):
        self.rig = rig_id
        self.pre = None
        self.out = []
        self.params = dict(params or {})
        self.names = names or {}
        self.bidi = bidi                # answers beacons
        self.linked = False
        self.lost = False               # answers nothing
        self.ccs = {}
        self.log = []

    def key(self):
        return (self.rig, self.pre, tuple(sorted(self.params.items())), tuple(sorted(self.names.items())), self.linked, self.lost,
                tuple(sorted(self.ccs.items())), tuple(self.out))

    def name(self, r=None):
        r = self.rig if r is None else r
        return self.names.get(r, "Rig name %d" % r)

    def date(self):
        return "date %d %s" % (self.rig, self.name())

    def announce(self):
        self.out += [rig.cc(32, self.rig >> 7), rig.pc(self.rig & 127)]
        if self.linked:
            self.out += [rig.k_string(0, 1, self.name())]

    def goto(self, r):
        self.rig = r
        if not self.lost:
            self.announce()

    def set(self, page, num, v):
        self.params[(page, num)] = v
        if self.linked and (page, num) in BIDI and not self.lost:
            self.out.append(rig.k_single(page, num, v))

    def rename(self, n):
        self.names[self.rig] = n
        if self.linked and not self.lost:
            self.out.append(rig.k_string(0, 1, n))

    def sense(self):
        if self.linked and not self.lost:
            self.out.append(rig.k_sense())

    def receive(self, m):
        """Message from PySwitch. Returns False for a message the device does not know."""
        if m[0] == "cc":
            c, v = m[1], m[2]
            if self.lost:
                return True
            if c == 47:
                self.pre = v
            elif c in (48, 49):
                self.goto((self.rig // NR + (1 if c == 48 else -1)) % NB * NR + self.rig % NR)
            elif 50 <= c <= 54:
                if v:
                    b = self.rig // NR if self.pre is None else self.pre
                    self.pre = None
                    self.goto(b * NR + c - 50)
            elif c == 31:
                self.set(127, 126, v)
                if self.linked:
                    self.out.append(rig.k_single(127, 126, v))
            else:
                self.ccs[c] = v
            return True
        if m[0] != "sx" or m[1:4] != rig.MAN or m[4:6] != (2, 127):
            return False
        f = m[6]
        if f == 0x7E:
            if self.bidi and not self.lost and m[8:9] == (0x40,):
                new = not self.linked
                self.linked = True
                self.out.append(rig.k_sense())
                if new:
                    self.out += [rig.k_single(p, n, self.params.get((p, n), 0)) for p, n in sorted(BIDI)]
                    self.out += [rig.k_string(0, 1, self.name())]
            return True
        page, num = m[8], m[9]
        if f == 0x01:
            if len(m) != 12:
                return False
            if not self.lost:
                self.set(page, num, m[10] * 128 + m[11])
            return True
        if self.lost:
            return f in (0x41, 0x43, 0x47)
        if f == 0x41:
            self.out.append(rig.k_single(page, num, self.params.get((page, num), 0)))
            return True
        if f == 0x43:
            if (page, num) == (0, 1):
                self.out.append(rig.k_string(0, 1, self.name()))
            elif (page, num) == (0, 3):
                self.out.append(rig.k_string(0, 3, self.date()))
            else:
                self.out.append(rig.k_string(page, num, "text"))
            return True
        return f == 0x47


def exchange(app, d, bad):
    """Let device and application talk until silence. Returns messages sent by the application (without requests)."""
    got = []
    for _ in range(12):
        s = app.sent()
        if not s and not d.out:
            break
        for m in s:
            if not d.receive(m):
                bad(m)
            if m[0] != "sx" or m[6] not in (0x41, 0x43, 0x47, 0x7E):
                got.append(m)
        out, d.out = d.out, []
        for i in range(0, len(out), 4):
            for o in out[i:i + 4]:
                app.feed(o)
            app.tick(0)
        app.tick(0)
    return got


def settle(app, d, bad, rounds=2, dt=201):
    got = []
    for r in range(rounds):
        app.tick(dt if r else 0)
        got += exchange(app, d, bad)
    return got
