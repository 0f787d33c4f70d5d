"""C07: establishing, keeping and re-establishing bidirectional communication."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "lease times 4/10/30 s, tuner mode on/off; sense messages, lost sense messages, foreign traffic and waits of "
                   "201 ms..6 s in every order; BFS, depth 8-9 (timestamps merged relative to now)",
          "thorough": "same, depth 11-12"}
ASSUMPTIONS = ["the main loop runs at least once per wait (no loop stall longer than a wait is modelled separately)"]


class Lis:
    def __init__(self):
        self.terminated = 0
        self.changed = []

    def parameter_changed(self, m):
        self.changed.append(m.value)

    def request_terminated(self, m):
        self.terminated += 1


class Proto(Sys):
    """Model: connected = a sense message came in (after the first beacon) not longer than 1500 ms before the last update."""

    def __init__(self, cfg):
        K = env.mod("clients.kemper")
        self.cfg = cfg
        self.lease = cfg["lease"]
        kw = {} if cfg.get("tuner") is None else {"tuner_mode": cfg["tuner"]}
        self.prot = K.KemperBidirectionalProtocol(time_lease_seconds=self.lease, **kw)
        self.app = rig.App([], protocol=self.prot)
        self.flags = 2 | (32 if cfg.get("tuner", True) in (True, None) else 0)
        self.bi = K.KemperMappings.EFFECT_STATE(0)
        self.nb = env.mod("clients.kemper.mappings.rig").MAPPING_RIG_VOLUME()
        self.perm = K.KemperMappings.RIG_ID()
        self.l = {"bi": Lis(), "nb": Lis(), "perm": Lis()}
        c = self.app.ctl.client
        c.register(self.bi, self.l["bi"])
        c.register(self.perm, self.l["perm"])
        c.register(self.nb, self.l["nb"])
        if self.bi.request or not self.nb.request:
            raise Violation("a parameter of the bidirectional set is still requested, or the others are not any more")
        self.colors = env.mod("colors").Colors
        # model
        self.init_at = None       # time of last initial beacon
        self.sense_at = None      # last sense accepted
        self.up = False           # communication established
        self.was_up = False
        self.last_keep = None     # last keep-alive or establishing time
        self.owed = 0             # updates since an initial beacon became due
        self.value = None
        self.last = None
        if cfg.get("early"):
            self.app.feed(rig.k_sense())      # before the first beacon: must not count
        self.app.tick(201)
        self.on_update(env.Clock.now)

    def roots(self):
        return (self.app, self.prot, self.bi, self.nb, self.perm, self.init_at, self.sense_at, self.up, self.was_up,
                self.last_keep, self.owed, self.value)

    def events(self):
        return [("wait", d) for d in self.cfg["waits"]] + [("sense", 0), ("sense", 2), ("foreign",), ("value", 1), ("set", 1), ("set", 0)]

    def step(self, ev):
        app, now = self.app, env.Clock
        L = self.l
        for l in L.values():
            l.terminated = 0
            l.changed = []
        exp_changed = []
        exp_msgs = []
        if ev[0] == "wait":
            app.tick(ev[1])
            self.on_update(now.now)
        else:
            if ev[0] == "sense":
                app.feed(rig.k_sense((ev[1], 127 if ev[1] else 0)))
            elif ev[0] == "foreign":
                app.feed(rig.sx(0, 0x20, 0x34, 0, 0, 0x7e, 0, 0x7f), rig.sx(0, 0x20, 0x33, 0, 0, 0x7e, 0, 0x40),
                         rig.sx(0, 0x20, 0x33, 0, 0, 0x7d, 0, 0x7f), rig.cc(1, 1))
            elif ev[0] == "value":
                app.feed(rig.k_single(0x32, 3, ev[1]))
                exp_changed = [ev[1]]
                self.value = ev[1]
            elif ev[0] == "set":
                app.ctl.client.set(self.bi, ev[1])
                exp_changed = [ev[1]]
                self.value = ev[1]
                exp_msgs = [("cc", 17, ev[1])]
            app.tick(0)
            app.tick(0)
            if ev[0] == "sense" and self.init_at is not None:
                self.sense_at = now.now
                if not self.up:
                    self.up = self.was_up = True
                    self.owed = 0
                    self.last_keep = now.now
            sent = app.sent()
            if sent != exp_msgs:
                raise Violation("after %r: sent %r, expected %r" % (ev, sent, exp_msgs))
            for n, l in L.items():
                if l.terminated:
                    raise Violation("listener informed of a lost connection without an update")
        if L["bi"].changed != exp_changed or L["nb"].changed or L["perm"].changed:
            raise Violation("after %r: listener informed of %r, expected %r" % (ev, L["bi"].changed, exp_changed))
        if self.bi.value != self.value:
            raise Violation("value is %r, expected %r" % (self.bi.value, self.value))
        col = self.prot.get_color()
        exp = self.colors.GREEN if self.up else self.colors.RED
        if col != exp:
            raise Violation("after %r: state shown as %r, expected %r" % (ev, col, exp))

    def on_update(self, t):
        sent = self.app.sent()
        init = [m for m in sent if m == rig.k_beacon(self.flags | 1, self.lease // 2)]
        keep = [m for m in sent if m == rig.k_beacon(self.flags, self.lease // 2)]
        if len(init) + len(keep) != len(sent) or len(sent) > 1:
            raise Violation("unexpected messages %r" % (sent,))
        if self.up and t - self.sense_at > 1500:
            self.up = False
            self.owed = 0
            self.last_keep = None
            fresh_loss = True
        else:
            fresh_loss = False
        self.last = (len(init), len(keep), self.up)
        if self.up:
            if init:
                raise Violation("initial beacon while the communication is running")
            due = t - self.last_keep > self.lease * 500
            if due != bool(keep):
                raise Violation("keep-alive beacon %s %d ms after the last one (lease %d s)" % (
                    "missing" if due else "sent", t - self.last_keep, self.lease))
            if keep:
                self.last_keep = t
            self.expect_term(0)
            return
        if keep:
            raise Violation("keep-alive beacon without running communication")
        due = self.init_at is None or t - self.init_at > 5000
        if init:
            if not due:
                raise Violation("initial beacons only %d ms apart" % (t - self.init_at))
            self.init_at = t
            self.owed = 0
            self.expect_term(1 if self.was_up else 0)
        else:
            # the update which detects the loss may leave the initial beacon to the next one
            if due and not fresh_loss:
                raise Violation("no initial beacon although the communication is not running (last one %s)" % (
                    "never" if self.init_at is None else "%d ms ago" % (t - self.init_at)))
            self.expect_term(0)

    def expect_term(self, n):
        for k, l in self.l.items():
            e = n if k == "bi" else 0
            if l.terminated != e:
                raise Violation("listener of %s informed %d times of the lost connection, expected %d" % (k, l.terminated, e))

    def outcome(self):
        return self.last


def tasks(tier):
    x = 0 if tier == "quick" else 3
    C = []
    for lease, tuner in ((4, True), (10, False), (30, None)):
        C.append(({"lease": lease, "tuner": tuner, "waits": (201, 1501, 5001)}, 6 + x))
        C.append(({"lease": lease, "tuner": tuner, "waits": (301, 1001, 4000)}, 6 + x))
        C.append(({"lease": lease, "tuner": tuner, "waits": (500, lease * 500 + 1)}, 6 + x))
    C.append(({"lease": 30, "tuner": True, "early": True, "waits": (201, 1501)}, 5 + x))
    return [(bfs, ("protocol", Proto, c, d), {"time_limit": 80 if tier == "quick" else 500}) for c, d in C]
