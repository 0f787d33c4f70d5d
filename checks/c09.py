"""C09: scheduling of the main loop: polling, MIDI bursts, periodic updates."""
from itertools import product
from mc import env, rig
from mc.explore import Sys, Violation, bfs, enumerate_cases

BOUNDS = {"quick": "MIDI backlog 0..34 x message limits {default,0,1,2,5} x 0..3 updated elements x update due/not due x a switch edge "
                   "at every position of the burst; BFS over histories of bursts, edges, waits (depth 6)",
          "thorough": "backlog 0..60, depth 8"}
ASSUMPTIONS = ["messages do not arrive faster than they are read for ever (the backlog is finite)"]


class Midi:
    """Message source: log of every access; may run a hook at the n-th read."""

    def __init__(self, log):
        self.q = []
        self.log = log
        self.hook = None
        self.reads = 0

    def receive(self):
        if self.hook:
            self.hook(self.reads)
        self.reads += 1
        m = self.q.pop(0) if self.q else None
        self.log.append(("rx", None if m is None else m.value))
        return m

    def send(self, m):
        pass


class Sw:
    """Switch hardware which logs every poll."""

    def __init__(self, log, name):
        self.level = False
        self.log = log
        self.name = name

    def init(self):
        pass

    @property
    def pushed(self):
        self.log.append(("poll", self.name))
        return self.level


class Loop(Sys):
    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        self.midi = Midi(self.log)
        A = env.mod("controller.actions")
        M = env.mod("misc")
        C = env.mod("controller.controller").Controller
        cl = env.mod("controller.client")
        self.CC = cl.ControlChange
        log = self.log

        class Act(A.Action):
            def push(self):
                log.append(("push", self.id))

            def release(self):
                log.append(("release", self.id))

            def update(self):
                log.append(("update", "act%d" % self.id))

        class Up(M.Updateable):
            def __init__(self, k):
                self.k = k

            def update(self):
                log.append(("update", "up%d" % self.k))

        conf = {}
        if cfg["max"] is not None:
            conf["maxConsecutiveMidiMessages"] = cfg["max"]
        self.limit = 10 if cfg["max"] is None else cfg["max"]
        self.interval = 200
        if cfg.get("interval"):
            conf["updateInterval"] = self.interval = cfg["interval"]
        if cfg.get("clear") is not None:
            conf["clearBuffers"] = cfg["clear"]
        self.sw = [Sw(log, i) for i in range(cfg["switches"])]
        for i in range(cfg.get("stale", 0)):
            self.midi.q.append(self.CC(99, i))
        self.ctl = C(led_driver=rig.Leds(), midi=self.midi, config=conf,
                     inputs=[{"assignment": {"model": s}, "actions": [Act({"id": s.name})]} for s in self.sw])
        for k in range(cfg["ups"]):
            self.ctl.add_updateable(Up(k))
            self.ups = k
        self.got = []
        client = self.ctl.client
        m = cl.ClientParameterMapping.get(name="probe", response=self.CC(99, 0))

        class L:
            def parameter_changed(s, mm):
                log.append(("value", mm.value))

            def request_terminated(s, mm):
                pass
        client.register(m, L())
        self.ctl.init()
        stale = cfg.get("stale", 0)
        cleared = [e for e in self.log if e[0] == "rx" and e[1] is not None]
        if any(e[0] == "value" for e in self.log):
            raise Violation("messages left from before the start have been processed")
        want = 0 if cfg.get("clear") is False else stale
        if len(cleared) != want:
            raise Violation("%d messages dropped at start, expected %d" % (len(cleared), want))
        del self.log[:]
        self.expect = list(range(want, stale)) if want < stale else []
        self.seq = stale
        self.last_upd = None
        self.seen = [False] * len(self.sw)
        self.last = None
        self.tick()

    def roots(self):
        # the log is emptied by every step; positions of messages only matter relative to each other
        return (self.ctl, len(self.midi.q), self.seen, [s.level for s in self.sw], None if self.last_upd is None else self.last_upd)

    def feed(self, n):
        for _ in range(n):
            v = self.seq % 128
            self.midi.q.append(self.CC(99, v))
            self.expect.append(v)
            self.seq += 1

    def tick(self):
        log = self.log
        now = env.Clock.now
        backlog = len(self.midi.q)
        if self.ctl.tick() is not True:
            raise Violation("the loop ended")
        nsw = len(self.sw)
        # every read of a message is preceded by a poll of every switch since the previous read
        polled = set()
        for e in log:
            if e[0] == "poll":
                polled.add(e[1])
            elif e[0] == "rx":
                if len(polled) != nsw:
                    raise Violation("a message was read without polling all switches before (%r of %d)" % (sorted(polled), nsw))
                polled.clear()
        # updates
        upd = [e[1] for e in log if e[0] == "update"]
        due = self.last_upd is None or now - self.last_upd > self.interval
        if due:
            self.last_upd = now
        exp = ["act%d" % i for i in range(nsw)] + ["up%d" % i for i in range(self.cfg["ups"])] if due else []
        if sorted(upd) != exp:
            raise Violation("updated elements %r, expected %r (due: %r)" % (upd, exp, due))
        # message rounds: at most limit + 1 reads without anything else in between; reads continue until the queue is empty or the limit is hit
        rounds, run = [], []
        for e in log:
            if e[0] == "rx":
                run.append(e[1])
            elif e[0] == "update":
                rounds.append(run)
                run = []
        rounds.append(run)
        for r in rounds:
            if not r:
                raise Violation("no message read between two updates")
            got = [x for x in r if x is not None]
            if len(got) > self.limit + 1:
                raise Violation("%d messages in a row, limit is %d" % (len(got), self.limit))
            if r[-1] is not None and len(got) < max(1, self.limit):
                raise Violation("only %d messages read although more are waiting (limit %d)" % (len(got), self.limit))
        # nothing lost, nothing reordered
        rx = [e[1] for e in log if e[0] == "rx" and e[1] is not None]
        val = [e[1] for e in log if e[0] == "value"]
        if rx != self.expect[:len(rx)] or val != rx:
            raise Violation("messages read %r, processed %r, expected %r" % (rx, val, self.expect[:len(rx)]))
        del self.expect[:len(rx)]
        # edges
        for i, s in enumerate(self.sw):
            edges = [e[0] for e in log if e[0] in ("push", "release") and e[1] == i]
            exp = []
            if s.level != self.seen[i]:
                exp = ["push" if s.level else "release"]
                self.seen[i] = s.level
            if edges != exp:
                raise Violation("switch %d: %r, expected %r" % (i, edges, exp))
        self.last = (len(rx), tuple(upd), len(log))
        del log[:]
        self.midi.reads = 0

    def events(self):
        ev = [("feed", 1), ("feed", 4), ("wait", 1), ("wait", 201)]
        if len(self.midi.q) < 20:
            ev.append(("feed", 13))
        ev += [("sw", i) for i in range(len(self.sw))]
        return ev

    def step(self, ev):
        if ev[0] == "feed":
            self.feed(ev[1])
            self.tick()
        elif ev[0] == "wait":
            env.Clock.advance(ev[1])
            self.tick()
        elif ev[0] == "sw":
            self.sw[ev[1]].level = not self.sw[ev[1]].level
            self.tick()
        elif ev[0] == "case":
            _, backlog, dt, at = ev
            env.Clock.advance(dt)
            self.feed(backlog)
            if at is not None:
                # the switch goes down while the at-th message is read: it must be noticed before the next one is read
                def hook(n, at=at):
                    if n == at:
                        self.sw[0].level = True
                        self.log.append(("down",))
                self.midi.hook = hook
            log = self.log
            self.tick_case()

    def tick_case(self):
        snapshot = None
        log = self.log
        orig = self.ctl.tick
        # keep a copy of the log for the latency check
        keep = []

        def tick():
            r = orig()
            keep.extend(log)
            return r
        self.ctl.tick = tick
        try:
            self.tick()
        finally:
            del self.ctl.tick
            self.midi.hook = None
        if ("down",) in keep:
            i = keep.index(("down",))
            rest = keep[i + 1:]
            pushed = [k for k, e in enumerate(rest) if e[0] == "push"]
            nrx = [k for k, e in enumerate(rest) if e[0] == "rx"]
            # the read during which it went down is nrx[0]
            if len(nrx) > 1 and not (pushed and pushed[0] < nrx[1]):
                raise Violation("a switch edge during a MIDI burst was not noticed before the next message")
            ok = 0

    def outcome(self):
        return self.last


class Case(Loop):
    def tick(self):
        # an edge in the very last read of a tick is seen in the next tick: run that one, too
        self.pending = None
        sw = self.sw
        before = list(self.seen)
        real = [s.level for s in sw]
        try:
            super().tick()
        except Violation as v:
            if not self.midi.hook or "switch 0" not in v.msg:
                raise
            # late edge: must appear in the next tick
            del self.log[:]
            self.seen = before
            self.midi.hook = None
            self.midi.reads = 0
            super().tick()


def tasks(tier):
    th = tier == "thorough"
    r = []
    for mx in (None, 0, 1, 2, 5):
        for ups in (0, 1, 3):
            top = 60 if th else 34
            cases = []
            for b in range(0, top):
                for dt in (1, 201):
                    for at in [None] + list(range(0, min(b + 1, 40))):
                        cases.append((("case", b, dt, at),))
            r.append((enumerate_cases, ("bursts", Case, {"max": mx, "ups": ups, "switches": 2}, cases), {}))
    for mx in (None, 2):
        for ups in (0, 2):
            r.append((bfs, ("histories", Loop, {"max": mx, "ups": ups, "switches": 1}, 8 if th else 6), {"time_limit": 150}))
    r.append((bfs, ("interval", Loop, {"max": 1, "ups": 1, "switches": 1, "interval": 50}, 6), {"time_limit": 150}))
    for stale in (0, 1, 5, 40):
        for clear in (None, True, False):
            r.append((bfs, ("start", Loop, {"max": None, "ups": 1, "switches": 2, "stale": stale, "clear": clear}, 3), {"time_limit": 150}))
    return r
