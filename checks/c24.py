"""C24: which elements are shown, initialised and updated; connection indicator."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs
from checks.c33 import flat

BOUNDS = {"quick": "element trees of 5 shapes (labels with and without backgrounds and callbacks, nested elements, placeholders, split containers, updated elements, connection indicator) "
                   "as 1-3 alternative displays chosen by a parameter; parameter changes, foreign values, updates, connection losses in every order, depth 5 (7 without protocol)",
          "thorough": "depth 7 (9 without protocol)"}
ASSUMPTIONS = ["an element belongs to one display only"]


class Rec:
    def __init__(self):
        self.n = 0


def build(spec, log, path="r"):
    """spec: ("el", [children]) | ("split", dir, [children]) | ("lab", {opts}) | ("upd",) | ("dot",) | None"""
    U, E = env.mod("ui.ui"), env.mod("ui.elements")
    B = U.DisplayBounds(0, 0, 240, 200)
    k = spec[0]
    if k == "lab":
        cb = None
        if spec[1].get("cb"):
            K = env.mod("clients.kemper")
            cb = K.KemperRigNameCallback(show_name=False, show_rig_id=True)
        lay = {"font": "f", "text": path}
        if spec[1].get("back"):
            lay["backColor"] = (5, 6, 7)
        e = E.DisplayLabel(layout=lay, bounds=U.DisplayBounds(0, 0, 50, 20), callback=cb)
    elif k == "dot":
        e = E.BidirectionalProtocolState(bounds=U.DisplayBounds(10, 20, 200, 100))
    elif k == "upd":
        class Own(U.DisplayElement, env.mod("misc").Updateable):
            def __init__(self):
                U.DisplayElement.__init__(self, bounds=B)

            def init(self, ui, appl):
                U.DisplayElement.init(self, ui, appl)
                log.append(("init", path))

            def update(self):
                log.append(("update", path))
        e = Own()
    else:
        kids = [None if c is None else build(c, log, path + str(i)) for i, c in enumerate(spec[-1])]
        if k == "split":
            e = env.mod("ui.DisplaySplitContainer").DisplaySplitContainer(direction=spec[1], bounds=B, children=kids)
            e.update_bounds()
        else:
            e = U.DisplayElement(bounds=B, children=kids)
    return e


def walk(spec, path="r"):
    """(kind, path, options) of all elements in drawing order"""
    r = [(spec[0], path, spec[1] if spec[0] == "lab" else None)]
    if spec[0] in ("el", "split"):
        for i, c in enumerate(spec[-1]):
            if c is not None:
                r += walk(c, path + str(i))
    return r


class Ui(Sys):
    """cfg: roots: [spec], protocol: bool"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        Cb = env.mod("controller.callbacks").Callback
        Cl = env.mod("controller.client").ClientParameterMapping
        CC = env.sys.modules["adafruit_midi.control_change"].ControlChange
        self.roots_ = [build(s, self.log, "d%d" % i) for i, s in enumerate(cfg["roots"])]
        me = self
        if cfg.get("fixed"):
            S = env.mod("clients.local.callbacks.splashes").SplashesCallback(self.roots_[0])
            self.map = None
        else:
            self.map = Cl.get(name="c24", response=CC(20, 0))

            class S(Cb):
                def __init__(self):
                    Cb.__init__(self, mappings=[me.map])

                def get_root(self):
                    return me.roots_[(me.map.value or 0) % len(me.roots_)]
            S = S()
        self.prot = env.mod("clients.kemper").KemperBidirectionalProtocol(30) if cfg.get("protocol") else None
        self.now = 0
        self.inited = set()
        self.rig = None
        self.cc = None
        self.text = {}
        self.app = rig.App([], splash=S, protocol=self.prot)
        self.up = False
        self.dots = [None] * len(self.roots_)
        self.enter(0)
        self.app.update()
        self.dots[0] = False
        self.log.clear()
        self.settle(("start",))

    def roots(self):
        return (self.app, self.roots_, self.map, self.now, self.inited, self.rig, self.text, self.up, self.cc, self.dots)

    def outcome(self):
        return (self.now, sorted(self.inited), self.rig, self.up)

    def recv(self, *msgs):
        self.app.feed(*msgs)
        for _ in range(5):
            self.app.tick(0)

    def enter(self, i):
        self.now = i
        first = i not in self.inited
        self.inited.add(i)
        for k, p, o in walk(self.cfg["roots"][i], "d%d" % i):
            if k == "lab" and first:
                self.text[p] = p
        exp = [("init", p) for k, p, o in walk(self.cfg["roots"][i], "d%d" % i) if k == "upd"] if first else []
        got = [x for x in self.log if x[0] == "init"]
        if got != exp:
            raise Violation("elements initialised when display %d is shown: %s, expected %s" % (i, got, exp))
        self.log[:] = [x for x in self.log if x[0] != "init"]

    def labels(self):
        for i in self.inited:
            for k, p, o in walk(self.cfg["roots"][i], "d%d" % i):
                if k == "lab" and o.get("cb"):
                    yield p

    def events(self):
        ev = [("upd",), ("rig", 0), ("rig", 7)]
        if self.map is not None:
            ev += [("sel", v) for v in range(4 if len(self.roots_) > 2 else 3)]
        if self.prot:
            ev += [("sense",), ("gone",)]
        return ev

    def step(self, ev):
        k = ev[0]
        self.log.clear()
        if k == "upd":
            self.app.update()
            if [x for x in self.log if x[0] == "init"]:
                raise Violation("elements initialised without a change of the display: %s" % self.log)
            exp = [("update", p) for kk, p, o in walk(self.cfg["roots"][self.now], "d%d" % self.now) if kk == "upd"]
            if self.log != exp:
                raise Violation("elements updated: %s, expected %s" % (self.log, exp))
            self.dots[self.now] = self.up
            self.log.clear()
        elif k == "rig":
            self.recv(rig.cc(32, 0), rig.pc(ev[1]))
            self.rig = ev[1]
            for p in self.labels():
                self.text[p] = "%d-%d" % (self.rig // 5 + 1, self.rig % 5 + 1)
        elif k == "sel":
            self.recv(rig.cc(20, ev[1]))
            i = ev[1] % len(self.roots_)
            if i != self.now:
                self.enter(i)
        elif k == "sense":
            self.recv(rig.k_sense())
            self.up = True
        elif k == "gone":
            for _ in range(3):
                self.app.tick(1600)
            self.up = False
            self.dots[self.now] = False
            self.rig = None
            self.text.update({p: None for p in self.labels()})      # unknown now: any
            # the value which selects the display is unknown, too: the display may stay or be the one for "unknown"
            if self.app.display.tft.shown is self.roots_[0].splash:
                self.now = 0
            self.log.clear()
        if self.log:
            raise Violation("%s: %s" % (ev, self.log))
        self.settle(ev)

    def settle(self, ev):
        shown = self.app.display.tft.shown
        if shown is None:
            raise Violation("nothing is shown")
        d = flat(shown)
        exp = []
        for k, p, o in walk(self.cfg["roots"][self.now], "d%d" % self.now):
            if k == "lab":
                if o.get("back"):
                    exp.append(("rect", (5, 6, 7)))
                exp.append(("text", self.text[p]))
            elif k == "dot" and self.prot:
                exp.append(("dot", {None: None, True: (0, 255, 0), False: (255, 0, 0)}[self.dots[self.now]]))
        got = []
        for c, x, y in d:
            if isinstance(c, env.Label):
                got.append(("text", c.text))
            elif c.width == 4:
                got.append(("dot", c.fill))
                if (c.x + x, c.y + y, c.height) != (204, 22, 4):
                    raise Violation("indicator drawn at %s, size %s" % ((c.x + x, c.y + y), c.height))
            else:
                got.append(("rect", c.fill))
        ok = len(got) == len(exp) and all(a[0] == b[0] and (b[1] is None or a[1] == b[1]) for a, b in zip(got, exp))
        if not ok:
            raise Violation("%s: display shows %s, expected %s (display %d)" % (ev, got, exp, self.now))


L, LB, LC, LCB, U_ = ("lab", {}), ("lab", {"back": 1}), ("lab", {"cb": 1}), ("lab", {"cb": 1, "back": 1}), ("upd",)
TREES = {
    "leaf": LC,
    "flat": ("el", [LB, None, LC, U_]),
    "deep": ("el", [("split", 0, [LB, None, LCB]), ("el", [U_, ("el", [L, U_]), None]), LC, ("dot",)]),
    "empty": ("el", []),
    "upd": U_,
}


def tasks(tier):
    d = 7 if tier != "quick" else 5
    r = []
    for a in TREES:
        for p in (0, 1):
            r.append((bfs, ("fixed", Ui, {"roots": [TREES[a]], "fixed": 1, "protocol": p}, d if p else d + 2), {}))
    for a, b in (("flat", "deep"), ("deep", "flat"), ("leaf", "upd"), ("empty", "deep"), ("deep", "deep")):
        for p in (0, 1):
            r.append((bfs, ("two", Ui, {"roots": [TREES[a], TREES[b]], "protocol": p}, d if p else d + 2), {}))
    r.append((bfs, ("three", Ui, {"roots": [TREES["flat"], TREES["deep"], TREES["leaf"]], "protocol": 1}, d), {}))
    r.append((bfs, ("three", Ui, {"roots": [TREES["flat"], TREES["upd"], TREES["empty"]], "protocol": 0}, d + 2), {}))
    return r
