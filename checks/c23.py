"""C23: display areas: bounds arithmetic and split containers."""
from itertools import product, permutations
from mc import env
from mc.explore import Sys, Violation, enumerate_cases

BOUNDS = {"quick": "all areas up to 7 x 5 at 3 positions x all amounts; all sequences of up to 3 removals (4 sides x amounts) whose parts and rest must tile the area; split containers of 0..7 "
                   "children (with placeholders) in both directions over widths 0..40 and 240, nested to depth 3 incl. all orders of building them",
          "thorough": "areas up to 11 x 8, 4 removals, up to 9 children, widths 0..64"}
ASSUMPTIONS = ["amounts do not exceed the size of the area"]
SIDES = ("top", "bottom", "left", "right")


def t(b):
    return (b.x, b.y, b.width, b.height)


def cells(b):
    x, y, w, h = b
    return {(i, j) for i in range(x, x + w) for j in range(y, y + h)}


def part(b, side, n):
    """(removed part, rest) of the area b=(x, y, w, h)."""
    x, y, w, h = b
    if side == "top":
        return (x, y, w, n), (x, y + n, w, h - n)
    if side == "bottom":
        return (x, y + h - n, w, n), (x, y, w, h - n)
    if side == "left":
        return (x, y, n, h), (x + n, y, w - n, h)
    return (x + w - n, y, n, h), (x, y, w - n, h)


class Area(Sys):
    """Steps: ("area", x, y): all sizes x amounts at that position. ("seq", w, h): all removal sequences."""

    def __init__(self, cfg):
        self.B = env.mod("ui.ui").DisplayBounds
        self.L = env.mod("ui.layout")
        self.work = 0
        self.last = None

    def outcome(self):
        return self.last

    def eq(self, what, got, exp):
        self.work += 1
        if got != exp:
            raise Violation("%s gives %s, expected %s" % (what, got, exp))

    def step(self, ev):
        B, L = self.B, self.L
        if ev[0] == "area":
            x, y, W, H = ev[1:]
            for w, h in product(range(W + 1), range(H + 1)):
                o = (x, y, w, h)
                for side in SIDES:
                    for n in range((h if side in ("top", "bottom") else w) + 1):
                        for amount in (n, n + 0.75) if n < (h if side in ("top", "bottom") else w) else (n,):
                            p, rest = part(o, side, n)
                            b = B(*o)
                            r = getattr(L, "remove_from_" + side)(b, amount)
                            self.eq("remove_from_%s(%s, %s)" % (side, o, amount), (t(r), t(b)), (p, rest))
                            b = B(*o)
                            r = getattr(L, side)(b, amount)
                            self.eq("%s(%s, %s)" % (side, o, amount), (t(r), t(b)), (p, o))
                            r.x += 1
                            r.width += 1
                            self.eq("changing the result of %s" % side, t(b), o)
                for dx, dy in product((-3, 0, 2, 1.5), (-1, 0, 4)):
                    b = B(*o)
                    r = L.translated(b, dx, dy)
                    self.eq("translated(%s, %s, %s)" % (o, dx, dy), (t(r), t(b)), ((x + int(dx), y + int(dy), w, h), o))
                    L.translate(b, dx, dy)
                    self.eq("translate(%s, %s, %s)" % (o, dx, dy), t(b), (x + int(dx), y + int(dy), w, h))
                    b = B(*o)
                    r = L.with_position(b, dx, dy)
                    self.eq("with_position(%s, %s, %s)" % (o, dx, dy), (t(r), t(b)), ((int(dx), int(dy), w, h), o))
                b = B(*o)
                c = b.clone()
                self.eq("clone", (t(c), c == b), (o, True))
                for k, a in enumerate(("x", "y", "width", "height")):
                    c = b.clone()
                    setattr(c, a, getattr(c, a) + 1)
                    self.eq("comparison of areas with different " + a, (c == b, t(b)), (False, o))
            self.last = ev
        else:
            w, h, depth = ev[1:]

            def rec(b, parts, d):
                if d == depth:
                    return
                for side in SIDES:
                    size = b.height if side in ("top", "bottom") else b.width
                    for n in range(size + 1):
                        c = B(*t(b))
                        p = getattr(L, "remove_from_" + side)(c, n)
                        ps = parts + [t(p)]
                        self.work += 1
                        allp = ps + [t(c)]
                        if any(q[2] < 0 or q[3] < 0 for q in allp):
                            raise Violation("removals from %sx%s give the parts %s" % (w, h, allp))
                        u = [cells(q) for q in allp]
                        if sum(len(q) for q in u) != w * h or set().union(*u) != cells((2, 1, w, h)):
                            raise Violation("removals from an area %sx%s at (2, 1) do not tile it: %s" % (w, h, allp))
                        rec(c, ps, d + 1)
            rec(B(2, 1, w, h), [], 0)
            self.last = ev


class Split(Sys):
    """("flat", direction, size): all child patterns. ("nest", shape, order)."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.U, self.S = env.mod("ui.ui"), env.mod("ui.DisplaySplitContainer").DisplaySplitContainer
        self.work = 0
        self.last = None

    def outcome(self):
        return self.last

    def leaf(self):
        return self.U.DisplayElement(bounds=self.U.DisplayBounds(77, 78, 79, 80))

    def slots(self, b, d, n):
        x, y, w, h = b
        s = (w if d == 0 else h) // n
        return [(x + i * s, y, s, h) if d == 0 else (x, y + i * s, w, s) for i in range(n)]

    def expect(self, el, b, spec):
        """spec: None (leaf) or (direction, [specs])"""
        self.work += 1
        if t(el.bounds) != b:
            raise Violation("element has the area %s instead of %s" % (t(el.bounds), b))
        if spec is None:
            return
        d, kids = spec
        act = [(c, k) for c, k in zip(el.children or [], kids) if c is not None]
        for (c, k), bb in zip(act, self.slots(b, d, len(act)) if act else []):
            self.expect(c, bb, k)

    def step(self, ev):
        U, S = self.U, self.S
        D = {0: S.HORIZONTAL, 1: S.VERTICAL}
        if ev[0] == "flat":
            _, d, size, nmax = ev
            for n in range(nmax + 1):
                for pat in product((0, 1), repeat=n):
                    b = (3, 5, size, 17) if d == 0 else (3, 5, 17, size)
                    kids = [self.leaf() if p else None for p in pat]
                    how = (0, 1, 2) if sum(pat) < 4 else (0, 2)
                    for h in how:
                        if h == 0:          # given to the constructor and laid out
                            c = S(direction=D[d], bounds=U.DisplayBounds(*b), children=list(kids))
                            c.update_bounds()
                        elif h == 1:        # added one by one
                            c = S(direction=D[d], bounds=U.DisplayBounds(*b))
                            for k in kids:
                                c.add(k)
                        else:               # moved afterwards
                            c = S(direction=D[d], bounds=U.DisplayBounds(1, 1, 9, 9), children=list(kids))
                            c.update_bounds()
                            c.bounds = U.DisplayBounds(*b)
                            c.update_bounds()
                        self.expect(c, b, (d, [None] * n))
                        seen = [id(x) for x in c.contents_flat()]
                        if seen != [id(c)] + [id(k) for k in kids if k is not None]:
                            raise Violation("contents_flat() does not list the container and its children")
        else:
            _, d0, shape, first = ev
            # two containers as children of a container, each with shape[i] leaves; built inner first or outer first
            b = (0, 10, 101, 83)
            spec = (d0, [(1 - d0, [None] * k) if k >= 0 else None for k in shape])
            root = S(direction=D[d0], bounds=U.DisplayBounds(*b))
            for k in shape:
                if k < 0:
                    root.add(self.leaf())
                    continue
                c = S(direction=D[1 - d0])
                if first == "outer":
                    root.add(c)
                for _ in range(k):
                    c.add(self.leaf())
                if first == "inner":
                    root.add(c)
            root.update_bounds()
            self.expect(root, b, spec)
            deep = S(direction=D[1 - d0], bounds=U.DisplayBounds(5, 5, 200, 100))
            deep.add(self.leaf())
            deep.add(root)
            self.expect(deep, (5, 5, 200, 100), (1 - d0, [None, spec]))
        self.last = ev


def tasks(tier):
    th = tier != "quick"
    W, H = (11, 8) if th else (7, 5)
    areas = [[("area", x, y, W, H)] for x, y in ((0, 0), (3, -2), (10, 7))]
    areas += [[("seq", w, h, 4 if th else 3)] for w in range(W - 2) for h in range(H - 1) if not th or w * h <= 30]
    sizes = list(range(65 if th else 41)) + [240]
    flat = [[("flat", d, s, 9 if th else 7)] for d in (0, 1) for s in sizes]
    nest = [[("nest", d, sh, f)] for d in (0, 1) for k in (1, 2, 3) for sh in product((-1, 0, 1, 2, 3), repeat=k) for f in ("inner", "outer")]
    r = [(enumerate_cases, ("area", Area, {}, areas[i::8]), {}) for i in range(8)]
    return r + [(enumerate_cases, ("split", Split, {}, (flat + nest)[i::8]), {}) for i in range(8)]
