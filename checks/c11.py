"""C11: distribution of the LEDs of a switch among its actions."""
from itertools import product
from mc import env, rig
from mc.explore import Sys, Violation, enumerate_cases

BOUNDS = {"quick": "0..5 pixels x 0..5 actions x every LED usage pattern x every enable pattern x single/multi colours; pixel numbers "
                   "contiguous, permuted and with gaps; a neighbour switch must stay untouched",
          "thorough": "as quick with 0..6 pixels and 0..6 actions"}
ASSUMPTIONS = []
BR = (0.1, 0.25, 0.5, 0.75, 1, 0.02)


class Seg(Sys):
    def __init__(self, cfg):
        self.cfg = cfg
        self.work = 0
        self.last = None

    def outcome(self):
        return self.last

    def step(self, ev):
        npx, n, uses, layout = ev
        A = env.mod("controller.actions")
        en = {}

        class En:
            def __init__(s, k):
                s.k = k

            def init(s, appl):
                pass

            def enabled(s, a):
                return en[s.k]
        for k in range(n):
            en[k] = True
        acts = [A.Action({"id": k, "useSwitchLeds": bool(uses[k]), "enableCallback": En(k)}) for k in range(n)]
        other = A.Action({"id": "o", "useSwitchLeds": True})
        hold = n >= 3 and layout == "hold"
        if layout == "gap":
            px = tuple(3 + 2 * i for i in range(npx))
        elif layout == "perm":
            px = tuple(3 + (i * 2 + 1) % max(npx, 1) if npx % 2 else 3 + npx - 1 - i for i in range(npx))
        else:
            px = tuple(range(3, 3 + npx))
        d = {"actions": acts[:-1], "actionsHold": acts[-1:]} if hold else {"actions": acts}
        app = rig.App([(rig.Switch(), {"actions": [other]}), (rig.Switch(), d)], pixels=[(0, 1, 2), px])
        app.update()
        other.switch_color = (10, 20, 30)
        other.switch_brightness = 1
        for bits in product((True, False), repeat=n):
            for k in range(n):
                en[k] = bits[k]
            order = [k for k in range(n) if uses[k] and bits[k]]
            segs = self.model(npx, len(order))
            self.work += 1
            # every action draws itself, in both orders
            for rev in (False, True):
                for k in (range(n - 1, -1, -1) if rev else range(n)):
                    acts[k].switch_color = (10 * k + 1, 200 - k, 77)
                    acts[k].switch_brightness = BR[k]
                exp = {}
                for k, s in zip(order, segs):
                    for i in s:
                        exp[px[i]] = tuple(int(c * self.f32(BR[k])) for c in (10 * k + 1, 200 - k, 77))
                for p, e in exp.items():
                    g = app.leds.leds[p]
                    if any(abs(a - b) > 1 for a, b in zip(g, e)):
                        raise Violation("pixels %r, actions using LEDs %r, enabled %r: pixel %d shows %r, expected %r" % (px, uses, bits, p, g, e))
                for k in range(n):
                    b = acts[k].switch_brightness
                    has = k in order and segs[order.index(k)]
                    if (b is None) != (not has) or (has and abs(b - BR[k]) > 1e-6):
                        raise Violation("brightness of action %d read back as %r (%r, %r)" % (k, b, uses, bits))
            # one action draws alone: nothing outside of its segment changes
            for k in range(n):
                before = list(app.leds.leds)
                mine = set(px[i] for i in segs[order.index(k)]) if k in order else set()
                acts[k].switch_color = (250, 3, 250)
                acts[k].switch_brightness = 1
                for p in range(len(before)):
                    if p not in mine and app.leds.leds[p] != before[p]:
                        raise Violation("action %d (%r, enabled %r) changed pixel %d outside of its segment" % (k, uses, bits, p))
                    if p in mine and app.leds.leds[p] != (250, 3, 250):
                        raise Violation("action %d does not light pixel %d" % (k, p))
                # several colours at once
                m = len(mine)
                for cnt in (2, 3):
                    cols = tuple((c + 1, 5, c) for c in range(cnt))
                    acts[k].switch_color = cols
                    acts[k].switch_brightness = 1
                    for j, i in enumerate(segs[order.index(k)] if k in order else []):
                        e = cols[j] if m == cnt else cols[cnt // 2]
                        if app.leds.leds[px[i]] != e:
                            raise Violation("multi colour %d on %d pixels: pixel %d shows %r, expected %r" % (cnt, m, px[i], app.leds.leds[px[i]], e))
            if app.leds.leds[0:3] != [(10, 20, 30)] * 3:
                raise Violation("LEDs of another switch changed")
        self.last = (npx, n, tuple(len(s) for s in self.model(npx, sum(uses))))

    @staticmethod
    def f32(b):
        return b

    def model(self, npx, n):
        if n == 0 or npx == 0:
            return [[] for _ in range(n)]
        if n >= npx:
            return [[i] if i < npx else [] for i in range(n)] if n > 1 else [list(range(npx))]
        first = npx - (n - 1)
        return [list(range(first))] + [[first + i] for i in range(n - 1)]


def tasks(tier):
    top = 6 if tier == "thorough" else 5
    r = []
    for npx in range(top + 1):
        for layout in ("std", "perm", "gap", "hold"):
            cases = [((npx, n, u, layout),) for n in range(top + 1) for u in product((1, 0), repeat=n)]
            r.append((enumerate_cases, ("segments", Seg, {}, cases), {}))
    return r
