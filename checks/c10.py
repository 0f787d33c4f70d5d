"""C10: paging."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "rotating and direct pagers (1-4 pages, 1-2 pagers, proxies), switches with page bound, shared and permanent actions, "
                   "press/release/idle/update in every order, BFS to fixpoint",
          "thorough": "the same configurations and larger ones, BFS to fixpoint"}
ASSUMPTIONS = ["a LED or label which no enabled action drives on the selected page may keep its last content"]

COL = {"red": (200, 0, 0), "grn": (0, 200, 0), "blu": (0, 0, 200), "yel": (200, 200, 0)}
PCOL = [(255, 100, 0), (0, 255, 100), (100, 0, 255), (90, 90, 90)]


class Page(Sys):
    """cfg: pagers: [{"pages": n, "select": page index or None, "proxies": [page idx...], "hasattrs": bool}],
    switches: list of lists of (letter, pager index or None, page index)."""

    def __init__(self, cfg):
        self.cfg = cfg
        P = env.mod("clients.local.actions.pager").PagerAction
        CM = env.mod("clients.local.actions.custom").CUSTOM_MESSAGE
        El = env.mod("ui.elements")
        Ui = env.mod("ui.ui")
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.labels = {}

        def label(name):
            if name not in self.labels:
                l = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 10 * len(self.labels), 100, 10), layout={"font": "f", "backColor": (1, 1, 1)})
                self.labels[name] = l
                root.add(l)
            return self.labels[name]

        inputs = []
        self.pagers = []
        self.page = []
        # page IDs may be strings or numbers
        self.pid = (lambda k, i: cfg["ids"][i]) if cfg.get("ids") else (lambda k, i: i) if cfg.get("intids") else (lambda k, i: "%d-%d" % (k, i))
        self.kind = []            # per switch: ("pager", k, target or None) or ("acts", [...])
        for k, p in enumerate(cfg["pagers"]):
            pages = []
            for i in range(p["pages"]):
                d = {"id": self.pid(k, i)}
                if p.get("attrs", True):
                    d["color"] = PCOL[i]
                    d["text"] = "P%d" % i
                pages.append(d)
            a = P(pages=pages, select_page=None if p["select"] is None else self.pid(k, p["select"]), display=label("pager%d" % k),
                  use_leds=p.get("leds", True))
            self.pagers.append(a)
            self.page.append(0)
        order = []
        for k, p in enumerate(cfg["pagers"]):
            order.append((("pager", k, p["select"]), self.pagers[k]))
            for x in p.get("proxies", []):
                order.append((("proxy", k, x), self.pagers[k].proxy(self.pid(k, x))))
        acts = []
        for s, sw in enumerate(cfg["switches"]):
            lst, desc = [], []
            for (name, k, pg) in sw:
                n = ord(name) - 64
                kw = {}
                if k is not None:
                    kw = {"id": self.pid(k, pg), "enable_callback": self.pagers[k].enable_callback}
                color = list(COL.values())[n % 4]
                lst.append(CM([0xB0, n, s], [0xB0, n, 64 + s], text=name, color=color, led_brightness=0.5, display=label("l%d" % s), **kw))
                desc.append((name, n, s, k, pg, color))
            acts.append((("acts", desc), lst))
        # pagers in front or behind the switches they control
        seq = order + [(d, l) for d, l in acts] if cfg.get("first", True) else [(d, l) for d, l in acts] + order
        for d, a in seq:
            self.kind.append(d)
            inputs.append((rig.Switch(), {"actions": a if isinstance(a, list) else [a]}))
        self.app = rig.App(inputs, root=root)
        self.app.update()
        self.n = len(inputs)
        self.down = [False] * self.n
        self.last = None
        self.check_display("start")

    def roots(self):
        return (self.app, self.page, self.down, self.labels)

    def events(self):
        return [("sw", i, h) for i in range(self.n) for h in (0, 201)] + [("idle", 201)]

    def enabled(self, d):
        return d[3] is None or self.pid(d[3], self.page[d[3]]) == self.pid(d[3], d[4])

    def step(self, ev):
        app = self.app
        exp = []
        if ev[0] == "idle":
            app.tick(ev[1])
            dt = ev[1]
        else:
            _, i, dt = ev
            self.down[i] = not self.down[i]
            app.hw[i].pushed = self.down[i]
            k = self.kind[i]
            if k[0] == "acts":
                for d in k[1]:
                    if self.enabled(d):
                        exp.append(("cc", d[1], d[2] if self.down[i] else 64 + d[2]))
            elif self.down[i]:
                if k[2] is None:
                    self.page[k[1]] = (self.page[k[1]] + 1) % self.cfg["pagers"][k[1]]["pages"]
                else:
                    self.page[k[1]] = k[2]
            app.tick(dt)
        got = app.sent()
        if got != exp:
            raise Violation("after %r on pages %r: sent %r, expected %r" % (ev, self.page, got, exp))
        for k, p in enumerate(self.pagers):
            if p.current_page_id != self.pid(k, self.page[k]):
                raise Violation("pager %d shows page %r, expected %d" % (k, p.current_page_id, self.page[k]))
        # displays are brought up to date with the next update at the latest
        self.dirty = True
        if dt > 200:
            self.dirty = False
            self.check_display(ev)
        self.last = (tuple(self.page), got)

    def check_display(self, ev):
        app = self.app
        for i, k in enumerate(self.kind):
            if k[0] == "acts":
                en = [d for d in k[1] if self.enabled(d)]
                segs = self.segments(len(en))
                for d, s in zip(en, segs):
                    for px in s:
                        e = tuple(int(c * 0.5) for c in d[5])
                        if app.led(i)[px] != e:
                            raise Violation("after %r on pages %r: LED %d of switch %d is %r, expected %r" % (ev, self.page, px, i, app.led(i)[px], e))
                if len(en) == 1:
                    l = self.labels["l%d" % en[0][2]]
                    if l.text != en[0][0] or l.back_color != en[0][5]:
                        raise Violation("after %r on pages %r: label shows %r/%r, expected %r/%r" % (ev, self.page, l.text, l.back_color, en[0][0], en[0][5]))
            else:
                p = self.cfg["pagers"][k[1]]
                cur = self.page[k[1]]
                attrs = p.get("attrs", True)
                shown = cur if k[2] is None else k[2]
                col = PCOL[shown] if attrs else (255, 255, 255)
                br = 0.15 if k[2] is None else (0.3 if k[2] == cur else 0.02)
                e = tuple(int(c * br) for c in col)
                if k[0] == "proxy" or p.get("leds", True):
                    if any(x != e for x in app.led(i)):
                        raise Violation("after %r on pages %r: LEDs of pager switch %d are %r, expected %r" % (ev, self.page, i, app.led(i), e))
                if k[0] == "pager":
                    l = self.labels["pager%d" % k[1]]
                    et, ec = ("P%d" % cur, PCOL[cur]) if attrs else ("", (255, 255, 255))
                    if l.text != et or l.back_color != ec:
                        raise Violation("after %r: pager label shows %r/%r, expected %r/%r" % (ev, l.text, l.back_color, et, ec))

    def segments(self, n):
        if n == 0:
            return []
        if n == 1:
            return [[0, 1, 2]]
        if n == 2:
            return [[0, 1], [2]]
        return [[0], [1], [2]]

    def outcome(self):
        return self.last


def tasks(tier):
    rot = lambda n, **k: dict(pages=n, select=None, **k)
    C = [
        {"pagers": [rot(3)], "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 2)], [("D", None, 0)]]},
        {"pagers": [rot(3)], "first": False, "switches": [[("A", 0, 0), ("B", 0, 1), ("C", None, 0)], [("D", 0, 2), ("E", 0, 2)]]},
        {"pagers": [rot(1)], "switches": [[("A", 0, 0)]]},
        {"pagers": [rot(2, attrs=False)], "switches": [[("A", 0, 0), ("B", 0, 1)]]},
        {"pagers": [dict(pages=3, select=0, proxies=[1, 2])], "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 2)]]},
        {"pagers": [dict(pages=3, select=2, proxies=[0, 1])], "first": False, "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 2), ("D", None, 0)]]},
        {"intids": True, "pagers": [dict(pages=3, select=0, proxies=[1, 2])], "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 2)]]},
        {"intids": True, "pagers": [dict(pages=3, select=1, proxies=[0, 2])], "switches": [[("A", 0, 0), ("B", 0, 1), ("D", None, 0)]]},
        {"intids": True, "pagers": [rot(3)], "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 2)]]},
        # the same actions on several pages
        {"ids": [1, 2, 1, 3], "pagers": [rot(4)], "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 3)]]},
        {"pagers": [rot(3, proxies=[1])], "switches": [[("A", 0, 0), ("B", 0, 1), ("C", 0, 2)]]},
        {"pagers": [rot(2), rot(2)], "switches": [[("A", 0, 0), ("B", 0, 1)], [("C", 1, 0), ("D", 1, 1), ("E", None, 0)]]},
        {"pagers": [rot(2), dict(pages=2, select=1, proxies=[0])], "first": False, "switches": [[("A", 0, 0), ("B", 1, 1)], [("C", 1, 0), ("D", 1, 1)]]},
        {"pagers": [rot(2, leds=False)], "switches": [[("A", 0, 0), ("B", 0, 0), ("C", 0, 1), ("D", 0, 1), ("E", 0, 1)]]},
        {"pagers": [rot(4)], "switches": [[("A", 0, 3), ("B", 0, 1)], [("C", 0, 0), ("D", 0, 2), ("E", 0, 3)]]},
    ]
    if tier == "thorough":
        C += [{"pagers": [rot(4), rot(3)], "switches": [[("A", 0, 0), ("B", 0, 3), ("F", 1, 1)], [("C", 1, 0), ("D", 1, 2), ("E", None, 0)]]},
              {"pagers": [dict(pages=4, select=0, proxies=[1, 2, 3])], "switches": [[("A", 0, 0), ("B", 0, 1)], [("C", 0, 2), ("D", 0, 3)]]}]
    return [(bfs, ("paging", Page, c, 40), {"time_limit": 100 if tier == "quick" else 400}) for c in C]
