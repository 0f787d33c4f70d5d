"""C20: message switches: rotating, custom, keyboard, Boomerang; fixed texts."""
from mc import env, rig
from mc.explore import Sys, Violation, bfs

BOUNDS = {"quick": "rotating messages with 1-3 entries per list (and lists of different length), several LED colour lists, custom and SysEx messages, release "
                   "messages, keyboards, all Boomerang functions, fixed texts, hold switches; pages; presses, releases and updates in every order, depth 11",
          "thorough": "same, depth 14"}
ASSUMPTIONS = ["pages are not changed while a message switch is held (its release is not delivered then)"]

# Boomerang III Phrase Sampler, MIDI implementation (program changes, channel 16): two equivalent numbers per function
BOOM = {"PLAY_STOP_ALL": (17, 25), "SYNC_SERIAL": (43, 65), "MUTE_THRU": (3, 8), "PANIC": (11, 40), "ERASE": (16, 61), "ERASE_ALL": (28, 35),
        "STACK": (15, 23), "COPY": (1, 4), "FADE": (21, 32), "OCTAVE": (2, 49), "ONCE": (10, 18), "REVERSE": (47, 56)}
A, B, C = (200, 10, 0), (0, 200, 30), (50, 60, 200)


def scale(c, f):
    return tuple(x * f for x in c)


class Msg(Sys):
    """cfg: sw: [(kind, kwargs)], hold: bool, page: bool"""

    def __init__(self, cfg):
        self.cfg = cfg
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        page = None
        if cfg.get("page"):
            page = env.mod("clients.local.actions.pager").PagerAction(pages=[{"id": 1}, {"id": 2}])
        self.labels, inputs, self.acts = [], [], []
        for i, (kind, kw) in enumerate(cfg["sw"]):
            l = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 20 * i, 100, 20), layout={"font": "f", "backColor": (9, 9, 9)})
            root.add(l)
            self.labels.append(l)
            k = dict(kw, display=l)
            if page:
                k.update(enable_callback=page.enable_callback, id=1)
            if kind == "rot":
                a = env.mod("clients.local.actions.rotate").ROTATING_MESSAGES(**k)
            elif kind == "custom":
                a = env.mod("clients.local.actions.custom").CUSTOM_MESSAGE(**k)
            elif kind == "hid":
                a = env.mod("clients.local.actions.hid").HID_KEYBOARD(**k)
            elif kind == "text":
                a = env.mod("clients.local.actions.fixed_text").DISPLAY_FIXED_TEXT(**k)
            else:
                a = getattr(env.mod("clients.boomerang.actions.boomerang"), "BOOMERANG_" + kind)(**k)
            d = {"actions": [a]}
            if cfg.get("hold"):
                d["actionsHold"] = [env.mod("clients.local.actions.custom").CUSTOM_MESSAGE(message=(0xb0, 99, 1), use_leds=False)]
            inputs.append((rig.Switch(), d))
        if page:
            inputs.append((rig.Switch(), {"actions": [page]}))
        env.HW.keyboard_fail = OSError() if cfg.get("nohost") else None
        self.app = rig.App(inputs, root=root, config=cfg.get("config", {}))
        self.n = len(cfg["sw"])
        self.pos = [0] * self.n
        self.en = True
        self.down = [None] * self.n
        self.app.tick(201)
        self.app.sent()
        self.nkb = 0
        self.last = None
        self.check(("start",))

    def roots(self):
        return (self.app, self.labels, self.pos, self.en, self.down)

    def events(self):
        ev = []
        for i in range(self.n):
            ev.append(("rel" if self.app.hw[i].pushed else "push", i))
        if self.cfg.get("page") and not any(h.pushed for h in self.app.hw):
            ev.append(("page",))
        if self.cfg.get("hold"):
            # time matters while held, see C02
            return ev + [("long",)] if any(self.down) else ev
        return ev + [("upd",)]

    def pick(self, i, name, default=None):
        v = self.cfg["sw"][i][1].get(name, default)
        return v[self.pos[i] % len(v)] if v else None

    def expected(self, i, what):
        """Bytes sent by press or release."""
        kind, kw = self.cfg["sw"][i]
        if kind == "rot":
            r = self.pick(i, "messages" if what == "push" else "messages_release")
        elif kind == "custom":
            r = kw.get("message" if what == "push" else "message_release")
        elif kind in BOOM:
            r = (0xcf, BOOM[kind][self.pos[i] % 2]) if what == "push" else None
        else:
            r = None
        return bytes(r or ())

    def keys(self, i):
        kind, kw = self.cfg["sw"][i]
        if kind != "hid" or self.cfg.get("nohost"):
            return []
        k = kw["keycodes"]
        return [(x,) for x in (k if isinstance(k, (list, tuple)) else [k])]

    def step(self, ev):
        exp, keys = b"", []
        k = ev[0]
        hold = self.cfg.get("hold")
        if k == "push":
            i = ev[1]
            self.app.hw[i].pushed = True
            self.down[i] = 1 if self.en else 0
            if self.en and not hold:
                exp, keys = self.expected(i, "push"), self.keys(i)
        elif k == "rel":
            i = ev[1]
            self.app.hw[i].pushed = False
            if self.en and self.down[i]:
                exp = self.expected(i, "rel")
                if hold:
                    exp = self.expected(i, "push") + exp
                    keys = self.keys(i)
                self.pos[i] += 1
            self.down[i] = None
        elif k == "page":
            self.en = not self.en
            self.app.hw[self.n].pushed = True
        if k == "long":
            self.app.tick(601)
            for i in range(self.n):
                if self.down[i]:
                    exp += bytes((0xb0, 99, 1))
                    self.down[i] = 0
        else:
            self.app.tick(201 if k == "upd" else 0)
        if k == "page":
            self.app.hw[self.n].pushed = False
            self.app.tick(0)
        got = bytes(self.app.port.out)
        self.app.port.out = bytearray()
        if got != exp:
            raise Violation("%r: sent %s, expected %s" % (ev, got.hex(" "), exp.hex(" ")))
        gk = [s for kb in env.HW.keyboards[self.nkb:] for s in kb.sent]
        self.nkb = len(env.HW.keyboards)
        if gk != keys:
            raise Violation("%r: keys %r sent, expected %r" % (ev, gk, keys))
        self.check(ev)
        self.last = (ev, got.hex(), gk)

    def look(self, i):
        """(text, label colour, list of LED colours) or None for not determined."""
        kind, kw = self.cfg["sw"][i]
        lb = kw.get("led_brightness", 0.15)
        if kind == "rot":
            col = self.pick(i, "led_colors")
            dc = self.pick(i, "display_colors") or col
            if kw.get("num_leds", 1) > 1:
                cols = [c[self.pos[i] % len(c)] for c in kw["led_colors"]]
                leds = [cols[0]] * (4 - len(cols)) + cols[1:]
                dc = self.pick(i, "display_colors") or cols[0]
            else:
                leds = [col] * 3 if col else None
            return self.pick(i, "texts") or "", dc or (9, 9, 9), leds and [scale(c, lb) for c in leds]
        if kind in ("custom", "hid"):
            col = kw.get("color", (255, 255, 255) if kind == "custom" else (100, 100, 255))
            return kw.get("text", ""), col, [scale(col, lb)] * 3
        if kind == "text":
            return kw["text"], kw.get("back_color") or (9, 9, 9), None
        col = kw["color"]
        n = kw.get("num_leds", 1)
        hi, lo = kw.get("led_brightness_1", 0.3), kw.get("led_brightness_2", 0.02)
        if n == 1:
            leds = [scale(col, (hi, lo)[self.pos[i] % 2])] * 3
        else:
            # one bright LED moving over the others
            cols = [scale(col, hi if j == n - 1 - self.pos[i] % n else lo) for j in range(n)]
            cols = cols[::1]
            leds = [cols[0]] * (4 - n) + cols[1:]
            return kw.get("text"), col, ("any", leds)
        return kw.get("text"), col, leds

    def check(self, ev):
        if not self.en:
            return
        for i in range(self.n):
            text, back, leds = self.look(i)
            l = self.labels[i]
            if text is not None and l.text != text:
                raise Violation("after %r: label %d shows %r, expected %r" % (ev, i, l.text, text))
            if l.back_color != back:
                raise Violation("after %r: label %d has colour %r, expected %r" % (ev, i, l.back_color, back))
            if self.cfg["sw"][i][0] == "text" and self.cfg["sw"][i][1].get("text_color"):
                if l.text_color != self.cfg["sw"][i][1]["text_color"]:
                    raise Violation("after %r: label %d has text colour %r" % (ev, i, l.text_color))
            if leds:
                got = list(self.app.led(i))
                if leds[0] == "any":
                    # any order, but exactly the right number of bright ones
                    leds, got = sorted(leds[1]), sorted(got)
                for g, e in zip(got, leds):
                    if any(abs(a - b) > 1 for a, b in zip(g, e)):
                        raise Violation("after %r: LEDs of switch %d are %r, expected %r" % (ev, i, got, leds))

    def outcome(self):
        return self.last


def tasks(tier):
    th = tier == "thorough"
    d = 14 if th else 11
    r = []

    def add(*sw, depth=0, **cfg):
        r.append((bfs, ("messages", Msg, dict(cfg, sw=list(sw)), d + depth), {"time_limit": 400 if th else 60}))
    m = [[176, 80, 0], (176, 89, 1), [0xc3, 7]]
    sx = [0xf0, 0, 0x20, 0x33, 1, 2, 0x7f, 0xf7]
    rots = []
    for n in (1, 2, 3):
        for rel in (None, [[0x90, 1, 2]], [[0x90, 1, 2], [0x80, 3, 4]]):
            rots.append(("rot", dict(messages=m[:n], messages_release=rel, led_colors=[A, B, C][:n], texts=["a", "b"])))
    rots += [("rot", dict(messages=[sx, m[0]], led_colors=(A, B, C), display_colors=(C, A), texts=("x", "y", "z"), led_brightness=1)),
             ("rot", dict(messages=None, messages_release=m, led_colors=[A], texts=["x"])),
             ("rot", dict(messages=m[:2])),
             ("rot", dict(messages=m, led_colors=[[A, B], [B, C]], num_leds=2, texts=["x", "y"], display_colors=[C])),
             ("rot", dict(messages=m, messages_release=[sx], led_colors=[[A, B, C], [B, C, A], [C, A, B]], num_leds=3, texts=["x", "y"], display_colors=[C, B]))]
    for x in rots:
        add(x)
        add(x, page=1)
        add(x, hold=1)
    cust = [("custom", dict(message=m[0], text="foo")), ("custom", dict(message=sx, message_release=(0xb1, 2, 3), color=A, led_brightness=0.5, text="t")),
            ("hid", dict(keycodes=80, text="k")), ("hid", dict(keycodes=(4, 5), color=B, text="k2")), ("hid", dict(keycodes=[7], led_brightness=1))]
    for x in cust:
        for o in ({}, {"page": 1}, {"hold": 1}, {"nohost": 1}):
            add(x, **o)
    add(rots[4], cust[1], depth=-1)
    add(rots[4], rots[8], depth=-1)
    add(("text", dict(text="foo")), ("text", dict(text="bar", back_color=A)), page=1)
    add(("text", dict(text="bar", back_color=A, text_color=(1, 2, 3))), ("text", dict(text="x", text_color=(3, 4, 5))), page=1)
    for f in BOOM:
        for n in (1, 2, 3):
            add((f, dict(color=A, num_leds=n, text="B" + f)), **({"page": 1} if n == 1 else {}))
    add(("FADE", dict(color=B, text="f", led_brightness_1=0.7, led_brightness_2=0.1)), hold=1)
    return r
