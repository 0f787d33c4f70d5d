"""Rig/bank navigation against a simulated Kemper device (used by C13 and C14)."""
from mc import env, rig
from mc.explore import Sys, Violation

NB, NR = 125, 5
WHITE = (255, 255, 255)
CUR, TGT = 10, 20


class Device:
    """The device as its MIDI documentation describes it."""

    def __init__(self, rig_id=None):
        self.rig = rig_id        # None: device is off / not connected
        self.pre = None
        self.out = []
        self.loads = []

    def goto(self, r):
        self.rig = r
        self.loads.append(r)
        self.announce()

    def announce(self):
        self.out += [rig.cc(32, self.rig >> 7), rig.pc(self.rig & 127)]

    def receive(self, m):
        if m[0] != "cc":
            return False
        c, v = m[1], m[2]
        if c not in (47, 48, 49) + tuple(range(50, 55)):
            return False
        if self.rig is None:
            return True
        if c == 47:
            self.pre = v
        elif c in (48, 49):
            b = (self.rig // NR + (1 if c == 48 else -1)) % NB
            self.goto(b * NR + self.rig % NR)
        elif v:
            b = self.rig // NR if self.pre is None else self.pre
            self.pre = None
            self.goto(b * NR + c - 50)
        return True


def tcb(action, bank, rig):
    return "t%d/%d" % (bank, rig)


def ccb(action, bank, rig):
    return (bank, rig * 10, 77)


MODS = {"RIG_SELECT": "rig_select", "RIG_UP": "rig_up_down", "RIG_DOWN": "rig_up_down", "BANK_UP": "bank_up_down",
        "BANK_DOWN": "bank_up_down", "BANK_SELECT": "bank_select"}


class Nav(Sys):
    """cfg: acts: [(factory name, kwargs)], start: rig ID or None, dev: rig IDs the user may select at the device,
    name: kwargs of the rig name label or None, conf: global config"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.BC = env.mod("clients.kemper").BANK_COLORS
        El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
        lay = {"font": "f", "backColor": (9, 9, 9)}
        root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
        self.labels, self.kw, self.kind = [], [], []
        inputs = []
        for i, (name, kw) in enumerate(cfg["acts"]):
            kw = dict(kw)
            for k, f in (("text_callback", tcb), ("color_callback", ccb)):
                if kw.get(k):
                    kw[k] = f
            l = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 20 * i, 100, 20), layout=lay)
            root.add(l)
            self.labels.append(l)
            a = getattr(env.mod("clients.kemper.actions." + MODS[name]), name)(display=l, **kw)
            self.kw.append(kw)
            self.kind.append(name)
            inputs.append((rig.Switch(), {"actions": [a]}))
        self.enc = None
        if cfg.get("encoder") is not None:
            E = env.mod("clients.kemper.actions.bank_select_encoder")
            self.enc = rig.Enc(cfg.get("pos", 0))
            inputs.append((self.enc, {"actions": [E.ENCODER_BANK_SELECT(**cfg["encoder"])]}))
        self.nl = None
        if cfg.get("name") is not None:
            K = env.mod("clients.kemper")
            self.nl = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 200, 200, 20), layout=lay, callback=K.KemperRigNameCallback(**cfg["name"]))
            root.add(self.nl)
        self.n = len(cfg["acts"])
        self.app = rig.App(inputs, root=root, config=cfg.get("conf", {}))
        self.conf = cfg.get("conf", {})
        self.d = Device(cfg["start"])
        # model of what PySwitch knows
        self.rig = None
        self.pre = None
        self.who = None
        self.encbank = None
        self.dead = False
        self.off = [{"rig": 1, "bank": 1} for _ in range(self.n)]       # remembered for "auto"
        self.pending = [None] * self.n
        self.down = [False] * self.n
        self.last = None
        if self.d.rig is not None:
            self.d.announce()
        self.settle()
        self.check(("start",))

    def roots(self):
        return (self.app, self.d.rig, self.d.pre, self.rig, self.pre, self.who, self.encbank, self.off, self.pending, self.down, self.labels, self.nl)

    def events(self):
        if self.dead:
            return []
        ev = [("sw", i) for i in range(self.n)]
        # a bank preselected at the device which PySwitch does not show (BANK_SELECT of the current bank does
        # that on purpose) is only neutral as long as the bank does not change at the device
        hidden = self.pre is None and self.d.pre is not None
        ev += [("dev", r) for r in self.cfg.get("dev", ()) if r != self.d.rig and not (hidden and r // NR != self.d.pre)]
        if self.enc is not None:
            ev += [("enc", x) for x in self.cfg.get("turns", (1, -1))]
        if self.pre is not None:
            ev += [("blink",)]
        return ev

    # ------------------------------------------------------------- communication

    def exchange(self):
        """Let the device process everything. Returns the messages it got from the application."""
        got = []
        for _ in range(6):
            s = self.app.sent()
            if not s and not self.d.out:
                break
            for m in s:
                if self.d.receive(m):
                    got.append(m)
                elif self.d.rig is None and m in (rig.k_req_string(0, 1), rig.k_req_string(0, 3)):
                    pass
                elif m == rig.k_req_string(0, 1):
                    self.d.out.append(rig.k_string(0, 1, self.rname()))
                elif m == rig.k_req_string(0, 3):
                    self.d.out.append(rig.k_string(0, 3, "Date %d" % self.d.rig))
                elif m == rig.k_req_single(0, 11):
                    pass
                else:
                    raise Violation("unexpected message %r" % (m,))
            out, self.d.out = self.d.out, []
            for o in out:
                if o[0] == 0xC0:
                    self.known(self.d.rig)
                self.app.recv(o)
        return got

    def rname(self):
        return "Name %d" % self.d.rig

    def known(self, r):
        self.rig = r
        self.encbank = None
        b, g = divmod(r, NR)
        for i, kw in enumerate(self.kw):
            if self.kind[i] != "RIG_SELECT":
                continue
            if kw.get("rig") is not None and g != kw["rig"] - 1 and (g + 1) not in (kw.get("auto_exclude_rigs") or ()):
                self.off[i]["rig"] = g + 1
            if kw.get("bank") is not None and b != kw["bank"] - 1:
                self.off[i]["bank"] = b + 1

    def settle(self):
        m = self.exchange()
        for _ in range(2):
            self.app.tick(201)
            m += self.exchange()
        return m

    # ------------------------------------------------------------- reference

    def offrig(self, i):
        v = self.kw[i].get("rig_off")
        return self.off[i]["rig"] if v == "auto" else v

    def offbank(self, i):
        kw = self.kw[i]
        v = kw.get("bank_off")
        if v == "auto":
            return self.off[i]["bank"] if self.kind[i] == "RIG_SELECT" and kw.get("bank") is not None else 1
        return None if kw.get("preselect") else v

    def is_current(self, i):
        """Is the rig/bank selected which the action stands for?"""
        kw = self.kw[i]
        if self.rig is None:
            return False
        b, g = divmod(self.rig, NR)
        if self.kind[i] == "BANK_SELECT":
            return b == kw["bank"] - 1
        if kw.get("rig") is None:
            return False
        return (kw.get("bank") is None or kw["bank"] - 1 == b) and g == kw["rig"] - 1

    def next_bank(self, i):
        kw = self.kw[i]
        b = self.pre if self.pre is not None else self.rig // NR
        return (b + (1 if self.kind[i] == "BANK_UP" else -1)) % ((kw.get("max_bank") or NB) if kw.get("preselect") else NB)

    def next_rig(self, i):
        up = self.kind[i] == "RIG_UP"
        g = self.rig % NR
        if self.kw[i].get("keep_bank", True):
            return self.rig if g == (NR - 1 if up else 0) else self.rig + (1 if up else -1)
        return (self.rig + (1 if up else -1)) % (NB * NR)

    def press(self, i):
        """Expected (rig loaded at the device or None, preselected bank, release message pending)."""
        k, kw = self.kind[i], self.kw[i]
        if self.d.rig is None:
            return "any", None, None
        b, g = divmod(self.rig, NR)
        if k == "RIG_SELECT":
            cur = self.is_current(i)
            tb = b
            if self.pre is not None:
                tb = self.pre
            elif kw.get("bank") is not None:
                tb = kw["bank"] - 1
                if cur and self.offbank(i) is not None:
                    tb = self.offbank(i) - 1
            tg = g if kw.get("rig") is None else kw["rig"] - 1
            if cur and self.pre is None and self.offrig(i) is not None:
                tg = self.offrig(i) - 1
            return tb * NR + tg, None, tg
        if k in ("RIG_UP", "RIG_DOWN"):
            t = self.next_rig(i)
            if t == self.rig:
                return None, self.pre, None
            if self.pre is not None and t // NR == b:
                t = self.pre * NR + t % NR       # a rig selection completes a bank preselection
            return t, None, t % NR
        if k in ("BANK_UP", "BANK_DOWN"):
            t = self.next_bank(i)
            if kw.get("preselect"):
                return None, t, None
            return t * NR + g, self.pre, None
        if k == "BANK_SELECT":
            t = kw["bank"] - 1
            if kw.get("preselect"):
                if self.pre is None and b == t:
                    return None, None, None
                return None, t, None
            if self.offbank(i) is not None and b == t:
                t = self.offbank(i) - 1
            return t * NR + g, None, g

    # ------------------------------------------------------------- steps

    def step(self, ev):
        app = self.app
        if ev[0] == "sw":
            i = ev[1]
            self.d.loads = []
            if not self.down[i]:
                self.down[i] = True
                target, pre, pend = self.press(i)
                prebefore = self.pre
                app.hw[i].pushed = True
                app.tick(0)
                self.pre = pre
                if pre is not None and self.kw[i].get("preselect"):
                    self.who = i
                elif pre is None:
                    self.who = None
                if target != "any":
                    self.pending[i] = pend
                got = self.settle()
                if target == "any":
                    # no device: only well formed messages, remember which rig button is down
                    dn = [m for m in got if 50 <= m[1] <= 54]
                    self.pending[i] = dn[-1][1] - 50 if dn else None
                    self.d.loads = []
                else:
                    exp = [] if target is None else [target]
                    if self.d.loads != exp:
                        raise Violation("press of %s: device loaded rigs %r, expected %r (messages %r)" % (self.kind[i], self.d.loads, exp, got))
                    if self.d.pre != self.pre and not (self.pre is None and self.d.pre == self.rig // NR):
                        raise Violation("press of %s: bank %r stays preselected at the device, expected %r (messages %r)" % (
                            self.kind[i], self.d.pre, self.pre, got))
                    dn = [m for m in got if 50 <= m[1] <= 54]
                    if [m[1] - 50 for m in dn] != ([] if pend is None else [pend]):
                        raise Violation("press of %s: rig selections %r, expected rig %r" % (self.kind[i], dn, pend))
            else:
                self.down[i] = False
                app.hw[i].pushed = False
                app.tick(0)
                got = self.settle()
                exp = [] if self.pending[i] is None else [("cc", 50 + self.pending[i], 0)]
                self.pending[i] = None
                if got != exp:
                    raise Violation("release of %s sent %r, expected %r" % (self.kind[i], got, exp))
        elif ev[0] == "dev":
            was_off = self.d.rig is None
            self.d.goto(ev[1])
            m = self.settle()
            for _ in range(5 if was_off else 0):      # unanswered requests expire first
                app.tick(1001)
                m += self.settle()
            if m:
                raise Violation("messages sent after a rig change at the device")
        elif ev[0] == "enc":
            self.d.loads = []
            st = self.cfg["encoder"].get("step_width", 0.5)
            old = int(self.enc.position * st)
            self.enc.position += ev[1]
            delta = int(self.enc.position * st) - old
            base = self.encbank if self.encbank is not None else (None if self.rig is None else self.rig // NR)
            exp = []
            if delta:
                v = min(NB - 1, max(0, (base or 0) + delta))
                if v != base:
                    exp = [("cc", 47, v)]
                    if self.rig is not None:
                        self.encbank = v
                        self.pre = v
                        self.who = "enc"
            app.tick(0)
            got = self.settle()
            if got != exp:
                raise Violation("encoder turned by %d: messages %r, expected %r" % (ev[1], got, exp))
            if self.rig is None and exp:
                self.dead = True         # the device never got the preselection
                return
        elif ev[0] == "blink":
            seen = {i: set() for i in range(self.n)}
            m = []
            for dt in (201, 201, 201, 201, 201):
                app.tick(dt)
                m += self.exchange()
                for i in seen:
                    seen[i].add(app.led(i)[0])
            if m:
                raise Violation("messages sent while waiting for a selection")
            for i in seen:
                if self.blinks(i) and len(seen[i]) < 2:
                    raise Violation("preselection is not shown by blinking of switch %d: %r" % (i, seen[i]))
        self.check(ev)
        self.last = (ev, self.rig, self.pre, [(l.text, l.back_color) for l in self.labels])

    # ------------------------------------------------------------- displays

    def blinks(self, i):
        k, kw = self.kind[i], self.kw[i]
        if self.pre is None:
            return False
        if k == "RIG_SELECT":
            return True
        if k == "BANK_SELECT":
            return kw.get("preselect", False) and kw.get("display_mode", CUR) == TGT and self.pre == kw["bank"] - 1
        if k in ("BANK_UP", "BANK_DOWN"):
            return kw.get("preselect", False) and self.who == i
        return False

    def display(self, i):
        """Expected (texts, label colour, LED colour, LED brightnesses allowed)."""
        k, kw = self.kind[i], self.kw[i]
        c = self.conf
        bon, boff = c.get("ledBrightnessOn", 0.3), c.get("ledBrightnessOff", 0.02)
        don, doff = c.get("displayDimFactorOn", 1), c.get("displayDimFactorOff", 0.2)
        mode = kw.get("display_mode", TGT if k in ("RIG_UP", "RIG_DOWN") else CUR)
        dim = lambda col, f: tuple(int(x * f) for x in col)
        BC = lambda b: self.BC[b % len(self.BC)]
        if k in ("BANK_UP", "BANK_DOWN"):
            f = kw.get("dim_factor", "off")
            f = {"off": doff, "on": don}.get(f, f)
            lb = kw.get("led_brightness", "off")
            lb = {"off": (boff, bon), "on": (bon, boff)}.get(lb) or (lb, lb * 0.1)
            text = kw.get("text", "Bank up" if k == "BANK_UP" else "Bank dn")
            if self.rig is None:
                return text, dim(WHITE, f), WHITE, lb[:1]
            b, g = divmod(self.rig, NR)
            tb = self.next_bank(i)
            col = ccb(None, b, g) if kw.get("color_callback") else kw.get("color") or BC(b if mode == CUR else tb)
            if kw.get("text_callback"):
                text = tcb(None, b if mode == CUR else tb, g)
            return text, dim(col, f), col, lb if self.blinks(i) else lb[:1]
        if k in ("RIG_UP", "RIG_DOWN"):
            if self.rig is None:
                return "", (50, 50, 50), WHITE, (bon,)
            b, g = divmod(self.rig, NR)
            t = self.next_rig(i)
            col = kw.get("color") or (ccb(None, b, g) if kw.get("color_callback") else BC(b if mode == CUR else t // NR))
            return self.text(kw, *divmod(self.rig if mode == CUR else t, NR)), col, col, (bon,)
        if self.rig is None:
            return "", dim(WHITE, doff), WHITE, (boff,)
        b, g = divmod(self.rig, NR)
        cur = self.is_current(i)
        ob = self.offbank(i)
        if k == "BANK_SELECT":
            lit = (True, False) if self.blinks(i) else (cur,)
            if mode == CUR:
                col = kw.get("color") or (ccb(None, b, g) if kw.get("color_callback") else BC(b))
                return self.btext(kw, b, g), dim(col, doff), col, (boff,)
            tb = kw["bank"] - 1
            if cur and ob is not None:
                tb = ob - 1
            col = kw.get("color") or (ccb(None, b, g) if kw.get("color_callback") else BC(tb))
            return self.btext(kw, tb, g), [col if x else dim(col, doff) for x in lit], col, tuple(bon if x else boff for x in lit)
        # RIG_SELECT
        org, orig = self.offrig(i), kw.get("rig")
        if mode == CUR:
            tb, tg = b, g
        elif self.pre is not None:
            tb, tg = self.pre, g if orig is None else orig - 1
        else:
            tb = b if kw.get("bank") is None else kw["bank"] - 1
            tg = g if orig is None else orig - 1
            if cur and org is not None:
                tg = org - 1
            if cur and kw.get("bank") is not None and ob is not None:
                tb = ob - 1
        if kw.get("color"):
            col = kw["color"]
        elif kw.get("color_callback"):
            col = ccb(None, b, g)
        else:
            col = BC(b if mode == CUR else tb)
        full = mode == TGT and self.pre is None and cur
        br = (bon, boff) if self.blinks(i) else (bon if mode == TGT and cur else boff,)
        return self.text(kw, tb, tg), col if full else dim(col, doff), col, br

    def text(self, kw, b, g):
        if kw.get("text_callback"):
            return tcb(None, b, g)
        return kw.get("text") or "Rig %d-%d" % (b + 1, g + 1)

    def btext(self, kw, b, g):
        if kw.get("text"):
            return kw["text"]
        return tcb(None, b, g) if kw.get("text_callback") else "Bank %d" % (b + 1)

    def check(self, ev):
        for i in range(self.n):
            text, lc, col, br = self.display(i)
            l = self.labels[i]
            if l.text != text:
                raise Violation("after %r (rig %r, preselected %r): label of %s shows %r, expected %r" % (ev, self.rig, self.pre, self.kind[i], l.text, text))
            if l.back_color not in (lc if isinstance(lc, list) else [lc]):
                raise Violation("after %r (rig %r, preselected %r): label colour of %s is %r, expected %r" % (ev, self.rig, self.pre, self.kind[i], l.back_color, lc))
            exp = [tuple(int(x * f) for x in col) for f in br]
            for g in self.app.led(i):
                if not any(all(abs(x - y) <= 1 for x, y in zip(g, e)) for e in exp):
                    raise Violation("after %r (rig %r, preselected %r): LEDs of %s show %r, expected %r" % (ev, self.rig, self.pre, self.kind[i], g, exp))
        if self.nl is not None:
            kw = self.cfg["name"]
            if self.pre is not None:
                e = "Bank %d" % (self.pre + 1)
            else:
                parts = []
                sid = kw.get("show_rig_id", False)
                if sid and self.rig is not None:
                    b, g = divmod(self.rig, NR)
                    parts.append({"rig": "%d" % (g + 1), "bank": "%d" % (b + 1)}.get(sid, "%d-%d" % (b + 1, g + 1)))
                if kw.get("show_name", True):
                    parts.append(self.rname() if self.rig is not None else env.mod("clients.kemper").KemperRigNameCallback.DEFAULT_TEXT)
                e = " ".join(parts)
            if self.nl.text != e and not (self.rig is None and self.pre is None and not self.nl.text):
                raise Violation("after %r (rig %r, preselected %r): rig name label shows %r, expected %r" % (ev, self.rig, self.pre, self.nl.text, e))

    def outcome(self):
        return self.last
