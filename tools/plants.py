"""Planted bugs (see tools/plant.py)."""
PLANTS = []
P = "content/lib/pyswitch/"


def plant(id, prop, edits, needs, what, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=[(P + f if not f.startswith("/") else f[1:], a, b) for f, a, b in edits],
                       needs=needs, what=what, demo=demo, **kw))


ACT = '''
A = env.mod("controller.actions")
class Rec(A.Action):
    def __init__(self, name, log, on=lambda: True):
        super().__init__({})
        self.name, self.log, self.on = name, log, on
    @property
    def enabled(self):
        return self.on()
    def push(self):
        self.log.append("+" + self.name)
    def release(self):
        self.log.append("-" + self.name)
log = []
'''

plant("c01-late-enable", "C01", [("controller/inputs.py", '''        # Mark as pushed (prevents redundant''', '''        # Nothing to do as long as none of the actions is available
        if self.actions and not [a for a in self.actions if a.enabled]:
            return

        # Mark as pushed (prevents redundant''')],
      "all actions disabled when the switch goes down, one becomes enabled while it is held",
      "an action is pushed although the switch did not go down at that moment",
      ACT + '''
on = [False]
app = rig.App([(rig.Switch(), {"actions": [Rec("a", log, lambda: on[0])]})])
app.press(0)
on[0] = True
app.tick()
app.tick()
check(log == [], "action pushed later: %r" % log)
''')

plant("c01-release-pushed-only", "C01", [("controller/inputs.py", '''        for action in self.__actions:
            if not action.enabled:
                continue

            action.push()

    # Checks hold''', '''        self.__pressed = [a for a in self.__actions if a.enabled]
        for action in self.__pressed:
            action.push()

    # Checks hold''')],
      "an action which gets disabled by a preceding action of the same press",
      "enabled state of all actions is evaluated before the first one is pushed: disabled actions get pushed",
      ACT + '''
on = [True]
a, b = Rec("a", log), Rec("b", log, lambda: on[0])
def push():
    log.append("+a")
    on[0] = False
a.push = push
app = rig.App([(rig.Switch(), {"actions": [a, b]})])
app.press(0)
check(log == ["+a"], log)
''')

plant("c02-hold-disabled-repeat", "C02", [("controller/inputs.py", '''            if self.__hold_repeat:
                self.__hold_was_active = True
            else:
                self.__hold_active = False

            # Hold click
            for action in self.__actions_hold:
                if not action.enabled:
                    continue

                action.push()        ''', '''            if not self.__hold_repeat:
                self.__hold_active = False

            # Hold click
            for action in self.__actions_hold:
                if not action.enabled:
                    continue

                self.__hold_was_active = self.__hold_repeat
                action.push()        ''')],
      "hold repetition with all hold actions disabled during a long press",
      "a long press triggers the short actions",
      ACT + '''
app = rig.App([(rig.Switch(), {"actions": [Rec("a", log)], "actionsHold": [Rec("h", log, lambda: False)], "holdRepeat": True})])
app.press(0)
app.tick(700)
app.tick(10)
app.release(0)
check(log == [], log)
''')

plant("c02-hold-late-poll", "C02", [("controller/inputs.py", '''                        if self.__check_hold():
                            self.__hold_active = False
''', '''                        if not self.__hold_repeat and self.__check_hold():
                            self.__hold_active = False
''')],
      "hold repetition; switch released between two polls with the hold time elapsing in between",
      "a long press triggers the short actions",
      ACT + '''
app = rig.App([(rig.Switch(), {"actions": [Rec("a", log)], "actionsHold": [Rec("h", log)], "holdRepeat": True})])
app.press(0)
app.hw[0].pushed = False
app.tick(700)
check(log == ["+h", "-h"], log)
''')

plant("c03-oneshot-feedback", "C03", [("controller/actions/__init__.py", '''            self.__state = False    # Triggers that set() is called by the state property in the next line
            self.state = True            ''', '''            self.state = True       # State has been reset at release already''')],
      "one shot mode; the device reports the function as on before the press",
      "one shot press sends nothing",
      '''
A = env.mod("controller.actions")
C = env.mod("controller.callbacks")
calls = []
class Cb(C.Callback):
    def state_changed_by_user(self):
        calls.append(self.action.state)
    def update_displays(self):
        pass
a = A.PushButtonAction({"mode": A.PushButtonAction.ONE_SHOT, "callback": Cb()})
app = rig.App([(rig.Switch(), {"actions": [a]})])
a.feedback_state(True)
app.tap(0)
check(calls == [True], calls)
''')

plant("c04-lifetime-extended", "C04", [("controller/client.py", '''            # Existing request: Add listener
            if listener:
                req.add_listener(listener)
''', '''            # Existing request: Add listener, which shall also have the full time to get its answer
            if listener:
                req.add_listener(listener)

                if req.lifetime:
                    req.lifetime.reset()
''')],
      "device does not answer while the value is requested with every update",
      "requests never expire, so the offline state is never shown and no new request is sent",
      '''
K = env.mod("clients.kemper").KemperMappings
class L:
    n = 0
    def parameter_changed(self, m):
        pass
    def request_terminated(self, m):
        L.n += 1
app = rig.App([])
m = K.EFFECT_STATE(0)
l = L()
for i in range(50):
    app.ctl.client.request(m, l)
    app.tick(200)
check(L.n > 0, "request never terminated")
''')

plant("c04-first-match", "C04", [("controller/client.py", '''            if request.parse(midi_message):
                parsed = True

            if request.finished:''', '''            if not parsed and request.parse(midi_message):
                parsed = True

            if request.finished:''')],
      "two parameters with the same response address requested at the same time",
      "only the first one gets the answer, the other one is reported as offline",
      '''
c = env.mod("controller.client")
K = env.mod("clients.kemper")
a, b = [c.ClientParameterMapping.get(name=n, request=K.KemperNRPNMessage(0x41, 50, 3), response=K.KemperNRPNMessage(1, 50, 3)) for n in ("a", "b")]
class L:
    def __init__(self):
        self.v = []
    def parameter_changed(self, m):
        self.v.append(m.value)
    def request_terminated(self, m):
        self.v.append(None)
app = rig.App([])
x, y = L(), L()
app.ctl.client.request(a, x)
app.ctl.client.request(b, y)
app.recv(rig.k_single(50, 3, 77))
check(x.v == [77] and y.v == [77], (x.v, y.v))
''')

plant("c05-text-strip", "C05", [("controller/client.py", """return ''.join(chr(int(c)) for c in list(midi_message.data[6:-1]))""", """return ''.join(chr(int(c)) for c in list(midi_message.data[6:-1])).strip()""")],
      "names with leading or trailing blanks",
      "text is not taken over as transmitted",
      '''
class L:
    def parameter_changed(self, m):
        pass
    def request_terminated(self, m):
        pass
C = env.mod("controller.client").ClientParameterMapping
N = env.mod("clients.kemper").KemperNRPNMessage
m = C.get(name="x", request=N(0x43, 0, 1), response=N(3, 0, 1), type=C.PARAMETER_TYPE_STRING)
app = rig.App([])
app.ctl.client.request(m, L())
app.recv(rig.k_string(0, 1, " My Rig "))
check(m.value == " My Rig ", repr(m.value))
''')

plant("c06-lone-program-change", "C06", [("controller/client.py", '''            self.value = 128 * self.__value_1 + value_2
            self.__value_1 = None
            return True
''', '''            self.value = 128 * self.__value_1 + value_2
            self.__value_1 = None
            return True

        if value_2 != None and self.value != None:
            # Bank unchanged: Only the program is sent
            self.value = 128 * (self.value // 128) + value_2
            return True
''')],
      "a program change without a preceding bank select, after a complete announcement",
      "rig number changes without a complete announcement",
      '''
K = env.mod("clients.kemper").KemperMappings
class L:
    def parameter_changed(self, m):
        pass
    def request_terminated(self, m):
        pass
app = rig.App([])
m = K.RIG_ID()
app.ctl.client.register(m, L())
app.recv(rig.cc(32, 1), rig.pc(3))
check(m.value == 131, m.value)
app.recv(rig.pc(9))
check(m.value == 131, m.value)
''')

plant("c07-sense-reset", "C07", [("clients/kemper/__init__.py", """            self.__has_been_running = True
            self.state = self._STATE_RUNNING

        self.sensing_period.reset()
""", """            self.__has_been_running = True
            self.state = self._STATE_RUNNING
        else:
            self.sensing_period.reset()
""")],
      "only one sense message between two updates when the connection is established late or again",
      "the connection is regarded as lost directly after it has been established",
      '''
K = env.mod("clients.kemper")
class L:
    n = 0
    def parameter_changed(self, m):
        pass
    def request_terminated(self, m):
        L.n += 1
        m.value = None
m = K.KemperMappings.EFFECT_STATE(0)
p = K.KemperBidirectionalProtocol(time_lease_seconds=30)
app = rig.App([], protocol=p)
app.ctl.client.register(m, L())
app.update()
app.tick(2000)
app.recv(rig.k_sense())
app.tick(201)
check(p.get_color() == env.mod("colors").Colors.GREEN, "not connected")
''')

plant("c08-send-identical", "C08", [("hardware/adafruit/AdafruitDinMidiDevice.py", '''        if isinstance(midi_message, _MIDIUnknownEvent):
            return
        
        self.__midi.send(midi_message)''', '''        if isinstance(midi_message, _MIDIUnknownEvent):
            return

        # Do not flood the DIN line with the same message when it is routed from several sources
        if midi_message is self.__last:
            return
        self.__last = midi_message
        
        self.__midi.send(midi_message)''', ), ("hardware/adafruit/AdafruitDinMidiDevice.py", '''        self.__midi = _MIDI(
            midi_out''', '''        self.__last = None
        self.__midi = _MIDI(
            midi_out''')],
      "the same message object sent twice to a DIN device (e.g. pressing the same switch twice)",
      "every second identical message of the application is lost on DIN",
      '''
M = env.mod("controller.midi")
D = env.mod("hardware.adafruit.AdafruitDinMidiDevice").AdafruitDinMidiDevice
d = D(gpio_in="GP1", gpio_out="GP2", in_buf_size=100, baudrate=31250, timeout=0.001)
out = bytearray()
port = [v for v in vars(d).values() if hasattr(v, "_midi_out")][0]._midi_out
port.write = lambda b, n=None: out.extend(bytes(b if n is None else b[:n]))
ctl = M.MidiController([M.MidiRouting(source=M.MidiRouting.APPLICATION, target=d)])
from adafruit_midi.control_change import ControlChange
m = ControlChange(5, 6)
ctl.send(m)
m.value = 7
ctl.send(m)
check(rig.parse_stream(bytes(out)) == [("cc", 5, 6), ("cc", 5, 7)], bytes(out).hex())
''')

plant("c09-poll-sparse", "C09", [("controller/controller.py", '''            # Detect switch state changes
            for input in self.inputs:
                input.process()
''', '''            # Detect switch state changes (not needed for every single message)
            if not cnt & 3:
                for input in self.inputs:
                    input.process()
''')],
      "a switch is pushed and released during a burst of MIDI messages",
      "short presses get lost under MIDI load",
      ACT + '''
app = rig.App([(rig.Switch(), {"actions": [Rec("a", log)]})])
class M:
    def __init__(self):
        self.n = 0
    def receive(self):
        self.n += 1
        app.hw[0].pushed = self.n == 1
        return rig and __import__("adafruit_midi.control_change", fromlist=["x"]).ControlChange(1, 1) if self.n < 4 else None
    def send(self, m):
        pass
app.ctl._Controller__midi = M()
app.tick()
check(log == ["+a", "-a"], log)
''')

plant("c10-proxy-current-id", "C10", [("clients/local/actions/pager_direct.py", '''        self.__pager.current_page_index = self.__page_index
        self.__pager.current_page_id =''', '''        if self.__page_index < self.__pager.current_page_index:
            self.__pager.current_page_index = 0
        else:
            self.__pager.current_page_index = self.__page_index
        self.__pager.current_page_id =''')],
      "three pages; page 3 selected, then page 2",
      "selects the first page instead",
      '''
Pg = env.mod("clients.local.actions.pager").PagerAction
p = Pg(pages=[{"id": 1}, {"id": 2}, {"id": 3}], select_page=1)
x, y = p.proxy(2), p.proxy(3)
app = rig.App([(rig.Switch(), {"actions": [a]}) for a in (p, x, y)])
for sw, page in ((2, 3), (1, 2), (0, 1)):
    app.tap(sw)
    check(p.current_page_id == page, (sw, p.current_page_id))
''')

plant("c12-auto-first-only", "C12", [("controller/callbacks/__init__.py", '''        if not isinstance(self._value_disable, list):
            self._value_disable = value
        else:''', '''        if not isinstance(self._value_disable, list):
            if self._value_disable == "auto":
                self._value_disable = value
        else:''')],
      "restoring mode; the off value is changed at the device after a first one has been seen",
      "switching off restores an outdated value",
      '''
c = env.mod("controller.client")
B = env.mod("controller.callbacks").BinaryParameterCallback
A = env.mod("controller.actions")
m = c.ClientParameterMapping.get(name="x", set=c.ControlChange(20, 0), response=c.ControlChange(20, 0))
a = A.PushButtonAction({"mode": A.PushButtonAction.LATCH, "callback": B(mapping=m, value_enable=100, value_disable="auto", comparison_mode=B.EQUAL)})
app = rig.App([(rig.Switch(), {"actions": [a]})])
app.recv(rig.cc(20, 10))
app.recv(rig.cc(20, 30))
app.tap(0)
app.recv(rig.cc(20, 100))
app.tap(0)
check(app.sent() == [("cc", 20, 100), ("cc", 20, 30)], "old value not restored")
''')

plant("c12-brightness-cache", "C12", [("controller/callbacks/__init__.py", '''        self._current_display_state = -1
        self.__current_value = self       # Just some value which will never occur as a mapping value ;)
        self._current_color = -1

''', '''        self._current_display_state = -1
        self._current_color = -1

''')],
      "action disabled and enabled again (page change) while the device value stays the same",
      "state stays off after a page change although the device reports on",
      '''
c = env.mod("controller.client")
B = env.mod("controller.callbacks").BinaryParameterCallback
A = env.mod("controller.actions")
m = c.ClientParameterMapping.get(name="x", set=c.ControlChange(20, 0), response=c.ControlChange(20, 0))
a = A.PushButtonAction({"mode": A.PushButtonAction.LATCH, "useSwitchLeds": True, "callback": B(mapping=m, color=(100, 100, 100))})
app = rig.App([(rig.Switch(), {"actions": [a]})])
app.recv(rig.cc(20, 1))
app.update()
check(a.state, "on")
app.ctl.reset_actions()
app.recv(rig.cc(20, 1))
app.update()
check(a.state and app.led(0)[0] == (30, 30, 30), (a.state, app.led(0)))
''')

# ---------------------------------------------------------------------------------------------- batch 2

plant("c17-accept-twice", "C17", [("controller/actions/EncoderAction.py", '''        self._appl.client.set(self._mapping, self._last_value)
        self._set_value(self._last_value)

        self.cancel(immediately = False)
''', '''        self._appl.client.set(self._mapping, self._last_value)
        self._set_value(self._last_value)

        if self.__preview:
            self.__preview.reset(immediately = False)
''')],
      "accept button pressed again after the value was changed at the device", "an old preselected value is sent a second time", '''
c = env.mod("controller.client")
En = env.mod("controller.actions.EncoderAction").EncoderAction
EB = env.mod("clients.local.actions.encoder_button").ENCODER_BUTTON
m = c.ClientParameterMapping.get(name="x", set=c.ControlChange(7, 0), response=c.ControlChange(7, 0))
acc = EB()
enc = rig.Enc(0)
app = rig.App([(enc, {"actions": [En(mapping=m, max_value=127, accept_action=acc)]}), (rig.Switch(), {"actions": [acc]})])
app.update()
app.recv(rig.cc(7, 50))
enc.position += 1
app.tick()
app.tap(1)
app.recv(rig.cc(7, 90))
app.sent()
app.tap(1)
check(app.sent() == [], "sent again")
''')

plant("c20-rotate-release-len", "C20", [("clients/local/actions/rotate.py", '''        if self.__messages_release and self.__messages_release_pos >= len(self.__messages_release):
            self.__messages_release_pos = 0
''', '''        if self.__messages_release and self.__messages_pos == 0:
            self.__messages_release_pos = 0
''')],
      "fewer or more release messages than push messages", "release rotation out of step or crashing", '''
R = env.mod("clients.local.actions.rotate").ROTATING_MESSAGES
app = rig.App([(rig.Switch(), {"actions": [R(messages=[[0xb0, 1, 1], [0xb0, 1, 2]], messages_release=[[0xb0, 2, 1], [0xb0, 2, 2], [0xb0, 2, 3]])]})])
app.update()
for i in range(3):
    app.tap(0)
check([x for x in app.sent() if x[1] == 2] == [("cc", 2, 1), ("cc", 2, 2), ("cc", 2, 3)], "release messages")
''')

plant("c22-reset-type", "C22", [("controller/callbacks/effect_enable.py", '''        super().reset()
        
        self.__current_kpp_type = None
''', '''        super().reset()
''')],
      "display shared by effect slots of two pages", "after changing pages the label shows the effect of the other page", '''
E = env.mod("clients.kemper.actions.effect_state").EFFECT_STATE
P = env.mod("clients.local.actions.pager").PagerAction
El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
lab = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 100, 40), layout={"font": "f", "text": "", "backColor": (9, 9, 9)})
pg = P(pages=[{"id": 1}, {"id": 2}])
app = rig.App([(rig.Switch(), {"actions": [E(0, display=lab, id=1, enable_callback=pg.enable_callback),
                                           E(1, display=lab, id=2, enable_callback=pg.enable_callback)]}),
               (rig.Switch(), {"actions": [pg]})], root=lab)
def rnd():
    app.update()
    app.recv(rig.k_single(50, 0, 1), rig.k_single(51, 0, 100))
    app.update()
rnd()
a = lab.text
app.tap(1)
rnd()
check(lab.text != a, lab.text)
app.tap(1)
rnd()
check(lab.text == a, (a, lab.text))
''')

plant("c16-recalibrate-repeat", "C16", [("controller/actions/AnalogAction.py", """                    if value > self.__cal_max:
                        self.__cal_max = value
                        self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)
""", """                    if value > self.__cal_max:
                        if self.__cal_max - self.__cal_min < 32768:
                            # Coarse range up to now: Values have been inexact
                            self.__last_value = -1

                        self.__cal_max = value
                        self.__cal_factor = 65536 / (self.__cal_max - self.__cal_min)
""")],
      "auto calibration with a slow movement widening the range repeatedly", "the same value is sent several times in a row", """
c = env.mod("controller.client")
An = env.mod("controller.actions.AnalogAction").AnalogAction
m = c.ClientParameterMapping.get(name="x", set=c.ControlChange(7, 0))
pot = rig.Pot(0)
app = rig.App([(pot, {"actions": [An(mapping=m, auto_calibrate=True)]})])
for v in (0, 17000, 18000, 20000, 24000, 30000):
    pot.value = v
    app.update()
out = app.sent()
check(all(a != b for a, b in zip(out, out[1:])), out)
""")

plant("c18-accept-timeout", "C18", [("controller/preview.py", """            self.__period = None
        else:
            self.__period.reset()
        """, """            self.__period = None
        """)],
      "accept after the preselection has been shown for a while", "the accepted value disappears at once instead of after the timeout", """
c = env.mod("controller.client")
En = env.mod("controller.actions.EncoderAction").EncoderAction
EB = env.mod("clients.local.actions.encoder_button").ENCODER_BUTTON
El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
m = c.ClientParameterMapping.get(name="x", set=c.ControlChange(7, 0), response=c.ControlChange(7, 0))
lab = El.DisplayLabel(bounds=Ui.DisplayBounds(0, 0, 100, 40), layout={"font": "f", "text": "T", "textColor": (1, 2, 3)})
acc = EB()
e1 = rig.Enc(0)
app = rig.App([(e1, {"actions": [En(mapping=m, max_value=127, accept_action=acc, preview_display=lab, preview_timeout_millis=1500)]}), (rig.Switch(), {"actions": [acc]})], root=lab)
app.update()
app.recv(rig.cc(7, 50))
e1.position += 1
app.tick()
for i in range(20):
    app.update()
app.tap(1)
app.update()
app.update()
check(lab.override_text, "preview gone 400 ms after accept")
""")

plant("c26-strobe-order", "C26", [("controller/strobe.py", """        self.__switches.sort(key = compare)
""", """        # The input order is fine if the first switch is also the first one of the strobe
        if self.__switches and compare(self.__switches[0]) != 0:
            self.__switches.sort(key = compare)
""")],
      "strobe orders differing from the input order with the first one the same", "light does not rotate around the switches", """
K = env.mod("clients.kemper")
El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
app = rig.App([(rig.Switch(), {"actions": []}) for i in range(4)], strobe_orders=[0, 1, 3, 2],
              splash=K.TunerDisplayCallback(splash_default=root, strobe=True, strobe_color=(0, 255, 0), strobe_dim=1),
              protocol=K.KemperBidirectionalProtocol(30))
app.update()
app.recv(rig.k_sense())
app.recv(rig.k_single(127, 126, 1))
seq = []
for i in range(400):
    app.tick(50)
    app.feed(rig.k_single(0x7c, 0x0f, 8191 + 300 + i % 2))
    app.tick(1)
    top = max(range(4), key=lambda i: app.led(i)[0][1])
    if app.led(top)[0][1] and seq[-1:] != [top]:
        seq.append(top)
order = [0, 1, 3, 2]
steps = set((order.index(b) - order.index(a)) % 4 for a, b in zip(seq, seq[1:]))
check(len(seq) >= 3 and len(steps) == 1 and steps <= {1, 3}, (seq, steps))
""")

plant("c10-start-index", "C10", [("clients/local/actions/pager.py", """            self.current_page_index += 1
            while self.current_page_index >= len(self.pages):
                self.current_page_index = 0
""", """            ids = [p["id"] for p in self.pages]
            self.current_page_index = ids.index(self.current_page_id) + 1
            while self.current_page_index >= len(self.pages):
                self.current_page_index = 0
""")],
      "two pages with the same ID", "the pager does not reach the pages behind the second page with the same ID", """
P = env.mod("clients.local.actions.pager").PagerAction
pg = P(pages=[{"id": 1}, {"id": 2}, {"id": 1}, {"id": 3}])
app = rig.App([(rig.Switch(), {"actions": [pg]})])
got = []
for i in range(4):
    got.append(pg.current_page_id)
    app.tap(0)
check(got == [1, 2, 1, 3], got)
""")



plant("c23-split-none", "C23", [("ui/DisplaySplitContainer.py", '''        active_children = [x for x in self.children if x != None]
''', '''        # Trailing placeholders do not need any space
        active_children = list(self.children)
        while active_children and active_children[-1] == None:
            active_children.pop()
'''), ("ui/DisplaySplitContainer.py", '''            for i in range(len(active_children)):
                active_children[i].bounds = DisplayBounds(
                    bounds.x + i * slot_width,''', '''            for i in range(len(active_children)):
                if active_children[i] == None:
                    continue

                active_children[i].bounds = DisplayBounds(
                    bounds.x + i * slot_width,'''), ("ui/DisplaySplitContainer.py", '''            for i in range(len(active_children)):
                active_children[i].bounds = DisplayBounds(
                    bounds.x,''', '''            for i in range(len(active_children)):
                if active_children[i] == None:
                    continue

                active_children[i].bounds = DisplayBounds(
                    bounds.x,''')],
      "a placeholder (None) which is not the last child of a split container",
      "the remaining children do not get the whole area, a gap is left",
      '''
S = env.mod("ui.DisplaySplitContainer").DisplaySplitContainer
Ui = env.mod("ui.ui")
c = S(bounds=Ui.DisplayBounds(0, 0, 120, 20))
a, b = Ui.DisplayElement(), Ui.DisplayElement()
for x in (a, None, b):
    c.add(x)
check((a.bounds.width, b.bounds.x, b.bounds.width) == (60, 60, 60), "%s" % [vars(x.bounds) for x in (a, b)])
''')

plant("c24-updateables-cached", "C24", [("ui/UiController.py", '''        if not splash_element.initialized():
            splash_element.init(splash_element, self.__appl)

        # Add elements which are Updateables to the update queue
        self.updateables = [i for i in splash_element.contents_flat() if isinstance(i, Updateable)]
''', '''        if not splash_element.initialized():
            splash_element.init(splash_element, self.__appl)

            # Add elements which are Updateables to the update queue
            self.updateables = [i for i in splash_element.contents_flat() if isinstance(i, Updateable)]
''')],
      "switching to another screen and back to one which has been shown before",
      "elements of the shown screen are not updated any more",
      '''
El, Ui, M = env.mod("ui.elements"), env.mod("ui.ui"), env.mod("misc")
CB = env.mod("controller.callbacks").Callback
Cl = env.mod("controller.client").ClientParameterMapping
CC = env.sys.modules["adafruit_midi.control_change"].ControlChange
m = Cl.get(name="screen", response=CC(20, 0), request=CC(21, 0))
class Up(Ui.DisplayElement, M.Updateable):
    n = 0
    def update(self):
        self.n += 1
u = Up()
r1, r2 = (Ui.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240)) for _ in range(2))
r1.add(u)
class Choose(CB):
    def get_root(self):
        return r2 if m.value == 1 else r1
cb = Choose()
cb.register_mapping(m)
app = rig.App([], splash=cb)
app.update()
app.recv(rig.cc(20, 1))
app.update()
app.recv(rig.cc(20, 0))
app.update()
n = u.n
app.update()
check(u.n > n, "element of the shown screen is not updated")
''')

plant("c33-color-cache", "C33", [("ui/elements.py", '''        # Update text color, too (might change when no initial color has been set)
        self.text_color = self.__initial_text_color
''', '''        # Update text color, too (might change when no initial color has been set)
        if not self.__initial_text_color and self.__label:
            self.text_color = None
''')],
      "a label without fixed text colour whose background is changed before the label is shown first, or a label "
      "with fixed colour whose text colour has been changed before the background",
      "text colour does not follow the background",
      '''
El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
l = El.DisplayLabel(layout={"font": "f", "backColor": (9, 9, 9), "textColor": (1, 200, 3)}, bounds=Ui.DisplayBounds(0, 0, 50, 20))
root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
root.add(l)
app = rig.App([], root=root)
l.text_color = (7, 7, 7)
l.back_color = (10, 10, 10)
check(l.text_color == (1, 200, 3), "text colour %s" % (l.text_color,))
''')


KEM = '''
K = env.mod("clients.kemper")
def rigno(app, n):
    app.recv(rig.cc(32, n // 128), rig.pc(n % 128))
    app.update()
'''

plant("c11-last-segment", "C11", [("controller/actions/__init__.py", """            else:
                ret.append(pixels_for_first + index - 1)""", """            else:
                # Here, only the last one or the one in the middle can be left
                ret.append(pixels_for_first + min(index, 2) - 1)""")],
      "four actions on a switch with five or more LEDs",
      "the last action uses the LED of the third one",
      """
A = env.mod("controller.actions")
x = [A.Action({"useSwitchLeds": True}) for _ in range(4)]
app = rig.App([(rig.Switch(), {"actions": x})], pixels=[(0, 1, 2, 3, 4)])
for i, a in enumerate(x):
    a.switch_color = (i + 1, 0, 0)
c = [v[0] for v in app.ctl.inputs[0].colors]
check(c == [1, 1, 2, 3, 4], "colours %s" % (c,))
""")

plant("c13-auto-bank-only-other-rig", "C13", [("clients/kemper/actions/rig_select.py", '''            if self.__bank_off_auto and curr_bank != self.__bank - 1:
                self.__bank_off = curr_bank + 1
''', '''            if self.__bank_off_auto and not (curr_rig == self.__rig_on() or curr_bank == self.__bank - 1):
                self.__bank_off = curr_bank + 1
'''), ("clients/kemper/actions/rig_select.py", '''    def reset(self):
        if self.action.enabled:
            self.update_displays()

    # Called when the switch is pushed down
    def push(self):
        state = self.state
''', '''    def reset(self):
        if self.action.enabled:
            self.update_displays()

    # Number of the rig selected when active
    def __rig_on(self):
        return self.__rig - 1 if self.__rig != None else None

    # Called when the switch is pushed down
    def push(self):
        state = self.state
''')],
      "bank_off auto; the device changes to another bank with the same rig number in it, then the switch is pressed twice",
      "the second press returns to a bank which has been left long ago",
      KEM + '''
RS = env.mod("clients.kemper.actions.rig_select")
app = rig.App([(rig.Switch(), {"actions": [RS.RIG_SELECT(rig=2, rig_off=2, bank=3, bank_off="auto")]})], client=K.KemperClient() if hasattr(K, "KemperClient") else None) if False else rig.App([(rig.Switch(), {"actions": [RS.RIG_SELECT(rig=2, rig_off=2, bank=3, bank_off="auto")]})])
rigno(app, 5 * 6 + 0)
rigno(app, 5 * 7 + 1)
rigno(app, 5 * 2 + 1)
app.sent()
app.press(0)
s = app.sent()
check(("cc", 47, 7) in s, "sent %r" % (s,))
''')

plant("c14-preselect-kept", "C14", [("clients/kemper/actions/rig_select.py", '''        # If preselection has been active, quit it.
        if "preselectedBank" in self.__appl.shared:
            self.__appl.shared["morphStateOverride"] = 0
            del self.__appl.shared["preselectedBank"]

    # Called when the switch is released''', '''            # If preselection has been active, quit it.
            if state != self.state or self.__rig != None:
                self.__quit_preselection()

    def __quit_preselection(self):
        if "preselectedBank" in self.__appl.shared:
            self.__appl.shared["morphStateOverride"] = 0
            del self.__appl.shared["preselectedBank"]

    # Called when the switch is released''')],
      "a switch which re-selects the current rig (rig = None) used to finish a bank preselection",
      "PySwitch keeps preselecting although the device has loaded the rig",
      KEM + '''
RS, B = env.mod("clients.kemper.actions.rig_select"), env.mod("clients.kemper.actions.bank_up_down")
app = rig.App([(rig.Switch(), {"actions": [RS.RIG_SELECT(rig=None)]}), (rig.Switch(), {"actions": [B.BANK_UP(preselect=True)]})])
rigno(app, 11)
app.press(1)
app.release(1)
check("preselectedBank" in app.ctl.shared, "no preselection")
app.press(0)
app.release(0)
check("preselectedBank" not in app.ctl.shared, "still preselecting")
''')

plant("c15-release-of-opener", "C15", [("clients/kemper/__init__.py", '''        else:
            # Tuner off
            self.__pushed_before = False

            for input in''', '''        else:
            # Tuner off
            for input in''')],
      "the tuner is switched off at the device while a switch is held, then switched on again with a switch",
      "releasing the switch which opened the tuner closes it at once",
      KEM + '''
T, Ui = env.mod("clients.kemper.actions.tuner"), env.mod("ui.ui")
A = env.mod("controller.actions").PushButtonAction
cb = K.TunerDisplayCallback(splash_default=Ui.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240)))
app = rig.App([(rig.Switch(), {"actions": [T.TUNER_MODE(mode=A.LATCH)]})], splash=cb)
app.recv(rig.k_single(127, 126, 1))
app.update()
app.press(0)
app.tick()
app.recv(rig.k_single(127, 126, 3))
app.tick()
app.update()
app.release(0)
app.tick()
app.press(0)
app.tick()
app.recv(rig.k_single(127, 126, 1))
app.update()
app.sent()
app.release(0)
app.tick()
s = app.sent()
check(not [m for m in s if m[0] == "cc" and m[1] == 31 and m[2] == 0], "tuner closed: %r" % (s,))
''')

plant("c19-reset-unknown", "C19", [("clients/local/actions/param_change.py", """        self.reset()
    
    def init(self, appl, listener = None):""", """        self.__last_value = -1
    
    def init(self, appl, listener = None):"""), ("clients/local/actions/param_change.py", """    def reset(self):
        self.__last_value = -1
""", """    def reset(self):
        # Nothing to refresh as long as the value is not known
        if self._mapping.value != None:
            self.__last_value = -1
""")],
      "page change and back while the value of the parameter is unknown",
      "label and LED keep what the other page has shown",
      """
P = env.mod("clients.local.actions.param_change")
PG = env.mod("clients.local.actions.pager").PagerAction
A = env.mod("controller.actions")
M = env.mod("controller.client").ClientParameterMapping
CC = env.sys.modules["adafruit_midi.control_change"].ControlChange
m = M.get(name="demo", set=CC(20, 0), response=CC(20, 0))
pg = PG(pages=[{"id": 1}, {"id": 2}])
a = P.PARAMETER_UP_DOWN(mapping=m, offset=10, color=(0, 0, 200), enable_callback=pg.enable_callback, id=1)
app = rig.App([(rig.Switch(), {"actions": [a]}), (rig.Switch(), {"actions": [pg]})])
app.update()
c = list(app.ctl.inputs[0].colors)
for _ in range(2):
    app.press(1)
    app.release(1)
    if _ == 0:
        app.ctl.inputs[0].colors = [(9, 9, 9)] * 3
    app.update()
n = list(app.ctl.inputs[0].colors)
check(n == c, "colours %s instead of %s" % (n, c))
""")

plant("c21-ignored-again", "C21", [("clients/kemper/actions/morph.py", """            self.__last_value = value

            if not self.ignore_next_value:
                # Morph value has changed from the outside
                self.appl.shared["morphStateOverride"] = value
            else:
                self.ignore_next_value = False
""", """            if not self.ignore_next_value:
                # Morph value has changed from the outside
                self.__last_value = value
                self.appl.shared["morphStateOverride"] = value
            else:
                self.ignore_next_value = False
""")],
      "a morph value ignored after a rig change, then a refresh of the display (page change) with the same value",
      "the old morph value is taken over as if it had changed",
      KEM + """
MO = env.mod("clients.kemper.actions.morph")
app = rig.App([(rig.Switch(), {"actions": [MO.MORPH_DISPLAY()]})])
a = app.ctl.inputs[0].actions[0]
app.update()
a.callback.ignore_next_value = True
app.recv(rig.k_single(0, 11, 5000))
app.update()
check(app.ctl.shared["morphStateOverride"] == 0, "not ignored")
a.reset()
app.update()
check(app.ctl.shared["morphStateOverride"] == 0, "morph state %r" % app.ctl.shared["morphStateOverride"])
""")

plant("c14-label-first-bank", "C14", [("clients/kemper/__init__.py", '''        elif self.__preselect_initialized != None:
            self.__preselect_initialized = None
            self.__refresh()
''', '''        elif self.__preselect_initialized:
            self.__preselect_initialized = None
            self.__refresh()
''')],
      "a preselection of the first bank which is cancelled by the device staying at the same rig",
      "the label shows Bank 1 until the rig changes",
      KEM + '''
El, Ui = env.mod("ui.elements"), env.mod("ui.ui")
l = El.DisplayLabel(layout={"font": "f"}, bounds=Ui.DisplayBounds(0, 0, 240, 40), callback=K.KemperRigNameCallback(show_name=False, show_rig_id=True))
root = El.DisplayElement(bounds=Ui.DisplayBounds(0, 0, 240, 240))
root.add(l)
app = rig.App([], root=root)
rigno(app, 3)
check(l.text == "1-4", l.text)
app.ctl.shared["preselectedBank"] = 0
app.update()
check(l.text == "Bank 1", l.text)
del app.ctl.shared["preselectedBank"]
app.update()
check(l.text == "1-4", "label shows %r" % l.text)
''')

plant("c31-bpm-rounding", "C31", [("clients/kemper/mappings/tempo_bpm.py", """    return str(round(value / 64))""", """    # Integer arithmetics saves memory
    return str((value + 30) // 64)""")],
      "a tempo of nearly half a beat more than a whole number",
      "the shown tempo is one too low",
      """
T = env.mod("clients.kemper.mappings.tempo_bpm")
for v in range(16384):
    check(abs(int(T.convert_bpm(v)) - v / 64) <= 0.5, "%d: %s" % (v, T.convert_bpm(v)))
""")

plant("c25-pin-number", "C25", [("controller/explore.py", """            if not name.startswith("GP"):
                continue
""", """            if not name.startswith("GP"):
                continue

            # These are names of the same pins again, like GP26_A0
            if not name[2:].isdigit():
                continue
""")],
      "boards which name a pin like GP26_A0 only",
      "switches on such pins are not found",
      """
from h import fw
b = env.sys.modules["board"]
p = b.GP26
del b.GP26
b.GP26_A0 = p
f = fw.Fw("content", config={"exploreMode": True}, explore=True)
f.tick(0)
from h.env import HW
check(p in HW.gpio, "pin GP26 not used")
""")

plant("c29-din-unknown", "C29", [("hardware/adafruit/AdafruitDinMidiDevice.py", '''        if isinstance(midi_message, _MIDIUnknownEvent):
            return
        ''', '''        if isinstance(midi_message, _MIDIUnknownEvent) or midi_message == self.__last:
            return
        
        self.__last = midi_message'''), ("hardware/adafruit/AdafruitDinMidiDevice.py", '''        midi_uart = _UART(''', '''        self.__last = None

        midi_uart = _UART(''')],
      "the same message object sent twice in a row over DIN (e.g. cached messages of a mapping)",
      "messages get lost on the DIN port",
      '''
D = env.mod("hardware.adafruit.AdafruitDinMidiDevice")
CC = env.sys.modules["adafruit_midi.control_change"].ControlChange
d = D.AdafruitDinMidiDevice("GP16", "GP17", in_buf_size=100, baudrate=31250, timeout=0)
from h.env import HW
m = CC(20, 127)
for v in (127, 0, 0):
    m.value = v
    d.send(m)
check(len(HW.uarts[0].out) == 9, "%d bytes sent" % len(HW.uarts[0].out))
''')

plant("c32-remount-always", "C32", [("/content/boot.py", '''    disable_usb_drive()
    remount("/", readonly = False)''', '''    disable_usb_drive()

# Writing is needed for the MIDI bridge
remount("/", readonly = False)''')],
      "start with the switch for mounting the USB drive held",
      "the start script fails: the drive can't be remounted while it is visible via USB",
      '''
import types, sys
did = []
st, su = types.ModuleType("storage"), types.ModuleType("supervisor")
st.disable_usb_drive = lambda: did.append("off")
def remount(path, readonly=False, **kw):
    if "off" not in did:
        raise RuntimeError("Cannot remount '/' when visible via USB.")
st.remount, su.disable_autoreload = remount, lambda: None
sys.modules.update(storage=st, supervisor=su, time=env.FAKE_TIME)
dio = sys.modules["digitalio"].DigitalInOut
init = dio.__init__
def claim(o, port):
    init(o, port)
    o._value = False
dio.__init__ = claim
try:
    exec(open("content/boot.py").read(), {"__name__": "__main__"})
except RuntimeError as e:
    check(False, str(e))
check(not did, "drive disabled")
''')

plant("c34-type-names", "C34", [("controller/callbacks/effect_enable.py", """        if self.__current_kpp_type == self.mapping_fxtype.value:
            super().update_displays()
            return
""", """        if self.__current_kpp_type != None and self.mapping_fxtype.value != None and self.get_effect_category(self.__current_kpp_type) == self.__effect_category:
            super().update_displays()
            return
""")],
      "another effect of the same family is loaded into a slot whose label shows the exact effect name",
      "the label goes on showing the former effect: not what a fresh start would show",
      KEM + """
from h import fw
def show(types):
    env.fresh()
    f = fw.Fw("examples/Kemper Profiler/MIDICaptain Nano 4/FX States (extended) and Bank Change")
    f.tick(201)
    for t in types:
        for s in (50, 51, 52, 53, 56, 58, 60, 61):
            f.feed(rig.k_single(s, 0, t))
            f.feed(rig.k_single(s, 3, 1))
        for _ in range(6):
            f.tick(201)
    return f.texts()
a, b = show([33, 34]), show([34])
check(a == b, "shown %r instead of %r" % (a, b))
""")
