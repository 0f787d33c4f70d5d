"""Builds complete PySwitch applications (real Controller, Client, MidiController, MIDI device
drivers, inputs, UI) around byte level MIDI ports and fake hardware."""
from . import env
from .env import Clock


class Switch:
    def __init__(self):
        self.pushed = False

    def init(self):
        pass


class Pot:
    def __init__(self, value=0):
        self.value = value

    def init(self):
        pass


class Enc:
    def __init__(self, position=0):
        self.position = position

    def init(self):
        pass


class Leds:
    def __init__(self):
        self.leds = None

    def init(self, n):
        self.leds = [(0, 0, 0)] * n


class Tft:
    def __init__(self):
        self.shown = None

    def show(self, splash):
        self.shown = splash


class DisplayDriver:
    def __init__(self, width=240, height=240):
        self.width, self.height = width, height
        self.tft = Tft()


class FontLoader:
    def get(self, path):
        return "font:" + path


class Port:
    """Byte stream in both directions. max_chunk limits what one read returns."""

    def __init__(self, max_chunk=None):
        self.inq = bytearray()
        self.out = bytearray()
        self.max_chunk = max_chunk

    def read(self, n):
        if self.max_chunk:
            n = min(n, self.max_chunk)
        r = bytes(self.inq[:n])
        del self.inq[:n]
        return r or None

    def write(self, buf, n=None):
        self.out += bytes(buf if n is None else buf[:n])


class BadStream(Exception):
    pass


def parse_stream(data):
    """Independent parser of a complete MIDI byte stream -> list of tuples. Rejects malformed output."""
    r, i, n = [], 0, len(data)
    while i < n:
        b = data[i]
        if b == 0xF0:
            j = i + 1
            while j < n and data[j] < 0x80:
                j += 1
            if j >= n or data[j] != 0xF7:
                raise BadStream("unterminated or corrupted SysEx: %s" % data[i:j + 1].hex(" "))
            r.append(("sx",) + tuple(data[i + 1:j]))
            i = j + 1
            continue
        k = b & 0xF0
        ln = {0x80: 3, 0x90: 3, 0xA0: 3, 0xB0: 3, 0xC0: 2, 0xD0: 2, 0xE0: 3}.get(k)
        if b >= 0xF8:
            r.append(("rt", b))
            i += 1
            continue
        if ln is None:
            raise BadStream("unexpected byte 0x%02x in outgoing stream %s" % (b, data.hex(" ")))
        m = data[i:i + ln]
        if len(m) != ln or any(x > 127 for x in m[1:]):
            raise BadStream("malformed message in outgoing stream: %s" % bytes(m).hex(" "))
        if k == 0xB0:
            r.append(("cc", m[1], m[2]))
        elif k == 0xC0:
            r.append(("pc", m[1]))
        else:
            r.append(("ch", b) + tuple(m[1:]))
        i += ln
    return r


def cc(c, v, ch=0):
    return bytes([0xB0 | ch, c, v])


def pc(p, ch=0):
    return bytes([0xC0 | ch, p])


def sx(*data):
    return bytes([0xF0]) + bytes(data) + bytes([0xF7])


# Kemper wire format (from the published Kemper MIDI documentation, independent of the code)
MAN = (0x00, 0x20, 0x33)


def k_single(page, num, value, head=(0, 0)):
    """Device -> controller: single parameter value."""
    return sx(*MAN, *head, 0x01, 0x00, page, num, value >> 7, value & 0x7F)


def k_string(page, num, text, head=(0, 0)):
    return sx(*MAN, *head, 0x03, 0x00, page, num, *[ord(c) for c in text], 0)


def k_sense(head=(0, 0)):
    return sx(*MAN, *head, 0x7E, 0x00, 0x7F)


def k_req_single(page, num):
    return ("sx",) + MAN + (0x02, 0x7F, 0x41, 0x00, page, num)


def k_req_string(page, num):
    return ("sx",) + MAN + (0x02, 0x7F, 0x43, 0x00, page, num)


def k_beacon(flags, lease, pset=2):
    return ("sx",) + MAN + (0x02, 0x7F, 0x7E, 0x00, 0x40, pset, flags, lease)


class Splash:
    """Plain splash callback holding one root element."""

    def __init__(self, root):
        self.root = root

    def init(self, appl, listener=None):
        pass

    def get_root(self):
        return self.root


class App:
    """A running application. inputs: list of (hardware model, definition dict without assignment)."""

    def __init__(self, inputs, config=None, protocol=None, root=None, splash=None, in_buf=100, ui=True,
                 led_pixels=3, pixels=None, midi=None, strobe_orders=None):
        Controller = env.mod("controller.controller").Controller
        midi_m = env.mod("controller.midi")
        self.port = Port()
        if midi is None:
            dev_m = env.mod("hardware.adafruit.AdafruitUsbMidiDevice")
            self.dev = dev_m.AdafruitUsbMidiDevice(port_in=self.port, port_out=self.port, in_buf_size=in_buf)
            midi = midi_m.MidiController([
                midi_m.MidiRouting(source=self.dev, target=midi_m.MidiRouting.APPLICATION),
                midi_m.MidiRouting(source=midi_m.MidiRouting.APPLICATION, target=self.dev)])
        self.midi = midi
        self.leds = Leds()
        self.hw = []
        defs = []
        nxt = 0
        for idx, (hw, d) in enumerate(inputs):
            a = {"model": hw}
            if isinstance(hw, Switch):
                if pixels is not None:
                    a["pixels"] = pixels[idx]
                else:
                    a["pixels"] = tuple(range(nxt, nxt + led_pixels))
                    nxt += led_pixels
                if strobe_orders:
                    a["strobeOrder"] = strobe_orders[idx]
            self.hw.append(hw)
            dd = dict(d)
            dd["assignment"] = a
            defs.append(dd)
        self.display = DisplayDriver()
        self.ui = None
        if root is not None or splash is not None:
            UiController = env.mod("ui.UiController").UiController
            self.ui = UiController(self.display, FontLoader(), splash or Splash(root))
        self.ctl = Controller(led_driver=self.leds, midi=self.midi, protocol=protocol, config=config or {},
                              inputs=defs, ui=self.ui)
        self.ctl.init()

    # --- stimuli
    def tick(self, dt=1):
        Clock.advance(dt)
        if self.ctl.tick() is not True:
            raise AssertionError("tick() ended the processing loop")

    def update(self):
        """One tick with the update interval elapsed."""
        self.tick(self.ctl.period.interval + 1)

    def press(self, i, tick=True):
        self.hw[i].pushed = True
        if tick:
            self.tick()

    def release(self, i, tick=True):
        self.hw[i].pushed = False
        if tick:
            self.tick()

    def tap(self, i):
        self.press(i)
        self.release(i)

    def feed(self, *msgs):
        for m in msgs:
            self.port.inq += m

    def recv(self, *msgs):
        """Feed messages and tick until they are consumed."""
        self.feed(*msgs)
        for _ in range(2 + sum(len(m) for m in msgs)):
            self.tick()
            if not self.port.inq:
                break
        self.tick()

    # --- observation
    def sent(self):
        data = bytes(self.port.out)
        self.port.out = bytearray()
        return parse_stream(data)

    def led(self, i, n=3):
        return self.leds.leds[i * n:(i + 1) * n]


def flat(g, x=0, y=0):
    """All drawn things in drawing order with absolute position."""
    r = []
    for c in g.content:
        if isinstance(c, env.Group):
            r += flat(c, x + c.x, y + c.y)
        else:
            r.append((c, x, y))
    return r
