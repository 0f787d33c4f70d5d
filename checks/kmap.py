"""Parameter address table of the Kemper, written down independently of the code
(Kemper MIDI parameter documentation), as wire level messages."""
from mc import env
from mc.rig import MAN

SLOTS = ["A", "B", "C", "D", "X", "MOD", "DLY", "REV", "DLYns", "REVns"]
SLOT_CC = [17, 18, 19, 20, 22, 24, 27, 29, 26, 28]
SLOT_PAGE = [50, 51, 52, 53, 56, 58, 60, 61, 60, 61]
SLOT_FREEZE = [107, 108, 109, 110, 111, 113, 114, 115, 114, 115]


def table():
    """name -> (factory, set, answer): set = ('cc',n) | ('nrpn',page,num) | ('pc',) | None;
    ask = ('single',page,num) | ('string',id) | None;
    answer = ('single',page,num) | ('string',id) | ('cc', n) | ('rig',) | None"""
    K = env.mod("clients.kemper").KemperMappings
    m = lambda n: env.mod("clients.kemper.mappings." + n)
    t = {}

    def add(name, f, s, ask, ans):
        t[name] = (f, s, ask, ans)

    for i, n in enumerate(SLOTS):
        pg = SLOT_PAGE[i]
        add("state " + n, lambda i=i: K.EFFECT_STATE(i), ("cc", SLOT_CC[i]), ("single", pg, 3), ("single", pg, 3))
        add("type " + n, lambda i=i: K.EFFECT_TYPE(i), None, ("single", pg, 0), ("single", pg, 0))
        add("mix " + n, lambda i=i: m("effects").MAPPING_DLY_REV_MIX(i), ("nrpn", pg, 69), ("single", pg, 69), ("single", pg, 69))
        add("rotary " + n, lambda i=i: m("rotary").MAPPING_ROTARY_SPEED(i), ("nrpn", pg, 30), ("single", pg, 30), ("single", pg, 30))
        add("freeze " + n, lambda i=i: m("freeze").MAPPING_FREEZE(i), ("nrpn", 125, SLOT_FREEZE[i]),
            ("single", 125, SLOT_FREEZE[i]), ("single", 125, SLOT_FREEZE[i]))
    add("freeze all", lambda: m("freeze").MAPPING_FREEZE_ALL_GLOBAL(), ("cc", 35), None, ("cc", 35))
    add("rig name", lambda: K.RIG_NAME(), None, ("string", 1), ("string", 1))
    add("rig date", lambda: K.RIG_DATE(), None, ("string", 3), ("string", 3))
    add("rig comment", lambda: m("rig").MAPPING_RIG_COMMENT(), None, ("string", 4), ("string", 4))
    add("amp name", lambda: m("amp").MAPPING_AMP_NAME(), None, ("string", 16), ("string", 16))
    add("cab name", lambda: m("cabinet").MAPPING_CABINET_NAME(), None, ("string", 32), ("string", 32))
    add("tuner mode", lambda: K.TUNER_MODE_STATE(), ("cc", 31), None, ("single", 127, 126))
    add("tuner note", lambda: K.TUNER_NOTE(), None, None, ("single", 125, 84))
    add("tuner deviance", lambda: K.TUNER_DEVIANCE(), None, None, ("single", 124, 15))
    add("rig id", lambda: K.RIG_ID(), None, None, ("rig",))
    for name, f, pg, num in [("amp state", lambda: m("amp").MAPPING_AMP_STATE(), 10, 2),
                             ("amp gain", lambda: m("amp").MAPPING_AMP_GAIN(), 10, 4),
                             ("cab state", lambda: m("cabinet").MAPPING_CABINET_STATE(), 12, 2),
                             ("rig volume", lambda: m("rig").MAPPING_RIG_VOLUME(), 4, 1),
                             ("rig transpose", lambda: m("rig").MAPPING_RIG_TRANSPOSE(), 4, 4),
                             ("bpm", lambda: m("tempo_bpm").MAPPING_TEMPO_BPM(), 4, 0),
                             ("main volume", lambda: m("system").MAPPING_MAIN_VOLUME(), 127, 0),
                             ("monitor volume", lambda: m("system").MAPPING_MONITOR_VOLUME(), 127, 2),
                             ("looper volume", lambda: m("system").MAPPING_LOOPER_VOLUME(), 127, 52),
                             ("space intensity", lambda: m("system").MAPPING_SPACE_INTENSITY(), 127, 36),
                             ("fixed transpose", lambda: m("fixed_fx").MAPPING_FIXED_TRANSPOSE(), 5, 1),
                             ("fixed gate", lambda: m("fixed_fx").MAPPING_FIXED_GATE(), 5, 6),
                             ("fixed comp", lambda: m("fixed_fx").MAPPING_FIXED_COMP(), 5, 11),
                             ("fixed boost", lambda: m("fixed_fx").MAPPING_FIXED_BOOST(), 5, 16),
                             ("fixed wah", lambda: m("fixed_fx").MAPPING_FIXED_WAH(), 5, 21),
                             ("fixed chorus", lambda: m("fixed_fx").MAPPING_FIXED_CHORUS(), 5, 26),
                             ("fixed air", lambda: m("fixed_fx").MAPPING_FIXED_AIR(), 5, 36),
                             ("fixed dbl", lambda: m("fixed_fx").MAPPING_FIXED_DBL_TRACKER(), 5, 41)]:
        add(name, f, ("nrpn", pg, num), ("single", pg, num), ("single", pg, num))
    for name, f, num in [("loop rec", "REC_PLAY_OVERDUB", 88), ("loop stop", "STOP", 89), ("loop trigger", "TRIGGER", 90),
                         ("loop reverse", "REVERSE", 91), ("loop half", "HALF_SPEED", 92), ("loop cancel", "CANCEL", 93),
                         ("loop erase", "ERASE", 94)]:
        add(name, lambda f=f: getattr(m("looper"), "MAPPING_LOOPER_" + f)(), ("nrpn", 125, num), None, None)
    for name, f, c in [("wah pedal", "WAH_PEDAL", 1), ("pitch pedal", "PITCH_PEDAL", 4), ("volume pedal", "VOLUME_PEDAL", 7),
                       ("delay mix", "DELAY_MIX_PEDAL", 68), ("delay feedback", "DELAY_FEEDBACK_PEDAL", 69),
                       ("reverb mix", "REVERB_MIX_PEDAL", 70), ("reverb time", "REVERB_TIME_PEDAL", 71),
                       ("output volume", "VOLUME_OUTPUT_PEDAL", 73)]:
        add(name, lambda f=f: getattr(m("pedals"), "MAPPING_" + f)(), ("cc", c), None, None)
    for i in range(4):
        add("effect button %d" % (i + 1), lambda i=i: m("effects").MAPPING_EFFECT_BUTTON(i + 1), ("cc", 75 + i), None, None)
    add("morph button", lambda: m("morph").MAPPING_MORPH_BUTTON(), ("cc", 80), ("single", 0, 11), ("single", 0, 11))
    add("morph pedal", lambda: m("morph").MAPPING_MORPH_PEDAL(), ("cc", 11), ("single", 0, 11), ("single", 0, 11))
    add("tap", lambda: m("tempo").MAPPING_TAP_TEMPO(), ("cc", 30), None, None)
    add("tempo pulse", lambda: m("tempo").MAPPING_TEMPO_DISPLAY(), None, None, ("single", 124, 0))
    add("bank up", lambda: m("bank").MAPPING_NEXT_BANK(), ("cc", 48), None, ("rig",))
    add("bank down", lambda: m("bank").MAPPING_PREVIOUS_BANK(), ("cc", 49), None, ("rig",))
    add("bank select", lambda: m("select").MAPPING_BANK_SELECT(), ("cc", 47), None, ("rig",))
    for i in range(5):
        add("rig select %d" % i, lambda i=i: m("select").MAPPING_RIG_SELECT(i), ("cc", 50 + i), None, ("rig",))
    add("program change", lambda: env.mod("clients.local.mappings.generic").MAPPING_SEND_PROGRAM_CHANGE(), ("pc",), None, None)
    return t


def set_wire(s, v):
    if s[0] == "cc":
        return ("cc", s[1], v)
    if s[0] == "pc":
        return ("pc", v)
    return ("sx",) + MAN + (2, 127, 1, 0, s[1], s[2], v >> 7, v & 127)


def ask_wire(a):
    if a[0] == "single":
        return ("sx",) + MAN + (2, 127, 0x41, 0, a[1], a[2])
    return ("sx",) + MAN + (2, 127, 0x43, 0, 0, a[1])
