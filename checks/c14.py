"""C14: bank preselection."""
from mc.explore import bfs
from checks.nav import Nav, NB, NR, CUR, TGT

BOUNDS = {"quick": "combinations of 1-3 preselecting and rig selecting switches and the bank encoder: presses, releases, encoder turns, "
                   "rig changes at the device and waiting (blinking) in every order to depth 4-5, started from several rigs",
          "thorough": "same, depth 6-7"}
ASSUMPTIONS = ["the simulated device keeps a preselected bank until a rig is selected by MIDI, also when the rig is changed at the device",
               "bank steps by CC 48/49 and different kinds of preselecting inputs (encoder and switches) are not mixed with a pending "
               "preselection: the device's behaviour is not documented there",
               "a bank preselected while it is already the current one is not shown as pending (documented); the rig is not changed at the "
               "device to another bank in that state"]

UP = ("BANK_UP", {"preselect": True})
DN = ("BANK_DOWN", {"preselect": True, "display_mode": TGT, "text_callback": 1})
CONFIGS = [
    {"acts": [UP, ("RIG_SELECT", {"rig": 1, "display_mode": TGT})], "name": {}},
    {"acts": [UP, DN, ("RIG_SELECT", {"rig": 3, "rig_off": "auto", "display_mode": TGT})], "name": {"show_rig_id": True}},
    {"acts": [("BANK_UP", {"preselect": True, "max_bank": 3, "led_brightness": "on", "display_mode": TGT}),
              ("BANK_DOWN", {"preselect": True, "max_bank": 3}), ("RIG_SELECT", {"rig": None, "display_mode": TGT})],
     "name": {"show_name": False, "show_rig_id": "bank"}},
    {"acts": [("BANK_SELECT", {"bank": 1, "preselect": True, "display_mode": TGT}), ("BANK_SELECT", {"bank": 3, "preselect": True, "display_mode": TGT}),
              ("RIG_SELECT", {"rig": 2, "display_mode": TGT})], "name": {}},
    {"acts": [("BANK_SELECT", {"bank": 2, "preselect": True}), UP, ("RIG_SELECT", {"rig": 2, "bank": 9, "rig_off": 4, "bank_off": 8, "display_mode": TGT})],
     "name": {}},
    {"acts": [UP, ("RIG_UP", {}), ("RIG_SELECT", {"rig": 5, "bank": 9})], "name": {"show_rig_id": True}},
    {"acts": [UP, ("RIG_DOWN", {"keep_bank": False}), ("RIG_SELECT", {"rig": 5})], "name": {}},
    {"acts": [DN, ("BANK_SELECT", {"bank": 6}), ("BANK_SELECT", {"bank": 1, "bank_off": 4})], "name": {}},
    {"acts": [("RIG_SELECT", {"rig": 1, "display_mode": TGT}), ("RIG_SELECT", {"rig": None, "display_mode": TGT})], "encoder": {}, "pos": 100, "turns": (2, -2), "name": {}},
    {"acts": [("BANK_SELECT", {"bank": 2}), ("RIG_UP", {})], "encoder": {"step_width": 1}, "pos": 0, "turns": (1, -1), "name": {"show_rig_id": True}},
    {"acts": [("RIG_SELECT", {"rig": 4, "bank": 2})], "encoder": {"step_width": 7}, "pos": 3, "turns": (1, -2), "name": {"show_name": False, "show_rig_id": "rig"}},
]


def tasks(tier):
    th = tier == "thorough"
    r = []
    for c in CONFIGS:
        for start in (None, 0, 7, 624):
            if start == 624 and any(kw.get("max_bank") for _, kw in c["acts"]):
                continue
            r.append((bfs, ("preselect", Nav, dict({"dev": (0, 624) if not any(kw.get("max_bank") for _, kw in c["acts"]) else (0, 14), "start": start}, **c),
                            7 if th else 5), {"time_limit": 200 if not th else 400}))
    return r
