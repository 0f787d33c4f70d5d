"""C13: rig and bank navigation."""
from mc.explore import bfs, enumerate_cases
from checks.nav import Nav, NB, NR, CUR, TGT

BOUNDS = {"quick": "rig/bank select, up and down with every option combination relevant for the target, each from all 625 rigs (press, "
                   "release, press, release); combinations of 2-3 switches with presses, releases and rig changes at the device in every "
                   "order to depth 5-6",
          "thorough": "same, depth 8"}
ASSUMPTIONS = ["the simulated device applies bank preselection, rig selection and bank steps as the Kemper MIDI documentation says and "
               "announces every loaded rig"]

SINGLE = []
for _m in (CUR, TGT):
    for _kw in ({"rig": 1}, {"rig": 4}, {"rig": 2, "rig_off": 5}, {"rig": 2, "rig_off": "auto"}, {"rig": 3, "rig_off": "auto", "auto_exclude_rigs": (1, 2)},
                {"rig": 1, "bank": 1}, {"rig": 5, "bank": 125}, {"rig": 2, "bank": 7, "rig_off": 3, "bank_off": 60}, {"rig": None, "bank": 30},
                {"rig": 2, "bank": 7, "rig_off": "auto", "bank_off": "auto"}, {"rig": 2, "bank": 7, "bank_off": 9}, {"rig": None},
                {"rig": 2, "bank": 7, "rig_off": 2, "bank_off": "auto"}):
        SINGLE.append(("RIG_SELECT", dict(_kw, display_mode=_m)))
    for _kw in ({}, {"keep_bank": False}):
        SINGLE += [("RIG_UP", dict(_kw, display_mode=_m)), ("RIG_DOWN", dict(_kw, display_mode=_m))]
    SINGLE += [("BANK_UP", {"display_mode": _m}), ("BANK_DOWN", {"display_mode": _m, "dim_factor": "on", "led_brightness": "on"})]
    SINGLE += [("BANK_SELECT", {"bank": b, "bank_off": o, "display_mode": _m}) for b, o in ((1, None), (125, 3), (3, 3))]
    for _n, _k in (("RIG_SELECT", {"rig": 2}), ("RIG_UP", {}), ("BANK_UP", {}), ("BANK_SELECT", {"bank": 4})):
        SINGLE += [(_n, dict(_k, display_mode=_m, text="T")), (_n, dict(_k, display_mode=_m, text_callback=1)),
                   (_n, dict(_k, display_mode=_m, color=(10, 90, 200))), (_n, dict(_k, display_mode=_m, color_callback=1))]
SINGLE += [("BANK_UP", {"dim_factor": 0.5, "led_brightness": 0.7})]
CONF = {"ledBrightnessOn": 0.8, "ledBrightnessOff": 0.1, "displayDimFactorOn": 0.9, "displayDimFactorOff": 0.4}

MULTI = [
    {"acts": [("RIG_SELECT", {"rig": 1, "display_mode": TGT}), ("RIG_SELECT", {"rig": 2, "rig_off": "auto", "display_mode": TGT})], "name": {}},
    {"acts": [("RIG_UP", {"keep_bank": False}), ("RIG_DOWN", {"keep_bank": False})], "name": {"show_rig_id": True}, "dev": (0, 4, 624)},
    {"acts": [("RIG_SELECT", {"rig": 2, "bank": 3, "rig_off": "auto", "bank_off": "auto", "display_mode": TGT}), ("RIG_UP", {})],
     "name": {"show_rig_id": "bank"}, "dev": (7, 11, 624)},
    {"acts": [("BANK_UP", {}), ("BANK_DOWN", {"display_mode": TGT}), ("RIG_SELECT", {"rig": 5})], "name": {"show_name": False, "show_rig_id": True}},
    {"acts": [("BANK_SELECT", {"bank": 2, "bank_off": 5, "display_mode": TGT}), ("RIG_SELECT", {"rig": None, "bank": 3}), ("RIG_DOWN", {})],
     "name": {"show_name": False, "show_rig_id": "rig"}},
    {"acts": [("BANK_SELECT", {"bank": 1}), ("BANK_SELECT", {"bank": 2, "display_mode": TGT}), ("BANK_UP", {"display_mode": TGT})]},
]


def tasks(tier):
    th = tier == "thorough"
    r = []
    full = [(("sw", 0), ("sw", 0), ("sw", 0), ("sw", 0))]
    for i, (n, kw) in enumerate(SINGLE):
        r.append((allrigs, ("nav-single", [(n, kw)], CONF if i % 3 == 1 else {}, 1 if th else (1 if "rig_off" in kw or n[:3] == "RIG" and "keep_bank" in kw else 5)), {}))
    for c in MULTI:
        for start in (None, 0, 6, 624):
            r.append((bfs, ("nav-multi", Nav, dict({"dev": (0, 9, 624), "start": start}, **c), 7 if th else 5), {"time_limit": 60 if not th else 300}))
    return r


def allrigs(name, acts, conf, stride):
    from mc.explore import Result
    res = Result()
    # all banks for every rig position; neighbours and ends always
    for start in range(NB * NR):
        if stride > 1 and 15 < start < 605 and (start // NR) % stride:
            continue
        res.merge(enumerate_cases(name, Nav, {"acts": acts, "start": start, "conf": conf}, [(("sw", 0), ("sw", 0), ("sw", 0), ("sw", 0))]))
        if res.violations:
            break
    return res
