"""C17: encoder steps, preselection, accept and cancel; C18 covers the display."""
from mc.explore import bfs
from checks.enc import Enc

BOUNDS = {"quick": "one and two encoders (CC, CC with response, polled NRPN), step widths 0.5/1/3/80, ranges, initial values, accept/cancel "
                   "buttons, reset parameters, enable changes: every order of turns, device side changes, button presses and updates to depth 6",
          "thorough": "same, depth 8"}
ASSUMPTIONS = ["the value of a parameter which has never been received counts as 0 for encoders setting it directly",
               "fractional step widths truncate the scaled position towards zero (pinned by the existing tests)"]


def tasks(tier):
    th = tier == "thorough"
    d = 8 if th else 6
    r = []

    def add(depth=None, **cfg):
        r.append((bfs, ("encoder", Enc, cfg, depth or d), {"time_limit": 400 if th else 60}))
    for pos in (10, 0, -1):
        add(encs=[{"kind": "cc", "pos": pos, "kw": {"max_value": 5}}])
        add(encs=[{"kind": "ccr", "pos": pos, "init": 2, "kw": {"max_value": 5}}], vals=(0, 3, 5))
    add(encs=[{"kind": "ccr", "kw": {"max_value": 6, "min_value": 2}}], vals=(0, 3, 6, 7))
    add(encs=[{"kind": "cc", "kw": {}}], turns=(1, -1, 200, -120))
    add(encs=[{"kind": "ccr", "pos": 2, "init": 3, "kw": {"step_width": 0.5}}], vals=(0, 126))
    add(encs=[{"kind": "ccr", "init": 3, "kw": {"step_width": 3, "max_value": 10}}], vals=(0, 9))
    add(encs=[{"kind": "nrpn", "init": 8000}], vals=(0, 16300, 8080))
    add(encs=[{"kind": "nrpn", "kw": {"max_value": 1000}}], vals=(0, 950))
    add(encs=[{"kind": "cc", "en": 1, "kw": {"max_value": 9}}])
    add(encs=[{"kind": "ccr", "en": 1, "init": 4, "kw": {"max_value": 9}}], vals=(2,))
    # preselection
    for init in (0, 3):
        add(encs=[{"kind": "ccr", "init": init, "accept": 0, "kw": {"max_value": 9}}], buttons=1, vals=(0, 5))
    add(encs=[{"kind": "ccr", "init": 4, "accept": 0, "cancel": 1, "kw": {"max_value": 9}}], buttons=2, vals=(0,))
    add(encs=[{"kind": "nrpn", "init": 800, "accept": 0, "cancel": 1, "preview": 1, "reset": 1}], buttons=2, vals=(0,), resets=1, depth=d - 1)
    add(encs=[{"kind": "ccr", "init": 4, "accept": 0, "cancel": 2, "kw": {"max_value": 9}},
              {"kind": "ccr", "init": 6, "accept": 1, "cancel": 2, "kw": {"max_value": 9}}], buttons=3, turns=(1, -3), depth=d - 2)
    add(encs=[{"kind": "ccr", "init": 4, "accept": 0, "en": 1, "kw": {"max_value": 9}}], buttons=1)
    return r
