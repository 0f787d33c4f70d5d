"""C18: previews of adjusted values on a display label."""
from mc.explore import bfs
from checks.enc import Enc

BOUNDS = {"quick": "one and two encoders (direct and with accept/cancel buttons) sharing a display, timeouts 1500/400/none, converted texts, "
                   "automatic text colour: every order of turns, buttons, changes of the label's own content, reset parameter changes, waiting to depth 6",
          "thorough": "same, depth 7-8"}
ASSUMPTIONS = ["the preview label gets its normal text from a callback (like the rig name label)"]


def tasks(tier):
    th = tier == "thorough"
    d = 7 if th else 5
    r = []

    def add(depth=0, **cfg):
        cfg.setdefault("idle", (201, 1501))
        r.append((bfs, ("preview", Enc, dict(cfg, content=1), d + depth), {"time_limit": 400 if th else 80}))
    P = {"kind": "cc", "preview": 1}
    for to in (1500, 400, None, 0):
        add(1, encs=[dict(P, kw={"max_value": 9, "preview_timeout_millis": to})], turns=(1, -1))
    add(1, encs=[dict(P, kw={"convert_value": 1})], turns=(3, -1), textcolor=False)
    for to in (1500, None):
        add(encs=[dict(P, kind="ccr", init=4, accept=0, cancel=1, reset=1, kw={"max_value": 9, "preview_timeout_millis": to})], buttons=2, turns=(1, -1), resets=1)
    add(encs=[dict(P, kind="ccr", init=4, accept=0, kw={"max_value": 9, "convert_value": 1})], buttons=1, turns=(3, -1), textcolor=False)
    add(encs=[dict(P, kw={"max_value": 9}), dict(P, kw={"max_value": 5, "convert_value": 1})], turns=(1, -1))
    add(encs=[dict(P, kind="ccr", init=4, accept=0, kw={"max_value": 9}), dict(P, kw={"max_value": 5})], buttons=1, turns=(2, -1))
    add(encs=[dict(P, kind="ccr", init=4, accept=0, cancel=2, kw={"max_value": 9}), dict(P, kind="ccr", init=1, accept=1, cancel=2, kw={"max_value": 5})], buttons=3, turns=(2,))
    add(encs=[dict(P, kind="ccr", init=4, accept=0, cancel=0, kw={"max_value": 9}), {"kind": "cc"}], buttons=1, turns=(2,)) if False else None
    return r
