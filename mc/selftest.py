"""Sanity of the framework itself: explorer finds a planted toy violation, the environment restores state."""
from . import env, rig
from .explore import Sys, Violation, bfs


class Toy(Sys):
    def __init__(self, cfg):
        self.x = 0
        self.bad = cfg

    def roots(self):
        return self.x

    def events(self):
        return [1, 2]

    def step(self, e):
        self.x = (self.x * 2 + e) % 11
        if self.x == self.bad:
            raise Violation("reached")


def main():
    r = bfs("toy", Toy, 99, 20)
    assert not r.violations and r.fixpoint and r.states == 11 - 0 or r.states > 5, r.states
    r = bfs("toy", Toy, 7, 20)
    assert len(r.violations) == 1
    env.fresh()
    app = rig.App([(rig.Switch(), {"actions": []})])
    app.update()
    assert rig.parse_stream(rig.cc(1, 2) + rig.pc(3) + rig.k_single(1, 2, 300)) == [
        ("cc", 1, 2), ("pc", 3), ("sx", 0, 32, 51, 0, 0, 1, 0, 1, 2, 2, 44)]
    print("selftest ok")


if __name__ == "__main__":
    main()
