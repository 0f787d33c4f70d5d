"""Canonical form of an object graph: equal forms <=> same shape, same contents, timestamps
taken relative to the current clock. Independent of how the code names its attributes."""
import types
from array import array
from hashlib import blake2b
from .env import Clock, TIME_MIN

TIME_CAP = 20_000


def canon(roots, ignore_types=()):
    out = []
    ids = {}
    now = Clock.now
    w = out.append
    stack = [roots]
    pop = stack.pop
    # explicit pre-order walk; tuples ("end",) mark nothing, lengths make the form unambiguous
    while stack:
        o = pop()
        t = type(o)
        if t is int:
            if o > TIME_MIN:
                d = now - o
                w("T%d" % (d if d < TIME_CAP else TIME_CAP))
            else:
                w("i%d" % o)
            continue
        if t is str:
            w("s%d:" % len(o)); w(o)
            continue
        if o is None or t is bool:
            w("N" if o is None else ("1" if o else "0"))
            continue
        if t is float:
            if o > TIME_MIN:
                w("TF%r" % min(now - o, TIME_CAP))
            else:
                w("f%r" % o)
            continue
        if t is bytes:
            w("b" + o.hex())
            continue
        if t is tuple:
            w("t%d" % len(o))
            stack.extend(reversed(o))
            continue
        if isinstance(o, (types.ModuleType, types.BuiltinFunctionType, types.CodeType)):
            w("M" + getattr(o, "__name__", "?"))
            if isinstance(o, types.BuiltinFunctionType) and o.__self__ is not None \
                    and not isinstance(o.__self__, types.ModuleType):
                stack.append(o.__self__)
            continue
        if isinstance(o, type):
            w("C" + o.__module__ + "." + o.__qualname__)
            continue
        if ignore_types and isinstance(o, ignore_types):
            w("IGN")
            continue
        k = ids.get(id(o))
        if k is not None:
            w("@%d" % k)
            continue
        ids[id(o)] = len(ids)
        if t is types.MethodType:
            w("m" + o.__func__.__qualname__)
            stack.append(o.__self__)
        elif isinstance(o, list):
            w("l%d" % len(o))
            stack.extend(reversed(o))
        elif isinstance(o, dict):
            w("d%d" % len(o))
            for kk, v in o.items():
                stack.append(v)
                stack.append(kk)
        elif isinstance(o, (set, frozenset)):
            w("S%d" % len(o))
            stack.extend(sorted(o, key=repr))
        elif isinstance(o, (bytearray,)):
            w("B" + o.hex())
        elif isinstance(o, array):
            w("A" + repr(o))
        elif t is types.FunctionType:
            w("F" + o.__qualname__)
            if o.__closure__:
                for c in reversed(o.__closure__):
                    try:
                        stack.append(c.cell_contents)
                    except ValueError:
                        w("empty")
            if o.__defaults__:
                stack.append(o.__defaults__)
        elif isinstance(o, types.GeneratorType):
            w("G%d" % o.gi_frame.f_lasti if o.gi_frame else "Gx")
        else:
            w("o" + t.__module__ + "." + t.__qualname__)
            d = getattr(o, "__dict__", None)
            if d:
                for kk in d:
                    stack.append(d[kk])
                    stack.append(kk)
            for s in getattr(t, "__slots__", ()) or ():
                if isinstance(s, str) and hasattr(o, s):
                    stack.append(getattr(o, s))
    return blake2b("|".join(out).encode("utf-8", "surrogatepass"), digest_size=16).digest()
