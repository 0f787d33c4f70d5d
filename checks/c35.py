"""C35: the web configurator saves what was loaded, with exactly the requested edit."""
import ast
import builtins
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import types
from mc import env
from mc.explore import Sys, Violation, enumerate_cases
from checks import fw

BOUNDS = {
    "quick": "49 shipped configurations: opened and saved; 7 hand written files in the style of the documentation and others: saved and every single edit; single edits (add, replace, remove, move, reorder, "
             "change a parameter, hold options, labels) everywhere in the default configuration, at every used input in 3 others, every 4th or 5th of them in the rest; dependent sequences of three edits (pagers and actions on "
             "their pages, encoders and their buttons, new labels) in 4 configurations",
    "thorough": "all single edits of all 49 configurations, all dependent sequences at all switches in the default configuration, all pairs of 66 edits of the default configuration",
}
ASSUMPTIONS = [
    "The classes of the web application's model run in node, without its pages: the steps of the editor (which list of actions is handed over for adding, moving etc.) are those of ParserFrontendInput and DisplayEditor, written down in webdrv.js.",
    "The Python parser runs in CPython 3.12 with the libcst of the sandbox instead of Pyodide, in a file system which holds just the files PySwitchRunner.js loads.",
    "Actions which are not written as a call or name of a call (unpacked lists, conditional expressions) can't be edited and are not generated; comments inside Inputs and Splashes are not kept.",
    "Edits after which the configuration can't work by itself (removing a pager others use) are not generated.",
]
DRV = os.path.join(os.path.dirname(os.path.abspath(__file__)), "webdrv.js")
WEB = os.path.join(fw.ROOT, "web/htdocs")
LIBCST = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


# ---------------------------------------------------------------- what a configuration means: all its objects, from executing it
class Node:
    """Something a configuration file has made (any operation on it is recorded)."""

    def __init__(self, kind, *a):
        self.__dict__.update(kind=kind, a=a)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Node("get", self, n)

    def __call__(self, *a, **kw):
        return Node("call", self, list(a), kw)

    def __getitem__(self, i):
        return Node("op", "[]", self, i)

    def __mro_entries__(self, bases):
        return (Made,)

    def __str__(self):
        return "<%s>" % (self.a[-1],)

    def __iter__(self):
        raise TypeError("not iterable here")

    def __bool__(self):
        return True


class _Made(type):
    def __call__(cls, *a, **kw):
        return Node("call", cls, list(a), kw)


class Made(metaclass=_Made):
    """Base of the classes which a configuration defines: instances are recorded, not made"""


def _op(n):
    return lambda self, *o: Node("op", n, self, *o)


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "and", "or", "rand", "ror", "lshift", "rshift", "neg", "invert", "lt", "gt", "le", "ge"):
    setattr(Node, "__%s__" % _n, _op(_n))

_defs = {}


def module_file(name):
    p = os.path.join(fw.CONTENT, "lib", name.replace(".", "/"))
    for f in (p + ".py", p + "/__init__.py"):
        if os.path.exists(f):
            return f


def names(name):
    """name -> module where it is defined, for everything at the top level of a library module"""
    if name not in _defs:
        r, f = {}, module_file(name)
        _defs[name] = r
        if f:
            pkg = name if f.endswith("__init__.py") else name.rpartition(".")[0]
            with open(f, encoding="utf-8") as h:
                t = ast.parse(h.read())
            for st in t.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    r[st.name] = name
                elif isinstance(st, ast.Assign):
                    for x in ast.walk(st):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            r[x.id] = name
                elif isinstance(st, ast.ImportFrom):
                    m = st.module or ""
                    if st.level:
                        base = pkg.split(".")
                        base = base[:len(base) - st.level + 1]
                        m = ".".join(base + ([m] if m else []))
                    for x in st.names:
                        if x.name == "*":
                            r.update(names(m))
                        else:
                            r[x.asname or x.name] = names(m).get(x.name, m)
    return _defs[name]


class Stub:
    def __init__(self, name, display):
        self.__dict__["_name"] = name
        self.__dict__["_display"] = display
        self.__dict__["__all__"] = [n for n in (list(display) if name == "display" and display else names(name)) if not n.startswith("_")]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        m = self._name
        if m == "display" and self._display is not None:
            if n not in self._display:
                raise ImportError("cannot import name %s from display" % n)
            return self._display[n]
        if module_file(m) and n not in names(m):
            if module_file(m + "." + n):
                return Stub(m + "." + n, self._display)
            raise ImportError("cannot import name %s from %s" % (n, m))
        return Node("ref", names(m).get(n, m), n)


def execute(src, display=None):
    """Namespace of an executed configuration file"""
    b = dict(vars(builtins))

    def imp(name, g=None, l=None, fromlist=(), level=0):
        if fromlist or "." not in name:
            return Stub(name, display)
        return Stub(name.partition(".")[0], display)
    b["__import__"] = imp
    b["__build_class__"] = lambda f, name, *bases, **kw: builtins.__build_class__(f, name, *(bases or (Made,)), **kw)
    ns = {"__builtins__": b, "__name__": "config"}
    exec(compile(src, "config", "exec"), ns)
    return ns


def code_of(c):
    return ("code", c.co_code.hex(), tuple(code_of(x) if isinstance(x, types.CodeType) else repr(x) for x in c.co_consts), c.co_names, c.co_varnames, c.co_freevars)


def meaning(x, memo=None):
    """What a value is made of, independent of how the source is written; the same object used twice stays the same object."""
    memo = {} if memo is None else memo
    if isinstance(x, Node):
        k = x.kind
        if k == "ref":
            return ("ref",) + x.a
        if id(x) in memo and k == "call":
            return ("same", memo[id(x)])
        if k == "call":
            memo[id(x)] = len(memo)
            f, a, kw = x.a
            fn = meaning(f, memo)
            kw = dict(kw)
            if fn[0] == "ref" and fn[2] == "DisplayBounds":
                kw.update(zip("xywh", a))
                a = []
            return ("call", memo[id(x)], fn, tuple(meaning(y, memo) for y in a), tuple((n, meaning(kw[n], memo)) for n in sorted(kw)))
        return (k,) + tuple(meaning(y, memo) for y in x.a)
    if isinstance(x, list):
        return ("list",) + tuple(meaning(y, memo) for y in x)
    if isinstance(x, tuple):
        return ("tuple",) + tuple(meaning(y, memo) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(((meaning(n, memo), meaning(v, memo)) for n, v in x.items()), key=lambda i: repr(i[0])))
    if isinstance(x, types.FunctionType):
        return ("function", x.__name__, code_of(x.__code__), tuple(meaning(y, memo) for y in x.__defaults__ or ()))
    if isinstance(x, type):
        return ("class", x.__name__, tuple((n, meaning(v, memo)) for n, v in sorted(vars(x).items()) if isinstance(v, (types.FunctionType, property, staticmethod, str, int, type, Node)) and n not in ("__firstlineno__", "__module__")))
    if isinstance(x, property):
        return ("property", meaning(x.fget), meaning(x.fset))
    if isinstance(x, staticmethod):
        return ("static", meaning(x.__func__))
    if isinstance(x, Stub):
        return ("module", x._name)
    return (type(x).__name__, repr(x))


def used_names(x, seen=None):
    """Global names used by the functions of a namespace"""
    r = set()

    def code(c):
        r.update(c.co_names)
        for y in c.co_consts:
            if isinstance(y, types.CodeType):
                code(y)

    def walk(v):
        if isinstance(v, types.FunctionType):
            code(v.__code__)
        elif isinstance(v, type):
            for y in vars(v).values():
                walk(y)
        elif isinstance(v, Node):
            for y in v.a:
                walk(y)
        elif isinstance(v, (list, tuple)):
            for y in v:
                walk(y)
        elif isinstance(v, dict):
            for y in v.values():
                walk(y)
    for n, v in x.items():
        if n != "__builtins__":
            walk(v)
    return r


# ---------------------------------------------------------------- the web configurator
class Js:
    """An object as handed over by the browser"""

    def __init__(self, d):
        self.d = d

    def to_py(self):
        return self.d


class Web:
    def __init__(self):
        self.p = None
        self.loaded = None
        self.trees = {}
        self.hw = {}
        ri, wi = os.pipe()
        ro, wo = os.pipe()
        self.proc = subprocess.Popen(["node", DRV, fw.ROOT, str(ri), str(wo)], pass_fds=(ri, wo), stdin=subprocess.DEVNULL)
        os.close(ri)
        os.close(wo)
        self.w = os.fdopen(wi, "w", encoding="utf-8")
        self.r = os.fdopen(ro, encoding="utf-8")
        files = self.request("files")["done"]
        self.dir = os.path.join(tempfile.gettempdir(), "c35_%d_%s" % (os.getuid(), hashlib.md5(json.dumps(files).encode()).hexdigest()[:12]))
        if not os.path.isdir(self.dir):
            t = tempfile.mkdtemp()
            for n, f in files.items():
                os.makedirs(os.path.join(t, os.path.dirname(n)), exist_ok=True)
                os.symlink(f, os.path.join(t, n))
            try:
                os.rename(t, self.dir)
            except OSError:
                shutil.rmtree(t)
        for p in (LIBCST, self.dir):
            if p not in sys.path:
                sys.path.append(p)
        os.chdir(self.dir)
        sys.dont_write_bytecode = True
        from parser.PySwitchParser import PySwitchParser
        self.cls = PySwitchParser

    def send(self, x):
        self.w.write(json.dumps(x) + "\n")
        self.w.flush()

    def request(self, op, **kw):
        self.send(dict(kw, op=op))
        while True:
            line = self.r.readline()
            if not line:
                raise RuntimeError("the model of the web application has ended")
            m = json.loads(line)
            if "call" in m:
                try:
                    a = {"result": self.call(m["call"], m["args"])}
                except Exception as e:
                    a = {"error": "%s: %s" % (type(e).__name__, e)}
                self.send(a)
            elif "failed" in m:
                raise Violation("%s fails in the web configurator: %s" % (op, m["failed"].split("\n")[0]))
            else:
                return m

    def call(self, n, a):
        if n == "create":
            self.p = self.cls(*a)
        elif n == "hardware":
            return self.hardware(a[0])
        elif n in ("set_inputs", "set_splashes"):
            self.loaded = None
            getattr(self.p, n)(Js(a[0]))
        elif n == "code_for_data_node":
            return self.p.code_for_data_node(a[0] if isinstance(a[0], str) else Js(a[0]), *a[1:])
        elif n == "from_source":
            self.loaded = tuple(a)
            self.p.from_source(*a)
        elif n in ("inputs", "splashes") and self.loaded:
            k = (n, self.loaded)       # just loaded: the same text gives the same tree
            if k not in self.trees:
                self.trees[k] = getattr(self.p, n)()
            return self.trees[k]
        else:
            return getattr(self.p, n)(*a)

    def hardware(self, path):
        if path not in self.hw:
            code = "import json,sys,types;sys.modules['js']=types.SimpleNamespace(document=None,navigator=None,window=None);sys.path.insert(0,%r)\nfrom parser.PySwitchHardware import PySwitchHardware\nprint(json.dumps(PySwitchHardware().get(%r)))" % (
                self.dir, path)
            self.hw[path] = subprocess.run([sys.executable, "-B", "-c", code], capture_output=True, text=True, cwd=self.dir, check=True).stdout
        return self.hw[path]


_web = []


def web():
    if not _web or _web[0].pid != os.getpid():
        w = Web()
        w.pid = os.getpid()
        _web[:] = [w]
    return _web[0]


# ---------------------------------------------------------------- configurations and edits
def arg(n, v):
    return {"name": n, "value": v}


# what the editor adds: a plain action, one which uses a display, a pager with its name, actions on its pages, an encoder button with its name
ADD = {
    "rig": {"name": "RIG_SELECT", "arguments": [arg("rig", "2"), arg("display_mode", "RIG_SELECT_DISPLAY_TARGET_RIG"), arg("color", "Colors.RED")]},
    "fx": {"name": "EFFECT_STATE", "arguments": [arg("slot_id", "KemperEffectSlot.EFFECT_SLOT_ID_B"), arg("display", "$DISPLAY"), arg("text", '"Fx \\"1\\""')]},
    "shown": {"name": "BANK_UP", "arguments": [arg("display", "$LAST"), arg("use_leds", "False")]},
    "param": {"name": "BINARY_SWITCH", "arguments": [arg("mapping", "KemperMappings.TUNER_MODE_STATE()"), arg("text", "'T'"), arg("mode", "PushButtonAction.HOLD_MOMENTARY"), arg("color", "(1, 2, 3)")]},
    "pager": {"name": "PagerAction", "assign": "_pager_new", "arguments": [
        {"name": "pages", "value": [{"id": "1", "color": "Colors.BLUE", "text": "'A'"}, {"id": "2", "color": "Colors.GREEN", "text": "'B'"}, {"id": "3", "color": "Colors.RED"}]}]},
    "paged": {"name": "TUNER_MODE", "arguments": [arg("id", "1"), arg("enable_callback", "_pager_new.enable_callback")]},
    "proxy": {"name": "_pager_new.proxy", "arguments": [arg("page_id", "2")]},
    "button": {"name": "ENCODER_BUTTON", "assign": "_encoder_button", "arguments": []},
    "pedal": {"name": "AnalogAction", "arguments": [arg("mapping", "MAPPING_MAIN_VOLUME()"), arg("num_steps", "2")]},
    "wheel": {"name": "EncoderAction", "arguments": [arg("mapping", "MAPPING_SPACE_INTENSITY()")]},
    "knob": {"name": "AMP_GAIN", "arguments": [arg("accept_action", "_encoder_button"), arg("step_width", "20")]},
}

def available():
    """Names which the web configurator imports by itself -> module"""
    if not _avail:
        for f in ("actions", "mappings"):
            with open(os.path.join(WEB, "definitions", f + ".json"), encoding="utf-8") as h:
                for c in json.load(h):
                    for e in c[f]:
                        _avail[e.get("importName", e["name"])] = e["importPath"]
        for n, m in (("Colors", "pyswitch.colors"), ("RIG_SELECT_DISPLAY_TARGET_RIG", "pyswitch.clients.kemper.actions.rig_select"), ("KemperEffectSlot", "pyswitch.clients.kemper"),
                     ("PushButtonAction", "pyswitch.controller.actions")):
            _avail.setdefault(n, m)
    return _avail


_avail = {}


def python(a):
    """Source of an action as the editor describes it"""
    r = []
    for x in a["arguments"]:
        v = x["value"]
        if isinstance(v, list):
            v = "[%s]" % ", ".join("{%s}" % ", ".join('"%s": %s' % (n, p[n]) for n in ("id", "color", "text") if p.get(n)) for p in v)
        r.append("%s = %s" % (x["name"], v))
    return "%s(%s)" % (a["name"], ", ".join(r))


class Saved(Sys):
    """cfg: none. events: ("open", folder) or ("text", name), then edits"""

    def __init__(self, cfg):
        self.src = None

    def take(self, m):
        d = m["data"]
        self.src = {"inputs": d["inputs_py"], "display": d["display_py"]}

    def run(self):
        d = execute(self.src["display"])
        return d, execute(self.src["inputs"], d)

    def outcome(self):
        return len(self.src["inputs"]) if self.src else None

    def step(self, ev):
        w = self.w = web()
        if ev[0] in ("open", "text"):
            if ev[0] == "open":
                f = fw.config_files(ev[1])
                self.src = {}
                for n in ("inputs", "display"):
                    with open(f[n], encoding="utf-8", newline="") as h:
                        self.src[n] = h.read()
                self.folder = ev[1]
            else:
                self.src = dict(TEXTS[ev[1]])
                self.folder = "content"
            w.request("open", inputs_py=self.src["inputs"], display_py=self.src["display"])
            names_ = w.request("hardware")["done"]
            self.hw = {h["data"]["name"]: h["name"] for h in json.loads(w.call("hardware", [w.p.hw_import_path]))}
            if sorted(self.hw) != sorted(names_):
                raise Violation("inputs of the device: %s" % names_)
            return
        if self.src is None:
            return
        d, i = self.run()
        lost = [n for n in used_names(i) if n in i]
        lostd = [n for n in used_names(d) if n in d]
        getattr(self, "do_" + ev[0])(d, i, *ev[1:])
        try:
            d2, i2 = self.run()
            self.boot()
        except Exception as e:
            raise Violation("the saved configuration does not start: %s: %s" % (type(e).__name__, e))
        for what, a, b, extra in (("display.py", d, d2, lostd), ("inputs.py", i, i2, lost)):
            main = "Splashes" if what[0] == "d" else "Inputs"
            if main in a:
                x, y = meaning(a[main]), meaning(b.get(main))
                if x != y:
                    raise Violation("%s of the saved file: %s" % (main, differ(x, y)))
            for n, v in a.items():
                if n.startswith("__") or n == main:
                    continue
                imported = isinstance(v, Node) and v.kind == "ref" or isinstance(v, Stub) or what[0] == "i" and v is d.get(n)
                if imported and n not in extra:
                    continue
                if n not in b:
                    raise Violation("%s has no %s after saving" % (what, n))
                if meaning(v) != meaning(b[n]):
                    raise Violation("%s: %s has changed: %s" % (what, n, differ(meaning(v), meaning(b[n]))))

    def boot(self):
        """The saved configuration on the device: what it shows and sends first"""
        env.fresh()
        f = fw.Fw(self.folder, code=self.src)
        for dt in (0, 201, 0, 201):
            f.tick(dt)
        return f.leds(), f.texts(), f.sent()

    # ---- edits: performed by the web application and on the objects
    def do_save(self, d, i):
        old = self.boot()
        self.take(self.w.request("save"))
        one = self.src
        new = self.boot()
        if old != new:
            raise Violation("the saved configuration shows or sends %s instead of %s" % (new, old))
        self.take(self.w.request("save"))
        if self.src != one:
            raise Violation("saving again changes the file")

    def find(self, i, name, create=False):
        for x in i["Inputs"]:
            a = x["assignment"]
            if isinstance(a, Node) and a.kind == "ref" and a.a[1] == self.hw[name]:
                return x
        if create:
            x = {"assignment": i.get(self.hw[name]) or Node("ref", self.w.p.hw_import_path, self.hw[name])}
            i["Inputs"].append(x)
            return x

    def action(self, key, d, i):
        a = json.loads(json.dumps(ADD[key]))
        disp = [n for n, v in d.items() if not n.startswith("_") and n != "Splashes" and isinstance(v, Node) and v.kind == "call" and v.a[0].kind == "ref" and v.a[0].a[1] == "DisplayLabel"]
        for x in a["arguments"]:
            if x["value"] == "$DISPLAY":
                x["value"] = disp[0] if disp else "None"
            elif x["value"] == "$LAST":
                x["value"] = disp[-1]
        return a, eval(python(a), {"__builtins__": {}}, self.space(d, i))

    def assigned(self, a, v, i):
        if a.get("assign"):
            o = i.get(a["assign"])
            if isinstance(o, Node) and o.kind == "call":
                o.__dict__["a"] = v.a
                return o
            i[a["assign"]] = v
        return v

    def space(self, d, i):
        ns = {n: Node("ref", names(m).get(n, m), n) for n, m in available().items()}
        ns.update({n: v for n, v in d.items() if not n.startswith("__")})
        ns.update({n: v for n, v in i.items() if not n.startswith("__")})
        return ns

    def do_set(self, d, i, name, hold, index, argument, value):
        """Change one parameter of an action"""
        x = self.find(i, name)
        acts = [y for y in x["actionsHold" if hold else "actions"] if y is not None]
        index %= len(acts)
        acts[index].a[2][argument] = eval(value, {"__builtins__": {}}, self.space(d, i))
        x["actionsHold" if hold else "actions"] = acts
        self.take(self.w.request("edit", edits=[{"op": "set", "input": name, "hold": hold, "index": index, "arg": arg(argument, value)}]))

    def do_edit(self, d, i, op, name, hold, index=0, key=None, assign=None):
        x = self.find(i, name, True)
        k = "actionsHold" if hold else "actions"
        acts = [y for y in x.get(k) or [] if y is not None]
        index = index % len(acts) if acts else 0
        e = {"op": op, "input": name, "hold": hold, "index": index}
        if op in ("add", "replace"):
            e["action"], v = self.action(key, d, i)
            if assign:
                e["action"]["assign"] = assign
            v = self.assigned(e["action"], v, i)
        if op == "add":
            acts.append(v)
        elif op == "replace":
            acts[index] = v
        elif op == "remove":
            del acts[index]
        elif op == "reverse":
            acts.reverse()
        elif op == "clear":
            acts = []
        x[k] = acts
        self.take(self.w.request("edit", edits=[e]))

    def do_move(self, d, i, name, hold, index, to, to_hold):
        a, b = [("actionsHold" if h else "actions") for h in (hold, to_hold)]
        x, y = self.find(i, name), self.find(i, to, True)
        for z in (x, y):
            for n in ("actions", "actionsHold"):
                z[n] = [v for v in z.get(n) or [] if v is not None]
        y[b].append(x[a].pop(index))
        self.take(self.w.request("move", input=name, hold=hold, index=index, to=to, to_hold=to_hold))

    def kids(self, d):
        s = d["Splashes"]
        root = s.a[2].get(ROOTS.get(s.a[0].a[1]))
        return root.a[2]["children"]

    def do_splashes(self, d, i, op, index=None, name=None):
        k = self.kids(d)
        n = k[index] if index is not None else None
        e = {"index": index} if index is not None else {}
        if op == "add":
            on = {g for g, v in d.items() if any(v is x for x in k)}
            c = 1
            while "DISPLAY_LABEL_%d" % c in on:
                c += 1
            e["assign"] = a = "DISPLAY_LABEL_%d" % c
            ref = lambda x: Node("ref", next(m for m in ("pyswitch.ui.elements", "pyswitch.ui.ui", "pyswitch.colors") if names(m).get(x) == m), x)
            v = Node("call", ref("DisplayLabel"), [], {"bounds": Node("call", ref("DisplayBounds"), [], {"x": 0, "y": 0, "w": 100, "h": 30}),
                                                       "layout": {"font": "/fonts/H20.pcf", "backColor": ref("DEFAULT_LABEL_COLOR"), "stroke": 1}})
            k.append(self.assigned({"assign": a}, v, d))
        elif op == "remove":
            del k[index]
        elif op == "up":
            k[index:index + 2] = [k[index + 1], k[index]]
        elif op == "bounds":
            b = n.a[2]["bounds"]
            b.a[1][:] = []
            b.a[2].update(x=1, y=2, w=33, h=44)
        elif op == "rename":
            e["assign"] = name
            d[name] = n
        elif op == "layout":
            n.a[2]["layout"] = dict(n.a[2]["layout"], **{name[0]: eval(name[1])})
            e.update(name=name[0], value=name[1])
        self.take(self.w.request("splashes", what=op, **e))

    def do_option(self, d, i, name, opt, value):
        x = self.find(i, name, True)
        x["holdTimeMillis" if opt == "time" else "holdRepeat"] = value
        self.take(self.w.request("option", input=name, name=opt, value=value))


def differ(a, b, path=""):
    """First difference of two meanings"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, path + "/%s" % (x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else k))
            if r:
                return r
    return "%s: expected %s, saved %s" % (path[-80:], str(a)[:200], str(b)[:200])


# ---- hand written files: what the documentation shows and other common ways of writing it
_HEAD = """from pyswitch.hardware.devices.pa_midicaptain_10 import *
from pyswitch.clients.kemper import KemperEffectSlot, KemperMappings
from pyswitch.clients.kemper.actions.effect_state import EFFECT_STATE
from pyswitch.clients.kemper.actions.tempo import TAP_TEMPO
from pyswitch.clients.kemper.actions.bank_up_down import BANK_UP, BANK_DOWN
from pyswitch.clients.local.actions.pager import PagerAction
from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE
from pyswitch.controller.callbacks import Callback, BinaryParameterCallback
from pyswitch.controller.actions import PushButtonAction
from pyswitch.controller.client import ClientParameterMapping
from pyswitch.colors import Colors
from adafruit_midi.system_exclusive import SystemExclusive
from display import DISPLAY_HEADER_1, DISPLAY_HEADER_2, DISPLAY_FOOTER_1
"""
_INPUTS = {
    "enable callback": """
# Custom callback function
class _RigNameCallback(Callback):
    def __init__(self):
        Callback.__init__(self)
        self.mappings = [KemperMappings.RIG_NAME()]
        self._mapping = self.mappings[0]

    def enabled(self, action):
        rig_name = self._mapping.value
        if action.id == 10:
            return rig_name != None and "TAP" in rig_name
        elif action.id == 20:
            return rig_name == None or "TAP" not in rig_name

# One instance for all actions
_enable_callback = _RigNameCallback()

Inputs = [
    {
        "assignment": PA_MIDICAPTAIN_10_SWITCH_1,
        "actions": [
            TAP_TEMPO(
                id = 10,
                enable_callback = _enable_callback
            ),
            EFFECT_STATE(KemperEffectSlot.EFFECT_SLOT_ID_A, id = 20, enable_callback = _enable_callback)
        ]
    },
]
""",
    "custom callback": """
COUNT = 2
_step = lambda x: x * COUNT

class CustomCallback(Callback):
    LIMIT = COUNT + 1

    def __init__(self, start = COUNT):
        Callback.__init__(self)
        self.value = start

    def state_changed_by_user(self):
        from pyswitch.colors import Colors
        self.value = _step(self.value) % CustomCallback.LIMIT + Colors.RED[1]

    def update_displays(self):
        if self.action.label:
            self.action.label.back_color = Colors.RED
            self.action.label.text = f"foo {self.value}"
        self.action.switch_color = (255, 255, 255)
        self.action.switch_brightness = 0.8

Inputs = [
    {
        "assignment": PA_MIDICAPTAIN_10_SWITCH_2,
        "actions": [
            PushButtonAction({
                "callback": CustomCallback(),
                "display": DISPLAY_HEADER_2,
                "mode": PushButtonAction.LATCH if COUNT > 1 else PushButtonAction.MOMENTARY
            })
        ],
        "actionsHold": [BANK_UP(use_leds = False)],
        "holdTimeMillis": 200 * COUNT
    }
]
""",
    "custom message": """
def _message(byte):
    return SystemExclusive(manufacturer_id = [0x00, 0x20, 0x33], data = [0x02, 0x7f, byte, 0x00, 0x04, 0x01])

Inputs = [
    {
        "assignment": PA_MIDICAPTAIN_10_SWITCH_1,
        "actions": [
            PushButtonAction(
                {
                    "callback": BinaryParameterCallback(
                        mapping = ClientParameterMapping.get(
                            name = "My Boost",   # This name MUST be unique!
                            set = _message(0x01),
                            request = _message(0x41),
                            response = _message(0x01)
                        ),
                        color = (255, 100, 0),
                        text = 'Rig "Vol"',
                        value_enable = 12000,    # Value set on enable state
                        value_disable = "auto",
                        reference_value = 12000,
                        comparison_mode = BinaryParameterCallback.GREATER_EQUAL
                    ),
                    "display": DISPLAY_HEADER_1,
                    "useSwitchLeds": True,
                    "mode": PushButtonAction.HOLD_MOMENTARY,
                }
            )
        ]
    }
]
""",
    "quotes": """
Inputs = [
    {
        'assignment': PA_MIDICAPTAIN_10_SWITCH_1,
        'actions': [
            PushButtonAction({'callback': BinaryParameterCallback(mapping = KemperMappings.TUNER_MODE_STATE(), text = 'Tun\\'er'), 'display': DISPLAY_HEADER_1, 'mode': PushButtonAction.LATCH})
        ],
        'holdTimeMillis': 700
    }
]
""",
    "pages": """
_pages = [
    {"id": 1, "color": Colors.BLUE, "text": "A"},
    {"id": 2, "color": Colors.RED}
]
_pager = PagerAction(pages = _pages, display = DISPLAY_HEADER_1)

Inputs = [
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_1, "actions": [_pager]},
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_2, "actions": [BANK_UP(id = 1, enable_callback = _pager.enable_callback), _pager.proxy(page_id = 2)]}
]
""",
    "some inputs": """
Inputs = [
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_1, "actions": [BANK_UP(display = DISPLAY_HEADER_1)]},
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_2, "actions": [BANK_DOWN(), TAP_TEMPO()]}
]
""",
    "names": """
_none = []
_tap = TAP_TEMPO(use_leds = False)
_color, _text = (1, 2, 3), "Bank"
_opts = {}
_opts["x"] = 3
_down = BANK_DOWN()

Inputs = [
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_1, "actions": [], "actionsHold": [_tap]},
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_2, "actions": [_down, BANK_UP(color = _color, text = _text)]},
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_3, "actions": [CUSTOM_MESSAGE(message = _none)], "actionsHold": [_down]},
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_4, "actions": []}
]
""",
    "own action": """
from pyswitch.clients.local.actions.fixed_text import DISPLAY_FIXED_TEXT as BANK_SELECT
from pyswitch.clients.local.actions.custom import CUSTOM_MESSAGE as RIG_UP

def TUNER_MODE(display, text, id = None):
    return BANK_SELECT(display = display, text = text, id = id)

Inputs = [
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_1, "actions": [BANK_SELECT(text = "Hello", display = DISPLAY_HEADER_1)]},
    {"assignment": PA_MIDICAPTAIN_10_SWITCH_2, "actions": [RIG_UP(message = [0xb0, 1, 2]), TUNER_MODE(DISPLAY_HEADER_2, text = "World")]}
]
""",
}
_SPLASHES = """from pyswitch.colors import DEFAULT_LABEL_COLOR
from pyswitch.ui.ui import DisplayElement, DisplayBounds
from pyswitch.ui.elements import DisplayLabel
from pyswitch.controller.callbacks import Callback
from pyswitch.clients.kemper import KemperRigNameCallback, TunerDisplayCallback

_LAYOUT = {
    "font": "/fonts/H20.pcf",
    "backColor": DEFAULT_LABEL_COLOR,
    "stroke": 1
}
W, H = 120, 40
DISPLAY_HEADER_1 = DisplayLabel(layout = _LAYOUT, bounds = DisplayBounds(0, 0, W, H))
DISPLAY_HEADER_2 = DisplayLabel(layout = _LAYOUT, bounds = DisplayBounds(120, 0, w = W, h = H))
DISPLAY_FOOTER_1 = DisplayLabel(layout = {'font': '/fonts/H20.pcf', 'text': "it's"}, bounds = DisplayBounds(0, 200, 120, 40))

class _SplashCallback(Callback):
    def get_root(self):
        return DisplayElement(
            bounds = DisplayBounds(0, 0, 240, 240),
            children = [
                DISPLAY_HEADER_1,
                DISPLAY_HEADER_2,
                DISPLAY_FOOTER_1,
                DisplayLabel(
                    bounds = DisplayBounds(0, 40, 160, 40),  # x, y, width, height
                    layout = {"font": "/fonts/PTSans-NarrowBold-40.pcf", "lineSpacing": 0.8, "maxTextWidth": 220},
                    callback = KemperRigNameCallback()
                ),
            ]
        )

Splashes = _SplashCallback()
"""
_PLAIN = _SPLASHES[:_SPLASHES.index("class ")] + """
_root = DisplayElement(bounds = DisplayBounds(0, 0, 240, 240), children = [DISPLAY_HEADER_1, DISPLAY_HEADER_2, DISPLAY_FOOTER_1])
Splashes = TunerDisplayCallback(splash_default = _root)
"""
_SOME = _HEAD.replace("10 import *", "10 import PA_MIDICAPTAIN_10_SWITCH_1, PA_MIDICAPTAIN_10_SWITCH_2")
TEXTS = {n: {"inputs": (_SOME if n == "some inputs" else _HEAD) + t, "display": _PLAIN if n in ("quotes", "pages") else _SPLASHES} for n, t in _INPUTS.items()}

PLACES = ("content", "web/htdocs/templates/MIDICaptain Nano 4", "examples/Kemper Profiler/MIDICaptain 10/Twin Pagers", "examples/Kemper Profiler/MIDICaptain Nano 4/tunetown/tunetown Session with Looper and Pages")


def inventory(folder):
    """(device inputs, {input: (kind, number of actions, of hold actions, indices which have a name)})"""
    src = dict(TEXTS.get(folder) or {})
    if not src:
        f = fw.config_files(folder)
        for n in ("inputs", "display"):
            with open(f[n], encoding="utf-8", newline="") as h:
                src[n] = h.read()
    d = execute(src["display"])
    i = execute(src["inputs"], d)
    dev = next((x for x in ("nano_4", "mini_6", "10") if "pyswitch.hardware.devices.pa_midicaptain_" + x in src["inputs"]), "10")
    m = "pyswitch.hardware.devices.pa_midicaptain_" + dev
    with open(module_file(m), encoding="utf-8") as h:
        hw = execute(h.read())
    r = {}
    for n, v in hw.items():
        if isinstance(v, dict) and "model" in v:
            x = next((y for y in i["Inputs"] if isinstance(y["assignment"], Node) and y["assignment"].kind == "ref" and y["assignment"].a[1] == n), None)
            acts = [[y for y in (x or {}).get(k) or [] if y is not None] for k in ("actions", "actionsHold")]
            r[v.get("name", n)] = (v["model"].a[0].a[1], x is not None, acts)
    return r, i


def takes(f, name):
    """Does a library function have this parameter?"""
    if not (isinstance(f, Node) and f.kind == "ref"):
        return False
    with open(module_file(f.a[0]), encoding="utf-8") as h:
        for st in ast.parse(h.read()).body:
            if isinstance(st, ast.ClassDef) and st.name == f.a[1]:
                st = next((x for x in st.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
            elif not (isinstance(st, ast.FunctionDef) and st.name == f.a[1]):
                continue
            return st is not None and name in [x.arg for x in st.args.args + st.args.kwonlyargs]
    return False


def singles(folder, full):
    """All single edits of a configuration"""
    inv, i = inventory(folder)
    kinds = {"AdafruitSwitch": ("rig", "fx", "param", "pager", "button"), "AdafruitEncoder": ("wheel",), "AdafruitPotentiometer": ("pedal",)}
    switches = [n for n, v in inv.items() if v[0] == "AdafruitSwitch"]
    r = []
    for n, (kind, there, acts) in inv.items():
        sw = kind == "AdafruitSwitch"
        for hold in (False, True) if sw else (False,):
            a = acts[hold]
            for k in kinds[kind] if full else kinds[kind][1:2] or kinds[kind]:
                if full or there or n in (switches[-1:] + ["Exp2"]):
                    r.append(("edit", "add", n, hold, 0, k))
            for x in range(len(a)):
                r.append(("edit", "remove", n, hold, x))
                r.append(("edit", "replace", n, hold, x, kinds[kind][0]))
                if takes(a[x].a[0], "id"):
                    r.append(("set", n, hold, x, "id", "'x'"))
                if sw:
                    to = switches[(switches.index(n) + 1) % len(switches)]
                    r.append(("move", n, hold, x, to, hold))
                    if full:
                        r += [("move", n, hold, x, n, not hold), ("move", n, hold, x, switches[-1], True)]
            if len(a) > 1:
                r.append(("edit", "reverse", n, hold))
            if a and full:
                r.append(("edit", "clear", n, hold))
        if sw and (full or there):
            r += [("option", n, "time", 700), ("option", n, "repeat", True)]
    return r


def labels(folder, full):
    src = {}
    with open(fw.config_files(folder)["display"], encoding="utf-8", newline="") as h:
        d = execute(h.read())
    s = d["Splashes"]
    f = s.a[0]
    if not (isinstance(f, Node) and f.kind == "ref" and f.a[1] in ROOTS):
        return []
    k = s.a[2].get(ROOTS[f.a[1]])
    if not (isinstance(k, Node) and k.kind == "call" and k.a[0].a[1] == "DisplayElement"):
        return []
    k = k.a[2]["children"]
    with open(fw.config_files(folder)["inputs"], encoding="utf-8", newline="") as h:
        used = used_names_of(h.read())
    r = [("splashes", "same"), ("splashes", "add")]
    for x, n in enumerate(k):
        if n.a[0].kind != "ref" or n.a[0].a[1] != "DisplayLabel":
            continue
        mine = [g for g, v in d.items() if v is n]
        if not set(mine) & used:
            r += [("splashes", "remove", x), ("splashes", "rename", x, "NEW_NAME")]
        b = n.a[2].get("bounds")
        if isinstance(b, Node) and len(b.a[1]) + len(b.a[2]) == 4:
            r.append(("splashes", "bounds", x))
        if x + 1 < len(k):
            r.append(("splashes", "up", x))
        if isinstance(n.a[2].get("layout"), dict):
            r += [("splashes", "layout", x, v) for v in (("text", "'abc'"), ("font", '"/fonts/A12.pcf"'))[:2 if full else 1]]
    return r


def sequences(folder, full):
    """Edits which build on each other"""
    inv, i = inventory(folder)
    switches = [n for n, v in inv.items() if v[0] == "AdafruitSwitch"]
    wheels = [n for n, v in inv.items() if v[0] == "AdafruitEncoder"]
    free = [n for n in switches if not inv[n][1]]
    some = list(dict.fromkeys([switches[0], switches[-1]] + free[:1]))
    r = []
    for p in switches if full else some:
        add = ("edit", "add", p, False, 0, "pager")
        uses = [("edit", "add", s, h, 0, k) for s in switches for h in (False, True) for k in ("paged", "proxy") if full or not h]
        uses += [("set", s, h, x, "enable_callback", "_pager_new.enable_callback") for s in switches for h in (False, True) for x in range(len(inv[s][2][h])) if takes(inv[s][2][h][x].a[0], "enable_callback")]
        for u in uses:
            r.append((add, u, ("set", p, False, -1, "select_page", "2"), ("save",)) if u[2] != p else (add, u, ("save",)))
    for b in switches if full else some:
        add = ("edit", "add", b, False, 0, "button")
        for w in wheels:
            for last in (("set", b, False, -1, "id", "'E'"), ("edit", "replace", b, False, -1, "rig"), ("edit", "remove", b, False, -1), ("set", w, False, -1, "step_width", "30"), ("edit", "remove", w, False, -1)):
                r.append((add, ("edit", "add", w, False, 0, "knob"), last, ("save",)))
    for s in some:
        for h in (False, True):
            r.append((("splashes", "add"), ("edit", "add", s, h, 0, "shown"), ("splashes", "add"), ("save",)))
            r.append((("splashes", "add"), ("edit", "add", s, h, 0, "shown"), ("edit", "remove", s, h, -1), ("splashes", "same"), ("save",)))
    return [x[:-1] if n % 5 and not full else x for n, x in enumerate(r)]


def compatible(x, y):
    """The second edit is still possible after the first one"""
    gone = x[0] == "move" or x[:2] == ("edit", "remove")
    place = x[1] if x[0] in ("move", "set") else x[2]
    return not (gone and place == (y[1] if y[0] in ("move", "set") else y[2]))


def used_names_of(src):
    return {n.id for n in ast.walk(ast.parse(src)) if isinstance(n, ast.Name)} | {a.name for n in ast.walk(ast.parse(src)) if isinstance(n, ast.ImportFrom) for a in n.names}


ROOTS = {"TunerDisplayCallback": "splash_default", "SplashesCallback": "splashes"}


def tasks(tier):
    r = []

    def add(name, cases, size=30):
        for x in range(0, len(cases), size):
            r.append((enumerate_cases, (name, Saved, {}, cases[x:x + size]), {}))
    deep = tier == "thorough"
    add("save", [[("open", f), ("save",)] for f in fw.folders()], 4)
    add("styles", [[("text", n), e] for n in TEXTS for e in [("save",)] + singles(n, False)])
    for f in fw.folders():
        main = f in PLACES
        e = singles(f, main and (deep or f == PLACES[0]))
        l = labels(f, main)
        if not (deep or main):
            e, l = e[::5], l[::4]
        add("edits", [[("open", f), x] for x in e])
        add("labels", [[("open", f), x] for x in l])
        if main:
            add("sequences", [[("open", f)] + list(x) for x in sequences(f, deep)], 15)
    if deep:
        e = [x for x in singles(PLACES[0], False) if x[0] != "option"][::2]
        add("pairs", [[("open", PLACES[0]), x, y] for x in e for y in e if compatible(x, y)])
    return r
