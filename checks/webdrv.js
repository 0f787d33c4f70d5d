// Runs the real model classes of the web configurator (no DOM). Talks to the Python side over two pipes, synchronously:
// requests of the checker on the first one, answers and calls of the Python parser on the second one.
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
const ROOT = process.argv[2], WEB = path.join(ROOT, "web/htdocs");
let buf = Buffer.alloc(0);
function line() {
    for (;;) {
        const i = buf.indexOf(10);
        if (i >= 0) {
            const r = buf.subarray(0, i).toString("utf-8");
            buf = buf.subarray(i + 1);
            return JSON.parse(r);
        }
        const b = Buffer.alloc(65536);
        const n = fs.readSync(+process.argv[3], b, 0, b.length, null);
        if (!n) process.exit(0);
        buf = Buffer.concat([buf, b.subarray(0, n)]);
    }
}
function send(x) {
    const b = Buffer.from(JSON.stringify(x) + "\n");
    let p = 0;
    while (p < b.length) p += fs.writeSync(+process.argv[4], b, p);
}
function call(name, args) {
    send({ call: name, args: args });
    const r = line();
    if ("error" in r) throw new Error(r.error);
    return r.result;
}
// ---- environment of the classes
function files(d, ext) {
    let r = [];
    for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)) {
        const p = path.join(d, e.name);
        if (e.isDirectory()) r = r.concat(files(p, ext));
        else if (p.endsWith(ext)) r.push(p);
    }
    return r;
}
let fetched = null;
console.log = console.info = console.warn = console.error = () => {};
globalThis.window = {};
globalThis.fetch = async (url) => {
    url = decodeURI(url);
    let t;
    if (url.endsWith("clients/toc.php")) {
        const d = path.join(ROOT, "content/lib/pyswitch/clients");
        t = JSON.stringify({ children: fs.readdirSync(d, { withFileTypes: true }).filter(e => !e.name.startsWith("_")).map(e => ({ type: e.isDirectory() ? "dir" : "file", name: e.name })) });
    } else {
        const f = url.startsWith("circuitpy/") ? path.join(ROOT, "content", url.slice(10)) : path.join(WEB, url);
        if (!fs.existsSync(f)) return { ok: false, status: 404, text: async () => "", json: async () => ({}) };
        t = fs.readFileSync(f, "utf-8");
        if (fetched) fetched.push([f, t]);
    }
    return { ok: true, text: async () => t, json: async () => JSON.parse(t) };
};
let todo = [path.join(WEB, "js/misc/Tools.js"), path.join(WEB, "js/PySwitchRunner.js")].concat(files(path.join(WEB, "js/model"), ".js"), files(path.join(WEB, "clients"), ".js"), files(path.join(WEB, "devices"), ".js"));
const loaded = new Set();      // classes, base classes first
while (todo.length) {
    const n = todo.length;
    todo = todo.filter(f => {
        const code = fs.readFileSync(f, "utf-8");
        const needs = [...code.matchAll(/\bclass\s+\w+\s+extends\s+(\w+)/g)].map(m => m[1]);
        const has = [...code.matchAll(/\bclass\s+(\w+)/g)].map(m => m[1]);
        if (needs.some(x => !loaded.has(x) && !has.includes(x))) return true;
        vm.runInThisContext(code, f);
        has.forEach(x => loaded.add(x));
        return false;
    });
    if (todo.length == n) break;
}
const get = (n) => vm.runInThisContext(n);
const METHODS = ["from_source", "inputs", "splashes", "set_inputs", "set_splashes", "to_source", "code_for_data_node", "displays"];
let clients = null;
const proxy = { get hw_import_path() { return this._hw; } };
for (const m of METHODS) proxy[m] = (...a) => {
    const r = call(m, a);
    return m == "to_source" ? { toJs: () => new Map(Object.entries(r)) } : r;
};
const runner = {
    pyodide: {
        runPython: (code) => {
            let m;
            if ((m = /pySwitchHardware\.get\("(.*?)"\)/.exec(code))) return call("hardware", [m[1]]);
            if ((m = /hw_import_path\s*=\s*"(.*?)"/.exec(code))) {
                proxy._hw = m[1];
                call("create", [m[1], /available_clients_json\s*=\s*'(.*?)'/.exec(code)[1]]);
                return proxy;
            }
            throw new Error("unknown code " + code);
        }
    }
};
let data, parser;
const config = { get: async () => data, set: (d) => { data = d; } };
const defs = (acts) => acts.map(a => ({ name: a.name, client: a.client, assign: a.assign, arguments: a.arguments() }));
const OPS = {
    // the files which the browser puts into the file system of the python interpreter
    async files() {
        const dirs = new Set([""]), r = {};
        const rel = (p) => p.startsWith("/home/pyodide/") ? p.slice(14) : p;
        const parent = (p) => {
            if (!dirs.has(p.includes("/") ? p.slice(0, p.lastIndexOf("/")) : "")) throw new Error("no directory for " + p);
        };
        fetched = [];
        globalThis.loadPyodide = async () => ({
            loadPackage: async () => null,
            FS: {
                mkdir(p) { p = rel(p); parent(p); dirs.add(p); },
                writeFile(p, t) {
                    p = rel(p);
                    parent(p);
                    const f = fetched.find(x => x[1] === t && x[0].endsWith(p)) || fetched.find(x => x[1] === t);
                    if (!f) throw new Error("file " + p + " has not been loaded");
                    r[p] = f[0];
                }
            }
        });
        await new (get("PySwitchRunner"))({}, "c").init("");
        fetched = null;
        return r;
    },
    async open(r) {
        data = { inputs_py: r.inputs_py, display_py: r.display_py };
        config.parser = parser = new (get("Parser"))(config, runner, "");
        await parser.init();
    },
    async save() { await parser.init(); parser.updateConfig(); },
    async hardware() { return (await parser.getHardwareInfo()).map(h => h.data.name); },
    // what the editor does for adding, replacing, removing and reordering actions (ParserFrontendInput)
    async edit(r) {
        await parser.init();
        let first = null;
        for (const e of r.edits) {
            let input = await parser.input(e.input);
            let acts = input ? defs(input.actions(e.hold)) : [];
            if (e.op == "add") acts.push(e.action);
            else if (e.op == "replace") acts[e.index] = e.action;
            else if (e.op == "set") acts[e.index] = Object.assign({}, acts[e.index], { arguments: acts[e.index].arguments.filter(a => a.name != e.arg.name).concat([e.arg]) });
            else if (e.op == "remove") acts.splice(e.index, 1);
            else if (e.op == "reverse") acts.reverse();
            else if (e.op == "clear") acts = [];
            if (!input) input = await parser.input(e.input, true);
            input.setActions(acts, e.hold, true);
        }
        parser.updateConfig();
    },
    // drag and drop: the grid of the source is updated first, then the one of the target (ParserFrontendInput.updateInput)
    async move(r) {
        await parser.init();
        const src = await parser.input(r.input);
        const item = src.actions(r.hold)[r.index];
        let dst = await parser.input(r.to);
        const lists = (input) => input ? [input.actions(false).slice(), input.actions(true).slice()] : [[], []];
        const a = lists(src);
        a[r.hold ? 1 : 0].splice(r.index, 1);
        const b = r.to == r.input ? a : lists(dst);
        b[r.to_hold ? 1 : 0].push(item);
        const x = a.map(defs);
        if (r.to != r.input) {
            src.setActions(x[0], false, true);
            src.setActions(x[1], true, true);
        }
        const y = b.map(defs);
        if (!dst) dst = await parser.input(r.to, true);
        dst.setActions(y[0], false, true);
        dst.setActions(y[1], true, true);
        parser.updateConfig();
    },
    async option(r) {
        await parser.init();
        const input = await parser.input(r.input, true);
        if (r.name == "time") input.setHoldTimeMillis(r.value);
        else input.setHoldRepeat(r.value);
    },
    async count(r) {
        await parser.init();
        const input = await parser.input(r.input);
        return input ? [input.actions(false).length, input.actions(true).length] : null;
    },
    // what the display editor does (DisplayEditor, DisplayNode, DisplayLabelTypeLayout)
    async splashes(r) {
        await parser.init();
        const s = JSON.parse(JSON.stringify(parser.splashes()));
        let def = null;
        for (const c of await parser.getAvailableCallbacks()) for (const x of c.callbacks) {
            if (c.client == s.client && x.target == "Splashes" && x.name == s.name && !def) def = x;
        }
        const T = get("Tools");
        const kids = T.getArgument(T.getArgument(s, def.meta.data.splashRootParameter).value, "children");
        const n = r.index === undefined ? null : kids.value[r.index];
        const F = {
            same() {},
            add() {
                kids.value.push({ name: "DisplayLabel", assign: r.assign, arguments: [
                    { name: "bounds", value: { name: "DisplayBounds", arguments: [{ name: "x", value: "0" }, { name: "y", value: "0" }, { name: "w", value: "100" }, { name: "h", value: "30" }] } },
                    { name: "layout", value: { arguments: [{ name: "font", value: '"/fonts/H20.pcf"' }, { name: "backColor", value: "DEFAULT_LABEL_COLOR" }, { name: "stroke", value: "1" }] } }] });
            },
            remove() { kids.value = kids.value.filter(x => x != n); },
            up() { kids.value[r.index] = kids.value[r.index + 1]; kids.value[r.index + 1] = n; },
            bounds() {
                const b = T.getArgument(n, "bounds").value;
                for (const [k, v] of [["x", "1"], ["y", "2"], ["w", "33"], ["h", "44"]]) T.getArgument(b, k).value = v;
            },
            rename() { n.assign = r.assign; },
            layout() {
                const l = T.getArgument(n, "layout");
                delete l.value.assign;
                let v = T.getArgument(l.value, r.name);
                if (!v) l.value.arguments.push(v = { name: r.name });
                v.value = r.value;
            }
        };
        F[r.what]();
        await parser.setSplashes(s);
    },
    async source(r) { await parser.updateFromSource(r.file, r.code); }
};
(async () => {
    for (;;) {
        const r = line();
        try {
            const x = await OPS[r.op](r);
            send({ done: x === undefined ? null : x, data: data });
        } catch (e) {
            send({ failed: String(e && e.stack || e).slice(0, 1500) });
        }
    }
})();
