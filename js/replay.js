// Runs the client with a stand-in for the browser and a list of operations: node replay.js SCRIPT OPS.json
// Prints what was observed as JSON. The values are tagged as in jsx.py.
const fs = require("fs"), vm = require("vm");
const src = fs.readFileSync(process.argv[2], "utf8");
const runs = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
function tag(v) {
    switch (typeof v) {
        case "boolean": return ["b", v];
        case "number": { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v); return ["n", d.getBigUint64(0).toString(16).padStart(16, "0")]; }
        case "string": { const u = []; for (let i = 0; i < v.length; ++i) u.push(v.charCodeAt(i)); return ["s", u]; }
        case "undefined": return ["u"];
    }
    if (Array.isArray(v) || Object.prototype.toString.call(v) === "[object Array]") return ["a", Array.from(v, tag)];
    return ["o"];
}
function run(ops) {
    const obs = [];
    let socket = null;
    const box = {};
    const context = vm.createContext(box);
    function untag(t) {
        switch (t[0]) {
            case "b": return t[1];
            case "n": { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, BigInt("0x" + t[1])); return d.getFloat64(0); }
            case "s": return t[1].map(u => String.fromCharCode(u)).join("");
            case "u": return undefined;
            case "o": return {};
            case "a": { const a = vm.runInContext("[]", context); t[1].forEach(x => a.push(untag(x))); return a; }
        }
    }
    function rec(name, self) { return function (...a) { obs.push(["call", name, this === self() ? "self" : "other", a.map(tag)]); }; }
    const page = vm.runInContext("this", context);
    box.window = page;
    box.TextEncoder = TextEncoder;
    box.TextDecoder = TextDecoder;
    box.location = { port: "8080" };
    box.console = { log: (...a) => obs.push(["log", a.map(tag)]), error: (...a) => obs.push(["error"]) };
    box.document = { createElement: n => ({ element: n }), body: { appendChild: e => obs.push(["script", e.element, tag(e.text)]) } };
    box.f = rec("f", () => page);
    box.grow = rec("grow", () => page);
    box.ns = {};
    box.ns.f = rec("ns.f", () => box.ns);
    box.ns.deep = {};
    box.ns.deep.h = rec("ns.deep.h", () => box.ns.deep);
    box.bad = function (...a) { obs.push(["call", "bad", this === page ? "self" : "other", a.map(tag)]); throw new Error("bad"); };
    box.relay = function (...a) { obs.push(["call", "relay", this === page ? "self" : "other", a.map(tag)]); box.webFront.cppFunction("back").apply(null, a); };
    box.WebSocket = function (url, protocol) { socket = this; obs.push(["socket", url, protocol]); this.binaryType = "blob"; };
    box.WebSocket.prototype.send = function (data) {
        const u = data.byteLength !== undefined && data.buffer === undefined ? new Uint8Array(data) : new Uint8Array(data.buffer, data.byteOffset, data.byteLength);
        obs.push(["send", Array.from(u)]);
    };
    vm.runInContext(src, context);
    for (const op of ops)
        try {
            if (op[0] === "open") socket.onopen({});
            else if (op[0] === "close") socket.onclose({ wasClean: op[1], code: 1000, reason: "" });
            else if (op[0] === "error") socket.onerror({});
            else if (op[0] === "message") {
                if (socket.binaryType !== "arraybuffer") { obs.push(["not binary"]); continue; }
                const u = vm.runInContext("new Uint8Array(" + op[1].length + ")", context);
                op[1].forEach((b, i) => u[i] = b);
                socket.onmessage({ data: u.buffer });
            } else if (op[0] === "cpp") box.webFront.cppFunction(untag(op[1])).apply(null, op[2].map(untag));
            else if (op[0] === "bind") box["bound" + op[1]] = box.webFront.cppFunction(untag(op[2]));
            else if (op[0] === "bound") box["bound" + op[1]].apply(null, op[2].map(untag));
        } catch (e) {
            obs.push(["throw"]);
        }
    return obs;
}
process.stdout.write(JSON.stringify(runs.map(run)));
