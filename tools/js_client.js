// Runs the bundled client (WebFront.js, taken from the sources under test) with a fake browser around it.
//   js_client.js unpack RAW OUT                 decompresses the embedded asset
//   js_client.js replay WebFront.js FILE...     replays server messages; each line {"hex":..., "call":{name,args}|"script":text|"log":text|"none":true}
//   js_client.js calls WebFront.js SPEC OUT     makes the client call C++ functions and records the messages it sends
'use strict';
const fs = require('fs'), zlib = require('zlib'), vm = require('vm'), readline = require('readline');

function makeClient(source) {
    const events = [];
    const sockets = [];
    const sent = [];
    class WebSocket {
        constructor(url, protocol) { this.url = url; this.protocol = protocol; this.binaryType = 'blob'; sockets.push(this); }
        send(data) {
            let bytes = data instanceof ArrayBuffer ? new Uint8Array(data) : ArrayBuffer.isView(data) ? new Uint8Array(data.buffer, data.byteOffset, data.byteLength) : (() => { throw new Error('unexpected data sent'); })();
            sent.push(Buffer.from(bytes));
        }
    }
    const callable = path => new Proxy(function () {}, {
        get: (t, p) => p === 'apply' ? (ctx, args) => { events.push({ kind: 'call', name: path, args: Array.from(args) }); } : callable(path + '.' + String(p)),
    });
    const window = new Proxy({ location: { port: '80' } }, { get: (t, p) => p in t ? t[p] : callable(String(p)) });
    const document = {
        createElement: tag => ({ tag }),
        body: { appendChild: e => events.push({ kind: 'append', tag: e.tag, text: e.text }) },
    };
    const console_ = { log: (...a) => events.push({ kind: 'log', args: a }), error: (...a) => events.push({ kind: 'error', args: a }), warn: () => {} };
    const context = vm.createContext({ WebSocket, window, document, console: console_, TextDecoder, TextEncoder, ArrayBuffer, Uint8Array, Uint32Array, DataView });
    vm.runInContext(source, context, { filename: 'WebFront.js' });
    const socket = sockets[0];
    return { context, socket, sent, events, take: () => events.splice(0),
        open() { socket.onopen({}); },
        message(buf) { const ab = new ArrayBuffer(buf.length); new Uint8Array(ab).set(buf); socket.onmessage({ data: ab }); } };
}
function linked(source) {
    const c = makeClient(source);
    c.open();
    const hs = c.sent.splice(0);
    if (hs.length !== 1 || hs[0].toString('hex') !== '0000') throw new Error('unexpected handshake of the client: ' + hs.map(b => b.toString('hex')));
    c.message(Buffer.from('0100', 'hex'));
    c.take();
    return c;
}
function value(v) { // from its JSON form
    if (v.u) return undefined;
    if ('b' in v) return v.b;
    if ('d' in v) { const b = Buffer.from(v.d, 'hex'); return b.readDoubleLE(0); }
    if ('s' in v) return Buffer.from(v.s, 'hex').toString('utf8');
    return v.t.map(value);
}
function same(a, b) {
    if (Array.isArray(a) || Array.isArray(b)) return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
    return Object.is(a, b);
}
const short = x => { const s = JSON.stringify(x) || String(x); return s.length > 300 ? s.slice(0, 300) + '...' : s; };

async function main() {
    const [mode, ...args] = process.argv.slice(2);
    if (mode === 'unpack') {
        fs.writeFileSync(args[1], zlib.gunzipSync(fs.readFileSync(args[0])));
        return 0;
    }
    const source = fs.readFileSync(args[0], 'utf8');
    if (mode === 'replay') {
        const seen = new Set();
        let count = 0;
        const c = linked(source);
        for (const f of args.slice(1)) {
            for await (const line of readline.createInterface({ input: fs.createReadStream(f) })) {
                if (!line || seen.has(line)) continue;
                seen.add(line);
                const r = JSON.parse(line);
                ++count;
                let thrown = null;
                try { c.message(Buffer.from(r.hex, 'hex')); } catch (e) { thrown = e; }
                const ev = c.take();
                let why = null;
                if (thrown) why = 'the client throws ' + thrown;
                else if (r.call) {
                    const a = r.call.args.map(value);
                    if (ev.length !== 1 || ev[0].kind !== 'call') why = 'the client does ' + short(ev);
                    else if (ev[0].name !== Buffer.from(r.call.name, 'hex').toString('utf8')) why = 'the client calls ' + ev[0].name;
                    else if (!same(ev[0].args, a)) why = 'the client passes ' + short(ev[0].args) + ' instead of ' + short(a);
                }
                else if ('script' in r) {
                    const t = Buffer.from(r.script, 'hex').toString('utf8');
                    if (ev.length !== 1 || ev[0].kind !== 'append' || ev[0].tag !== 'script' || ev[0].text !== t) why = 'the client does ' + short(ev) + ' for script ' + short(t);
                }
                else if ('log' in r) {
                    const t = Buffer.from(r.log, 'hex').toString('utf8');
                    if (ev.length !== 1 || ev[0].kind !== 'log' || ev[0].args.length !== 1 || ev[0].args[0] !== t) why = 'the client does ' + short(ev) + ' for log ' + short(t);
                }
                if (why) { console.log('MISMATCH ' + short(r) + ': ' + why); return 1; }
            }
        }
        console.log('REPLAYED ' + count);
        return 0;
    }
    if (mode === 'handshake') {
        const c = makeClient(source);
        c.open();
        console.log(c.sent.map(b => b.toString('hex')).join(' '));
        return 0;
    }
    if (mode === 'calls') {
        // SPEC: lines {"name":hex,"args":[...]}; OUT: per line u32 length + message bytes
        const c = linked(source);
        const out = [];
        for await (const line of readline.createInterface({ input: fs.createReadStream(args[1]) })) {
            if (!line) continue;
            const r = JSON.parse(line);
            c.context.__f = c.context.webFront.cppFunction(Buffer.from(r.name, 'hex').toString('utf8'));
            c.context.__f(...r.args.map(value));
            const m = c.sent.splice(0);
            c.take();
            if (m.length !== 1) { console.log('the client sent ' + m.length + ' messages for ' + short(r)); return 1; }
            const h = Buffer.alloc(4);
            h.writeUInt32LE(m[0].length);
            out.push(h, m[0]);
        }
        fs.writeFileSync(args[2], Buffer.concat(out));
        return 0;
    }
    console.log('unknown mode');
    return 2;
}
main().then(r => process.exitCode = r, e => { console.log('FAILED ' + (e && e.stack || e)); process.exitCode = 1; });
