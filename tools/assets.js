// node assets.js DIR : decodes every DIR/asset.X with DIR/asset.X.json {name, encoding} and checks that it is what its name says.
'use strict';
const fs = require('fs'), path = require('path'), zlib = require('zlib'), vm = require('vm'), crypto = require('crypto');

const codecs = { '': b => b, br: b => zlib.brotliDecompressSync(b), gzip: b => zlib.gunzipSync(b) };
// names that carry an exact release: its published files
const releases = {
    'jasmine/4.6.0/jasmine_favicon.png': 'd96205cca42bc70cb435dbbfb5e932da63da2d707cf49064408242e346204913',
    'jasmine/4.6.0/jasmine.css': '86a8db72e303b1443819024928215941cbc0acf74ef12e9c68d28cb251b03c5b',
    'jasmine/4.6.0/jasmine.js': '94026d80781b805304b995098b463a4b45b966fe1687da9ed4003049e542f8a2',
    'jasmine/4.6.0/jasmine-html.js': '48ee074b2835886eadbe64fc43cf908a8d029164f5fec5d9e7ae7d9349e4b197',
    'jasmine/4.6.0/boot0.js': '8c25fe6aa52d76ccd11c6d450690651ea8630aef3ad491066f9c179285ba722b',
    'jasmine/4.6.0/boot1.js': '4daa2eb7e9815e7700e74ebfcb866e774ac8e36291d9d0382f684d57816f3fbe',
    'babel-standalone@7.22.5/babel.min.js': 'ee17810b11af1c9b97ac2d85752b9f73b9ba37d9f50ba6312e0709013ebeec6e',
};
// the same for files that name their release themselves
const react = '18.2.0', reactSum = '4b4969fa4ef3594324da2c6d78ce8766fbbc2fd121fff395aedf997db0a99a06', reactDomSum = '21758ed084cd0e37e735722ee4f3957ea960628a29dfa6c3ce1a1d47a2d6e4f7';
function sha(b) { return crypto.createHash('sha256').update(b).digest('hex'); }
function bad(what) { throw new Error(what); }
function must(c, what) { if (!c) bad(what); }
function text(b) {
    const s = new TextDecoder('utf-8', { fatal: true }).decode(b);
    must(!s.includes('\0'), 'NUL in text');
    return s;
}
function script(b) { const s = text(b); new vm.Script(s); return s; }
function browser() {
    const c = vm.createContext({ setTimeout, clearTimeout, setInterval, clearInterval, console });
    vm.runInContext('var window = globalThis, self = globalThis;', c);
    return c;
}
function png(b) {
    must(b.subarray(0, 8).equals(Buffer.from('\x89PNG\r\n\x1a\n', 'latin1')), 'no PNG signature');
    let at = 8, last = '';
    while (at < b.length) {
        const n = b.readUInt32BE(at);
        last = b.toString('latin1', at + 4, at + 8);
        must(at + 12 + n <= b.length, 'truncated PNG chunk');
        must(zlib.crc32(b.subarray(at + 4, at + 8 + n)) === b.readUInt32BE(at + 8 + n), 'wrong CRC of PNG chunk ' + last);
        at += 12 + n;
    }
    must(last === 'IEND', 'PNG does not end with IEND');
}
function ico(b) {
    must(b.readUInt16LE(0) === 0 && b.readUInt16LE(2) === 1 && b.readUInt16LE(4) > 0, 'no ICO header');
    let end = 6 + 16 * b.readUInt16LE(4);
    for (let i = 0; i < b.readUInt16LE(4); ++i) {
        const size = b.readUInt32LE(6 + 16 * i + 8), at = b.readUInt32LE(6 + 16 * i + 12);
        must(at === end, 'ICO image ' + i + ' is not where it should be');
        end = at + size;
    }
    must(end === b.length, 'ICO of ' + b.length + ' bytes ends at ' + end);
}
function css(b, ...markers) {
    const s = text(b).replace(/"(\\.|[^"\\])*"|'(\\.|[^'\\])*'/g, '').replace(/url\([^)]*\)/g, '').replace(/\/\*[\s\S]*?\*\//g, '');
    let depth = 0;
    for (const c of s) { if (c === '{') ++depth; if (c === '}') must(--depth >= 0, 'unbalanced CSS'); }
    must(depth === 0, 'unbalanced CSS');
    for (const m of markers) must(s.includes(m), 'no ' + m + ' in the CSS');
}
const decoded = {};
const kinds = {
    'index.html': b => { const s = text(b).trim(); must(/^<!doctype html>/i.test(s) && s.endsWith('</html>') && /<script\s+src="\/?WebFront\.js"><\/script>/.test(s), 'no page loading WebFront.js'); },
    'favicon.ico': ico,
    'WebFront.js': b => { const s = script(b); must(/WebSocket/.test(s) && /webFront/.test(s) && /cppFunction/.test(s), 'not the client'); },
    'jasmine/4.6.0/jasmine_favicon.png': png,
    'jasmine/4.6.0/jasmine.css': b => css(b, '.jasmine_html-reporter'),
    'jasmine/4.6.0/jasmine.js': b => {
        const c = browser();
        vm.runInContext(script(b), c);
        must(vm.runInContext('var j = jasmineRequire.core(jasmineRequire); j.version', c) === '4.6.0', 'not Jasmine 4.6.0');
    },
    'jasmine/4.6.0/jasmine-html.js': b => {
        const c = browser();
        vm.runInContext(script(decoded['jasmine/4.6.0/jasmine.js']), c);
        vm.runInContext(script(b), c);
        must(vm.runInContext('var j = jasmineRequire.core(jasmineRequire); jasmineRequire.html(j); typeof j.HtmlReporter', c) === 'function', 'no HTML reporter');
    },
    'jasmine/4.6.0/boot0.js': b => must(/jasmineRequire\.core\(/.test(script(b)), 'not the first boot file'),
    'jasmine/4.6.0/boot1.js': b => must(/HtmlReporter/.test(script(b)) && /execute\(/.test(text(b)), 'not the second boot file'),
    'react@18/umd/react.production.min.js': b => {
        const c = browser();
        vm.runInContext(script(b), c);
        must(/^18\./.test(vm.runInContext('React.version', c)), 'not React 18');
        must(vm.runInContext('var e = React.createElement("b", {id: 1}, "t"); e.type + e.props.id + e.props.children', c) === 'b1t', 'React creates no element');
        must(vm.runInContext('React.version', c) !== react || sha(b) === reactSum, 'not the React of this release');
        must(!vm.runInContext('typeof ReactDOM === "object"', c), 'React DOM instead of React');
    },
    'react-dom@18/umd/react-dom.production.min.js': b => {
        const c = browser();
        vm.runInContext(script(decoded['react@18/umd/react.production.min.js']), c);
        vm.runInContext(script(b), c);
        must(/^18\./.test(vm.runInContext('ReactDOM.version', c)) && vm.runInContext('typeof ReactDOM.createRoot', c) === 'function', 'not React DOM 18');
        must(!vm.runInContext('ReactDOM.version', c).startsWith(react) || sha(b) === reactDomSum, 'not the React DOM of this release');
    },
    'babel-standalone@7.22.5/babel.min.js': b => {
        const c = browser();
        vm.runInContext(script(b), c);
        must(vm.runInContext('Babel.version', c) === '7.22.5', 'not Babel 7.22.5');
        must(/React\.createElement\("b"/.test(vm.runInContext('Babel.transform("var x = <b>t</b>;", {presets: ["react"]}).code', c)), 'Babel transforms nothing');
    },
};
let done = 0;
const dir = process.argv[2];
const assets = fs.readdirSync(dir).filter(f => /^asset\..*\.json$/.test(f)).map(f => {
    const m = JSON.parse(fs.readFileSync(path.join(dir, f), 'utf8'));
    return { ...m, data: fs.readFileSync(path.join(dir, f.slice(0, -5))) };
});
const order = Object.keys(kinds);
assets.sort((a, b) => order.indexOf(a.name) - order.indexOf(b.name));
try {
    for (const a of assets) {
        try {
            must(a.encoding in codecs, 'unknown encoding');
            const out = codecs[a.encoding](a.data);
            if (a.encoding) { // every byte is needed: nothing follows the end of the stream
                let whole = true;
                try { codecs[a.encoding](a.data.subarray(0, -1)); } catch (e) { whole = false; }
                must(!whole, 'bytes follow the end of the compressed data');
            }
            decoded[a.name] = out;
            kinds[a.name](out);
            const sum = sha(out);
            must(!(a.name in releases) || releases[a.name] === sum, 'not the file of this release');
            ++done;
        } catch (e) {
            console.log('BAD ASSET ' + a.name + ' (' + a.encoding + '): ' + e.message);
            process.exitCode = 1;
        }
    }
} catch (e) { console.log(e); process.exitCode = 1; }
console.log('ASSETS ' + done + ' of ' + order.length);
if (done !== order.length) process.exitCode = 1;
