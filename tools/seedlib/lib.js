// Helpers for a demonstration: compiles schemas with the built program and runs the code it writes.
'use strict';
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const BIN = path.resolve('target/debug/packetc');
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-'));
process.on('exit', () => fs.rmSync(scratch, { recursive: true, force: true }));

function cli(args, cwd) {
    const r = cp.spawnSync(BIN, args, { cwd: cwd || scratch, encoding: 'utf8', timeout: 60000 });
    if (r.error && r.error.code !== 'ETIMEDOUT') throw r.error;
    return r;
}
let n = 0;
// The generated module, or null with the message in compile.error.
function compile(text) {
    const d = path.join(scratch, 'c' + n++);
    fs.mkdirSync(d);
    fs.writeFileSync(path.join(d, 'x.pkt'), text);
    const r = cli(['ts', path.join(d, 'x.pkt'), path.join(d, 'out')]);
    compile.error = r.stderr;
    compile.status = r.status;
    const f = path.join(d, 'out', 'x.ts');
    return r.status === 0 && fs.existsSync(f) ? fs.readFileSync(f, 'utf8') : null;
}
class Reader {
    constructor(b) { this.v = new DataView(b); this.at = 0; this.failed = false; }
    take(k) {
        if (this.failed || this.at + k > this.v.byteLength) { this.failed = true; return -1; }
        const p = this.at; this.at += k; return p;
    }
    read_string(k) {
        const p = this.take(k); let o = '';
        for (let i = 0; p >= 0 && i < k; ++i) o += String.fromCharCode(this.v.getUint8(p + i));
        return o;
    }
}
class Writer {
    constructor(o) { this.b = []; this.o = o; }
    write_string(s) { for (let i = 0; i < s.length; ++i) this.b.push(s.charCodeAt(i)); }
    finish() {
        if (this.o && this.o.byteLength >= this.b.length) new Uint8Array(this.o).set(this.b);
        return new Uint8Array(this.b).buffer;
    }
}
for (const [name, m, k] of [['uint8', 'Uint8', 1], ['uint16', 'Uint16', 2], ['uint32', 'Uint32', 4], ['int8', 'Int8', 1],
    ['int16', 'Int16', 2], ['int32', 'Int32', 4], ['float', 'Float32', 4]]) {
    Reader.prototype['read_' + name] = function () { const p = this.take(k); return p < 0 ? 0 : this.v['get' + m](p, true); };
    Writer.prototype['write_' + name] = function (x) {
        const d = new DataView(new ArrayBuffer(k)); d['set' + m](0, x, true);
        for (let i = 0; i < k; ++i) this.b.push(d.getUint8(i));
    };
}
// The exports of a module.
function load(module) {
    let js = null;
    program(module).emit(undefined, (f, t) => { if (f.endsWith('m.js')) js = t; });
    const e = {};
    new Function('exports', 'require', js)(e, () => ({ Reader, Writer }));
    return e;
}
function cls(text) {
    const m = compile(text);
    if (m === null) fail('does not compile: ' + compile.error);
    return Object.values(load(m))[0];
}
const hex = b => Buffer.from(b).toString('hex');
const write = (C, v) => hex(C.prototype.write.call(v));
const read = (C, h) => { const b = Buffer.from(h, 'hex'); return C.read(new Uint8Array(b).buffer); };
// Own properties only, as JSON.
const plain = v => JSON.stringify(v, (k, x) => (x === undefined ? null : x));
function program(module) {
    const files = {
        '/m.ts': module,
        '/packet.d.ts': 'declare module "packet" { class Reader { failed: boolean; constructor(b: ArrayBuffer); [k: string]: any } class Writer { constructor(b?: ArrayBuffer); [k: string]: any } }',
    };
    const opt = { strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, types: [] };
    const base = ts.createCompilerHost(opt);
    const host = Object.assign({}, base, {
        fileExists: f => f in files || base.fileExists(f),
        readFile: f => files[f] ?? base.readFile(f),
        getSourceFile: (f, l) => (f in files ? ts.createSourceFile(f, files[f], l) : base.getSourceFile(f, l)),
    });
    return ts.createProgram(Object.keys(files), opt, host);
}
// What the TypeScript compiler says about a module.
const check = module => ts.getPreEmitDiagnostics(program(module)).map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n'));
function fail(m) { console.error('FAIL: ' + m); process.exit(1); }
function eq(a, b, what) { if (a !== b) fail(`${what}: expected ${b}, got ${a}`); }
module.exports = { scratch, cli, compile, load, cls, write, read, plain, check, fail, eq, fs, path, hex };
