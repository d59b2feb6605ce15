// Compiles, type-checks, inspects and runs generated modules. One JSON request per frame
// (u32 LE length + body) on standard input, one JSON response per frame on standard output.
'use strict';
const fs = require('fs');
const path = require('path');
const ts = require(process.env.VP_TYPESCRIPT || '/opt/veriftools/node/node_modules/typescript');
const rt = require('./packet.js');
const stripper = require('module').stripTypeScriptTypes;

const dts = fs.readFileSync(path.join(__dirname, 'packet.d.ts'), 'utf8');
const libdir = path.dirname(ts.getDefaultLibFilePath({})) + '/';
const cache = new Map();

function host(text) {
    const h = {
        out: null,
        getSourceFile(f, l) {
            if (f === '/gen.ts') return ts.createSourceFile(f, text, l);
            if (cache.has(f)) return cache.get(f);
            const t = f === '/packet.d.ts' ? dts : ts.sys.readFile(f);
            if (t === undefined) return undefined;
            const s = ts.createSourceFile(f, t, l);
            cache.set(f, s);
            return s;
        },
        getDefaultLibFileName: () => libdir + 'lib.es2020.d.ts',
        getDefaultLibLocation: () => libdir,
        writeFile(f, t) { h.out = t; },
        getCurrentDirectory: () => '/',
        getCanonicalFileName: x => x,
        useCaseSensitiveFileNames: () => true,
        getNewLine: () => '\n',
        fileExists: f => f === '/gen.ts' || f === '/packet.d.ts',
        readFile: () => undefined,
        resolveModuleNames: n => n.map(x => x === 'packet' ? { resolvedFileName: '/packet.d.ts' } : undefined),
    };
    return h;
}
const base = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, strict: true, types: [], skipLibCheck: true, skipDefaultLibCheck: true };
const fast = { ...base, noLib: true, noResolve: true, noCheck: true };
let old;

function typed(text) {
    const h = host(text);
    const p = ts.createProgram({ rootNames: ['/gen.ts'], options: base, host: h, oldProgram: old });
    old = p;
    const f = p.getSourceFile('/gen.ts');
    const ds = [...p.getSyntacticDiagnostics(f), ...p.getSemanticDiagnostics(f), ...p.getGlobalDiagnostics(), ...p.getOptionsDiagnostics()];
    const diags = ds.filter(d => d.category === ts.DiagnosticCategory.Error).map(d => {
        const at = d.file && d.start !== undefined ? d.file.getLineAndCharacterOfPosition(d.start).line + 1 : 0;
        return `line ${at}: TS${d.code} ${ts.flattenDiagnosticMessageText(d.messageText, ' ')}`;
    });
    p.emit();
    return { p, f, diags, js: h.out };
}
function emit(text) {
    const h = host(text);
    const p = ts.createProgram({ rootNames: ['/gen.ts'], options: fast, host: h });
    p.emit();
    return h.out;
}

// The class alone, made ready by the type stripper that comes with node, which is ten times as fast.
// Types and const enums leave nothing behind. Null if the module has another shape than expected.
function strip(text, exp) {
    if (!stripper) return null;
    let js;
    try {
        js = stripper(text, { mode: 'transform' });
    } catch (e) {
        return null;
    }
    const m = /^((?:\s|\/\/.*\n)*)import \{([\w\s,]*)\} from "packet";\n(?:\(function\([\s\S]*?)?^export (class (\w+) \{[\s\S]*)$/m.exec(js);
    if (!m || m[4] !== exp || js.indexOf(m[0]) !== 0) return null;
    // the stripper declares the merged namespace a second time
    const body = m[3].replace(`\nexport var ${exp};`, '');
    if (/^(?:export|import)\b/m.test(body)) return null;
    return `"use strict";\nconst {${m[2]}} = require("packet");\n${body}\nexports.${exp} = ${exp};\n`;
}

// ---------------------------------------------------------------- declared API

function surface({ p, f }) {
    const c = p.getTypeChecker();
    const F = ts.TypeFlags, S = ts.SymbolFlags;
    function owner(sym) {
        // the enclosing declared names, outermost first
        const names = [];
        for (let n = sym.declarations && sym.declarations[0]; n && !ts.isSourceFile(n); n = n.parent) {
            if ((ts.isModuleDeclaration(n) || ts.isClassDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isEnumDeclaration(n)) && n.name) names.unshift(n.name.text);
        }
        return names.join('.');
    }
    function show(t, node) {
        if (t.flags & F.Union && !(t.flags & F.EnumLike)) {
            const parts = t.types;
            const undef = parts.some(x => x.flags & F.Undefined), nul = parts.some(x => x.flags & F.Null);
            if (undef || nul) {
                const r = c.getNonNullableType(t);
                if (r.flags & F.Never) return undef ? 'undefined' : 'null';
                return show(r, node) + (undef ? '|undefined' : '') + (nul ? '|null' : '');
            }
        }
        if (t.flags & F.EnumLike) {
            let s = t.symbol;
            if (s && s.flags & S.EnumMember) s = c.getSymbolAtLocation(s.valueDeclaration.parent.name) || s;
            return 'enum ' + owner(s);
        }
        if (t.flags & F.Number) return 'number';
        if (t.flags & F.String) return 'string';
        if (c.isArrayType(t)) return show(c.getTypeArguments(t)[0], node) + '[]';
        if (t.symbol && t.symbol.flags & S.Class) return 'class ' + owner(t.symbol);
        if (t.symbol && t.symbol.flags & S.Interface) {
            const d = t.symbol.declarations[0];
            return d.getSourceFile() === f ? 'interface ' + owner(t.symbol) : 'lib ' + t.symbol.name;
        }
        return 'other ' + c.typeToString(t);
    }
    const mod = c.getSymbolAtLocation(f);
    const out = { exports: [] };
    if (!mod) return out;
    for (const sym of c.getExportsOfModule(mod)) {
        const e = { name: sym.name, cls: !!(sym.flags & S.Class), types: [] };
        out.exports.push(e);
        if (sym.flags & S.Class) {
            const st = c.getTypeOfSymbolAtLocation(sym, f);
            const ctor = st.getConstructSignatures();
            e.ctors = ctor.map(s => s.parameters.map(q => {
                const d = q.valueDeclaration;
                return [q.name, show(c.getTypeOfSymbolAtLocation(q, d), d), !!(d && (d.questionToken || d.initializer || d.dotDotDotToken))];
            }));
            const inst = c.getDeclaredTypeOfSymbol(sym);
            e.members = c.getPropertiesOfType(inst).map(m => {
                const d = m.valueDeclaration;
                const t = c.getTypeOfSymbolAtLocation(m, d);
                const mods = ts.getCombinedModifierFlags(d);
                const vis = mods & ts.ModifierFlags.Private ? 'private' : mods & ts.ModifierFlags.Protected ? 'protected' : 'public';
                if (m.flags & S.Method) {
                    return [m.name, 'method', t.getCallSignatures().map(s => sig(s, show, c)), vis];
                }
                return [m.name, show(t, d), !!(m.flags & S.Optional), vis];
            });
            e.statics = c.getPropertiesOfType(st).filter(m => m.name !== 'prototype' && m.flags & S.Method).map(m =>
                [m.name, c.getTypeOfSymbolAtLocation(m, m.valueDeclaration).getCallSignatures().map(s => sig(s, show, c))]);
        }
        if (sym.flags & S.Module) {
            for (const t of c.getExportsOfModule(sym)) {
                if (t.flags & S.Enum) {
                    e.types.push({ kind: 'enum', name: t.name, items: t.declarations.flatMap(d => d.members.map(m => [m.name.text, c.getConstantValue(m)])) });
                } else if (t.flags & S.Interface) {
                    const ty = c.getDeclaredTypeOfSymbol(t);
                    e.types.push({ kind: 'interface', name: t.name, items: c.getPropertiesOfType(ty).map(m => [m.name, show(c.getTypeOfSymbolAtLocation(m, m.valueDeclaration), m.valueDeclaration), !!(m.flags & S.Optional)]) });
                } else if (!(t.flags & (S.Method | S.Prototype | S.Property))) {
                    e.types.push({ kind: 'other', name: t.name, items: [] });
                }
            }
        }
    }
    return out;
}
function sig(s, show, c) {
    return [s.parameters.map(q => {
        const d = q.valueDeclaration;
        return [q.name, show(c.getTypeOfSymbolAtLocation(q, d), d), !!(d && d.questionToken)];
    }), show(c.getReturnTypeOfSignature(s))];
}

// ---------------------------------------------------------------- values

const f64 = new DataView(new ArrayBuffer(8));
function dec(j) {
    if (typeof j === 'number') return j;
    if (typeof j === 'string') {
        switch (j[0]) {
            case 'n': f64.setBigUint64(0, BigInt('0x' + j.slice(1))); return f64.getFloat64(0);
            case 's': return j.slice(1);
            case 'u': case 'm': return undefined;
            case 'z': return null;
        }
    }
    if (Array.isArray(j)) return j.map(dec);
    const o = {};
    for (const k of Object.keys(j)) if (j[k] !== 'm') o[k] = dec(j[k]);
    return o;
}
function enc(v) {
    switch (typeof v) {
        case 'number':
            if (Number.isInteger(v) && !Object.is(v, -0) && Math.abs(v) < 9e15) return v;
            f64.setFloat64(0, v);
            return 'n' + f64.getBigUint64(0).toString(16).padStart(16, '0');
        case 'string': return 's' + v;
        case 'undefined': return 'u';
        case 'object': break;
        default: return '?' + typeof v;
    }
    if (v === null) return 'z';
    if (Array.isArray(v)) {
        if (v.length > 300000) return '?array of ' + v.length;
        const o = new Array(v.length);
        for (let i = 0; i < v.length; ++i) o[i] = enc(v[i]);
        return o;
    }
    const o = {};
    for (const k of Object.keys(v)) Object.defineProperty(o, k, { value: enc(v[k]), enumerable: true });
    return o;
}
const hex = b => Buffer.from(b).toString('hex');
function buf(h) {
    const b = Buffer.from(h, 'hex');
    return b.buffer.slice(b.byteOffset, b.byteOffset + b.length);
}
function bytes(r) {
    if (!(r instanceof ArrayBuffer)) throw new TypeError('write returned ' + typeof r);
    return hex(r);
}
const make = (C, v) => new C(...Object.keys(v).map(k => dec(v[k])));

function failure(e) {
    if (e instanceof rt.Budget) return { k: 1 };
    return { e: String(e && e.name) + ': ' + String(e && e.message).slice(0, 300) };
}
function guard(f) {
    try { return f(); } catch (e) { return failure(e); }
}
function read(C, b) {
    const r = C.read(b);
    return r === null ? { z: 1 } : { v: enc(r) };
}

// changes everything reachable from an object
function scramble(v) {
    if (Array.isArray(v)) {
        for (let i = 0; i < v.length; ++i) v[i] = change(v[i]);
        v.push(1);
        return;
    }
    for (const k of Object.keys(v)) v[k] = change(v[k]);
    // no field is called this
    v['+'] = 1;
}
function change(x) {
    if (typeof x === 'number') return x === 7 ? 8 : 7;
    if (typeof x === 'string') return x + '!';
    if (x && typeof x === 'object') { scramble(x); return x; }
    return 1;
}

const ops = {
    // construct and write
    w: (C, o) => ({ b: bytes(make(C, o.v).write()) }),
    // read
    r: (C, o) => read(C, buf(o.b)),
    // read, then write what was read
    rw: (C, o) => {
        const r = C.read(buf(o.b));
        if (r === null) return { z: 1 };
        const v = enc(r);
        return { v, b: bytes(C.prototype.write.call(r)) };
    },
    // write, read, write what was read
    rt: (C, o) => {
        const b1 = make(C, o.v).write();
        const out = { b: bytes(b1) };
        const r = C.read(b1.slice(0));
        if (r === null) return Object.assign(out, { z: 1 });
        out.v = enc(r);
        out.b2 = bytes(C.prototype.write.call(r));
        return out;
    },
    // read many
    rs: (C, o) => ({ l: o.l.map(b => guard(() => read(C, buf(b)))) }),
    // what kind of object reading gives
    inst: (C, o) => {
        const r = C.read(buf(o.b));
        return { i: r instanceof C, w: r !== null && typeof r.write === 'function' };
    },
    // the fields of a constructed object
    fields: (C, o) => ({ v: enc(make(C, o.v)) }),
    // a history of writes, reads and changes
    pure: (C, o) => {
        const out = {};
        const a = make(C, o.v);
        const before = JSON.stringify(enc(a));
        const b1 = a.write();
        out.first = bytes(b1);
        const keep = b1.slice(0);
        const c = make(C, o.v2);
        out.other = bytes(c.write());
        out.second = bytes(a.write());
        out.unchanged = JSON.stringify(enc(a)) === before;
        const room = new ArrayBuffer(b1.byteLength + o.spare);
        new Uint8Array(room).fill(o.fill);
        out.into = bytes(a.write(room));
        // the buffer has room for the packet, so that is where it is
        out.used = hex(room).startsWith(out.first);
        const again = new ArrayBuffer(b1.byteLength + o.spare);
        new Uint8Array(again).fill(o.fill);
        out.intoOther = bytes(c.write(again.byteLength >= out.other.length / 2 ? again : undefined));
        const r1 = C.read(b1), r2 = C.read(b1), s1 = C.read(buf(o.b2));
        out.input = hex(b1) === hex(keep);
        if (r1 === null || r2 === null || s1 === null) return Object.assign(out, { z: 1 });
        out.r1 = enc(r1);
        out.s1 = enc(s1);
        scramble(r1);
        out.r2 = enc(r2);
        out.r3 = enc(C.read(b1));
        out.s2 = enc(s1);
        out.third = bytes(a.write());
        out.rewrite = bytes(C.prototype.write.call(r2));
        out.afterRewrite = enc(r2);
        scramble(a);
        out.kept = hex(b1) === hex(keep);
        out.r4 = enc(C.read(b1));
        const d = make(C, o.v);
        out.fresh = bytes(d.write());
        // the same object with other contents, and the same buffer
        out.assigned = bytes(Object.assign(d, make(C, o.v2)).write());
        const b2 = buf(o.b2);
        const shared = new Uint8Array(Math.max(keep.byteLength, b2.byteLength));
        shared.set(new Uint8Array(keep));
        out.r5 = enc(C.read(shared.buffer));
        shared.set(new Uint8Array(b2));
        out.s3 = enc(C.read(shared.buffer));
        return out;
    },
};

function load(js, exp) {
    const exports = {};
    const fn = new Function('exports', 'require', 'Array', js);
    fn(exports, n => {
        if (n !== 'packet') throw new Error('unexpected import ' + n);
        return rt;
    }, rt.SafeArray);
    const C = exports[exp];
    if (typeof C !== 'function') throw new Error('no class ' + exp);
    return C;
}

function handle(q) {
    const out = {};
    let js, fast;
    if (q.check || q.surface) {
        const t = typed(q.ts);
        out.diags = t.diags;
        if (q.surface) out.surface = surface(t);
        js = t.js;
    } else if (q.ops) {
        js = q.fast && strip(q.ts, q.exp);
        if (js) {
            try {
                fast = load(js, q.exp);
            } catch (e) {
                js = null;
            }
        }
        if (!js) js = emit(q.ts);
    }
    if (q.ops) {
        let C;
        try {
            C = fast || load(js, q.exp);
        } catch (e) {
            out.load = failure(e).e || 'budget';
            return out;
        }
        out.res = q.ops.map(o => guard(() => ops[o.op](C, o)));
    }
    return out;
}

let pending = Buffer.alloc(0);
function readExact(n) {
    while (pending.length < n) {
        const chunk = Buffer.alloc(Math.max(65536, n - pending.length));
        let k;
        try {
            k = fs.readSync(0, chunk, 0, chunk.length, null);
        } catch (e) {
            if (e.code === 'EAGAIN') continue;
            if (e.code === 'EOF') process.exit(0);
            throw e;
        }
        if (k === 0) process.exit(0);
        pending = Buffer.concat([pending, chunk.subarray(0, k)]);
    }
    const r = pending.subarray(0, n);
    pending = pending.subarray(n);
    return r;
}
function writeAll(b) {
    let at = 0;
    while (at < b.length) {
        try {
            at += fs.writeSync(1, b, at);
        } catch (e) {
            if (e.code !== 'EAGAIN') throw e;
        }
    }
}
for (;;) {
    const q = JSON.parse(readExact(readExact(4).readUInt32LE(0)).toString('utf8'));
    let r;
    try {
        r = handle(q);
    } catch (e) {
        r = { fatal: String(e && e.stack || e) };
    }
    const body = Buffer.from(JSON.stringify(r), 'utf8');
    const head = Buffer.alloc(4);
    head.writeUInt32LE(body.length);
    writeAll(head);
    writeAll(body);
}
