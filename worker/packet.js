// Stands in for the runtime library the generated code imports, which is not part of the repository:
// little-endian, a sticky `failed` flag on overrun after which every read gives nothing, one byte per string character.
'use strict';

// Thrown when generated code does far more work than its input warrants.
class Budget extends Error {}
const AFTER_FAILURE = 50000;
const TOTAL = 20000000;

class Reader {
    constructor(data) {
        if (!(data instanceof ArrayBuffer)) throw new TypeError('Reader needs an ArrayBuffer');
        this.view = new DataView(data);
        this.at = 0;
        this.failed = false;
        this.after = 0;
        this.total = 0;
    }
    take(n) {
        if (++this.total > TOTAL) throw new Budget();
        if (this.failed && ++this.after > AFTER_FAILURE) throw new Budget();
        if (this.failed || this.at + n > this.view.byteLength) {
            this.failed = true;
            return -1;
        }
        const p = this.at;
        this.at += n;
        return p;
    }
    read_uint8() { const p = this.take(1); return p < 0 ? 0 : this.view.getUint8(p); }
    read_uint16() { const p = this.take(2); return p < 0 ? 0 : this.view.getUint16(p, true); }
    read_uint32() { const p = this.take(4); return p < 0 ? 0 : this.view.getUint32(p, true); }
    read_int8() { const p = this.take(1); return p < 0 ? 0 : this.view.getInt8(p); }
    read_int16() { const p = this.take(2); return p < 0 ? 0 : this.view.getInt16(p, true); }
    read_int32() { const p = this.take(4); return p < 0 ? 0 : this.view.getInt32(p, true); }
    read_float() { const p = this.take(4); return p < 0 ? 0 : this.view.getFloat32(p, true); }
    read_string(len) {
        const p = this.take(len);
        if (p < 0) return '';
        let o = '';
        for (let i = 0; i < len; ++i) o += String.fromCharCode(this.view.getUint8(p + i));
        return o;
    }
}

class Writer {
    constructor(buffer) {
        this.buffer = buffer || new ArrayBuffer(64);
        this.view = new DataView(this.buffer);
        this.at = 0;
        this.total = 0;
    }
    give(n) {
        if (++this.total > TOTAL) throw new Budget();
        if (this.at + n > this.buffer.byteLength) {
            const b = new ArrayBuffer((this.at + n) * 2);
            new Uint8Array(b).set(new Uint8Array(this.buffer, 0, this.at));
            this.buffer = b;
            this.view = new DataView(b);
        }
        const p = this.at;
        this.at += n;
        return p;
    }
    num(v) {
        if (typeof v !== 'number') throw new TypeError('expected a number, got ' + typeof v);
        return v;
    }
    write_uint8(v) { const p = this.give(1); this.view.setUint8(p, this.num(v)); }
    write_uint16(v) { const p = this.give(2); this.view.setUint16(p, this.num(v), true); }
    write_uint32(v) { const p = this.give(4); this.view.setUint32(p, this.num(v), true); }
    write_int8(v) { const p = this.give(1); this.view.setInt8(p, this.num(v)); }
    write_int16(v) { const p = this.give(2); this.view.setInt16(p, this.num(v), true); }
    write_int32(v) { const p = this.give(4); this.view.setInt32(p, this.num(v), true); }
    write_float(v) {
        this.num(v);
        const p = this.give(4);
        if (Number.isNaN(v)) this.view.setUint32(p, 0x7fc00000, true);
        else this.view.setFloat32(p, v, true);
    }
    write_string(v) {
        if (typeof v !== 'string') throw new TypeError('expected a string, got ' + typeof v);
        const p = this.give(v.length);
        for (let i = 0; i < v.length; ++i) this.view.setUint8(p + i, v.charCodeAt(i));
    }
    finish() { return this.buffer.slice(0, this.at); }
}

// The generated reader sizes arrays before filling them; a length no test input warrants ends the read.
function SafeArray(n) {
    if (arguments.length === 1 && typeof n === 'number' && n > 4000000) throw new Budget();
    return new Array(...arguments);
}
SafeArray.isArray = Array.isArray;
SafeArray.from = Array.from.bind(Array);
SafeArray.of = Array.of.bind(Array);
SafeArray.prototype = Array.prototype;

module.exports = { Reader, Writer, Budget, SafeArray };
