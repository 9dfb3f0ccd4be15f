// Renders the field templates with the repository's own generator, offline: stand-ins for the three npm packages it needs.
"use strict";
const Module = require("module"), fs = require("fs"), path = require("path");

class Big {
    constructor(v) { this.v = v; }
    static from(x, radix) {
        if (x instanceof Big) return x;
        if (typeof x === "bigint") return new Big(x);
        if (typeof x === "number") return new Big(BigInt(x));
        if (radix === undefined || radix === 10) return new Big(BigInt(x));
        let neg = false, s = String(x).toLowerCase(), r = 0n;
        if (s[0] === "-") { neg = true; s = s.slice(1); }
        for (const c of s) r = r * BigInt(radix) + BigInt(parseInt(c, 36));
        return new Big(neg ? -r : r);
    }
    static abs(v) { return v < 0n ? -v : v; }
}
const bin = {
    add: (a, b) => a + b, subtract: (a, b) => a - b, multiply: (a, b) => a * b, divide: (a, b) => a / b, mod: (a, b) => a % b,
    and: (a, b) => a & b, or: (a, b) => a | b, xor: (a, b) => a ^ b,
    shiftLeft: (a, b) => (b < 0n ? a >> -b : a << b), shiftRight: (a, b) => (b < 0n ? a << -b : a >> b),
    pow: (a, b) => a ** b,
    modInv: (a, m) => { let [r0, r1, s0, s1] = [((a % m) + m) % m, m, 1n, 0n]; while (r1) { const q = r0 / r1; [r0, r1] = [r1, r0 - q * r1]; [s0, s1] = [s1, s0 - q * s1]; } if (r0 !== 1n) throw new Error("not invertible"); return ((s0 % m) + m) % m; },
};
for (const k in bin) Big.prototype[k] = function (o) { return new Big(bin[k](this.v, Big.from(o).v)); };
const al = { plus: "add", minus: "subtract", sub: "subtract", times: "multiply", over: "divide", remainder: "mod" };
for (const k in al) Big.prototype[k] = Big.prototype[al[k]];
const cmp = { eq: (a, b) => a === b, neq: (a, b) => a !== b, lt: (a, b) => a < b, leq: (a, b) => a <= b, gt: (a, b) => a > b, geq: (a, b) => a >= b };
for (const k in cmp) Big.prototype[k] = function (o) { return cmp[k](this.v, Big.from(o).v); };
const cl = { equals: "eq", notEquals: "neq", lesser: "lt", lesserOrEquals: "leq", greater: "gt", greaterOrEquals: "geq" };
for (const k in cl) Big.prototype[k] = Big.prototype[cl[k]];
Object.assign(Big.prototype, {
    modPow(e, m) { let r = 1n, b = this.v, x = Big.from(e).v; m = Big.from(m).v; b = ((b % m) + m) % m; while (x) { if (x & 1n) r = r * b % m; b = b * b % m; x >>= 1n; } return new Big(r); },
    divmod(o) { return { quotient: this.divide(o), remainder: this.mod(o) }; },
    compare(o) { const b = Big.from(o).v; return this.v < b ? -1 : this.v > b ? 1 : 0; },
    bitLength() { const a = Big.abs(this.v); return new Big(BigInt(a === 0n ? 0 : a.toString(2).length)); },
    negate() { return new Big(-this.v); }, square() { return new Big(this.v * this.v); }, abs() { return new Big(Big.abs(this.v)); },
    next() { return new Big(this.v + 1n); }, prev() { return new Big(this.v - 1n); }, not() { return new Big(~this.v); },
    isZero() { return this.v === 0n; }, isUnit() { return Big.abs(this.v) === 1n; }, isOdd() { return (this.v & 1n) === 1n; }, isEven() { return (this.v & 1n) === 0n; }, isNegative() { return this.v < 0n; }, isPositive() { return this.v >= 0n; }, isDivisibleBy(o) { return this.v % Big.from(o).v === 0n; }, toJSON() { return this.v.toString(); },
    compareAbs(o) { return new Big(Big.abs(this.v)).compare(Big.abs(Big.from(o).v)); },
    toString(r) { return this.v.toString(r || 10); }, toJSNumber() { return Number(this.v); }, valueOf() { return Number(this.v); },
    toArray(r) { return { value: Big.abs(this.v).toString(r).split("").map(c => parseInt(c, 36)), isNegative: this.v < 0n }; },
});
const bigInt = (v, r) => v === undefined ? bigInt.zero : Big.from(v, r);
Big.prototype.compareTo = Big.prototype.compare;
for (let i = -999; i < 1000; i++) bigInt[i] = new Big(BigInt(i));
Object.assign(bigInt, { max: (a, b) => Big.from(a).gt(b) ? Big.from(a) : Big.from(b), min: (a, b) => Big.from(a).lt(b) ? Big.from(a) : Big.from(b), zero: new Big(0n), one: new Big(1n), minusOne: new Big(-1n), isInstance: x => x instanceof Big });

const esc = s => s === undefined || s === null ? "" : String(s).replace(/[&<>'"]/g, c => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", "\"": "&#34;", "'": "&#39;" }[c]));
const AF = Object.getPrototypeOf(async function () {}).constructor;
function compile(text) {
    let out = "let __o='';const __a=s=>{if(s!==undefined&&s!==null)__o+=s;};with(locals){\n", i = 0;
    const lit = s => { if (s) out += "__a(" + JSON.stringify(s) + ");\n"; };
    for (;;) {
        const j = text.indexOf("<%", i);
        if (j < 0) { lit(text.slice(i)); break; }
        lit(text.slice(i, j));
        if (text[j + 2] === "%") { lit("<%"); i = j + 3; continue; }
        let k = text.indexOf("%>", j), c = text[j + 2], b = j + 2, e = k, n = k + 2;
        if (k < 0) throw new Error("unclosed tag");
        if (c === "=" || c === "-" || c === "#" || c === "_") b++; else c = "";
        if (text[k - 1] === "-") { e = k - 1; if (text[n] === "\n") n++; } else if (text[k - 1] === "_") { e = k - 1; while (text[n] === " " || text[n] === "\t") n++; if (text[n] === "\n") n++; }
        const code = text.slice(b, e);
        if (c === "=") out += "__a(__e(" + code.replace(/;\s*$/, "") + "));\n";
        else if (c === "-") out += "__a(" + code.replace(/;\s*$/, "") + ");\n";
        else if (c !== "#") out += code + "\n";
        i = n;
    }
    return out + "}\nreturn __o;";
}
function render(file, data) {
    const inc = (name, d) => { let p = path.resolve(path.dirname(file), name); if (!path.extname(p)) p += ".ejs"; return render(p, Object.assign({}, data, d)); };
    // own and inherited members of the builder are visible in templates, as with ejs
    const fn = new Function("locals", "__e", "include", compile(fs.readFileSync(file, "utf8")));
    return fn.call(data, data, esc, inc);
}
const ejs = { renderFile(file, data, opts, cb) { if (typeof opts === "function") { cb = opts; } let r; try { r = render(file, data); } catch (e) { if (cb) return cb(e); throw e; } if (cb) cb(null, r); else return Promise.resolve(r); },
    render(text, data) { return new Function("locals", "__e", compile(text)).call(data, data, esc); } };
function yargsFor(args) {
    const Y = { usage: () => Y, demandOption: () => Y, option: () => Y, help: () => Y, version: () => Y, alias: (a, b) => { (Y.al = Y.al || []).push([a, b]); return Y; },
        get argv() { const r = { _: [] }; for (let i = 0; i < args.length; i++) if (args[i][0] === "-") { r[args[i].replace(/^-+/, "")] = args[i + 1]; i++; } else r._.push(args[i]);
            // a single dash groups one-letter options: -oc x means o and c for the real parser; both spellings are accepted here
            for (const [a, b] of Y.al || []) { if (r[a] !== undefined) r[b] = r[a]; else if (r[b] !== undefined) r[a] = r[b]; } return r; } };
    return Y;
}
const load = Module._load;
Module._load = function (name, parent, main) {
    if (name === "big-integer") return bigInt;
    if (name === "ejs") return ejs;
    if (name === "yargs") return yargsFor(process.argv.slice(require.main === module ? 5 : 2));
    return load.call(this, name, parent, main);
};
// render.js REPO OUTDIR {"name":..., "q":...}
if (require.main === module) {
    const [repo, out, spec] = process.argv.slice(2, 5);
    const build = require(path.join(repo, "src", "buildzqfield.js"));
    const { q, name } = JSON.parse(spec);
    build(bigInt(q), name).then(r => {
        fs.mkdirSync(out, { recursive: true });
        const l = name.toLowerCase();
        const n = { asm: l + ".asm", hpp: l + ".hpp", cpp: l + ".cpp", element_hpp: l + "_element.hpp", generic_cpp: l + "_generic.cpp", raw_generic_cpp: l + "_raw_generic.cpp", raw_arm64_s: l + "_raw_arm64.s" };
        for (const k in n) if (r[k] !== undefined) fs.writeFileSync(path.join(out, n[k]), r[k]);
    }).catch(e => { console.error(e && e.stack || e); process.exit(1); });
}
module.exports = { bigInt, ejs };
