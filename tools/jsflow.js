// Abstract evaluation of the generator's command line (which text is written to which file, for every combination of
// options) and an effect analysis of its modules (state that outlives a call).  Nothing of the repository is run: the
// syntax trees of src/*.js are evaluated over uninterpreted terms.
"use strict";
const fs = require("fs"), path = require("path");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const K = ts.SyntaxKind;
const parse = f => ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
const line = n => n.getSourceFile().getLineAndCharacterOfPosition(n.getStart()).line + 1;

// ---- terms: JavaScript primitives, arrays, plain objects ({o:Map}), closures ({fn}), and uninterpreted {app, args}
const app = (f, ...args) => ({ app: f, args });
const obj = m => ({ o: new Map(m || []) });
const isT = v => v && typeof v === "object" && "app" in v;
class Undecided extends Error {}
const und = (n, w) => { throw new Undecided((n ? path.basename(n.getSourceFile().fileName) + ":" + line(n) + " " : "") + w); };

function cat(a, b) { // string concatenation as a flat list of parts
    const parts = v => (isT(v) && v.app === "cat" ? v.args : [isT(v) ? v : str(v)]);
    const out = [];
    for (const p of [...parts(a), ...parts(b)])
        if (typeof p === "string" && typeof out[out.length - 1] === "string") out[out.length - 1] += p;
        else if (p !== "") out.push(p);
    return out.length === 0 ? "" : out.length === 1 ? out[0] : { app: "cat", args: out };
}
function str(v) {
    if (v === null || ["string", "number", "boolean", "undefined"].includes(typeof v)) return String(v);
    throw new Undecided("text of a structured value");
}
function show(v, d = 0) {
    if (d > 12) return "…";
    if (typeof v === "string") return JSON.stringify(v);
    if (v === null || typeof v !== "object") return String(v);
    if (Array.isArray(v)) return "[" + v.map(x => show(x, d + 1)).join(",") + "]";
    if ("app" in v) return v.args.length ? v.app + "(" + v.args.map(x => show(x, d + 1)).join(",") + ")" : v.app;
    if ("o" in v) return "{" + [...v.o].map(([k, x]) => k + ":" + show(x, d + 1)).join(",") + "}";
    return "function";
}
const root = v => { while (isT(v)) { if (v.app === "require") return "require:" + v.args[0]; if (!v.args.length) return v.app; v = v.args[0]; } return ""; };

class Scope {
    constructor(up) { this.up = up; this.m = new Map(); }
    find(n) { for (let s = this; s; s = s.up) if (s.m.has(n)) return s; return null; }
}
class Break { constructor(kind) { this.kind = kind; } }
class Ret { constructor(v) { this.v = v; } }

class Machine {
    constructor(repo, opts) { this.repo = repo; this.opts = opts; this.writes = []; this.steps = 0; this.dirs = []; this.decisions = []; }

    load(file) {
        const sf = parse(file);
        const g = new Scope(null);
        this.module = { app: "MODULE", args: [] };
        this.exports = obj();
        for (const n of ["undefined"]) g.m.set(n, undefined);
        g.m.set("__dirname", path.join(this.repo, "src"));
        g.m.set("__filename", file);
        this.global = g;
        this.hoist(sf.statements, g);
        for (const s of sf.statements) this.stmt(s, g);
    }
    hoist(ss, sc) {
        for (const s of ss) if (s.kind === K.FunctionDeclaration) sc.m.set(s.name.text, { fn: s, sc });
    }
    tick(n) { if (++this.steps > 200000) und(n, "too many steps"); }

    truth(v, n) {
        if (isT(v)) {
            if (["cat", "opt", "require", "render", "new"].includes(v.app) || v.app.startsWith("builder")) return true;
            und(n, "condition on " + show(v).slice(0, 80));
        }
        return typeof v === "object" && v !== null ? true : !!v;
    }

    block(ss, sc) {
        const s = new Scope(sc);
        this.hoist(ss, s);
        for (const x of ss) { const r = this.stmt(x, s); if (r) return r; }
    }
    bind(pat, v, sc, n) {
        if (pat.kind === K.Identifier) { sc.m.set(pat.text, v); return; }
        if (pat.kind === K.ObjectBindingPattern) {
            for (const e of pat.elements) {
                if (e.dotDotDotToken) und(n, "rest pattern");
                const key = (e.propertyName || e.name).text;
                let x = this.get(v, key, n);
                if (x === undefined && e.initializer) x = this.ev(e.initializer, sc);
                this.bind(e.name, x, sc, n);
            }
            return;
        }
        if (pat.kind === K.ArrayBindingPattern) {
            pat.elements.forEach((e, i) => {
                if (e.kind === K.OmittedExpression) return;
                if (e.dotDotDotToken) { if (!Array.isArray(v)) und(n, "rest pattern"); this.bind(e.name, v.slice(i), sc, n); return; }
                let x = Array.isArray(v) ? v[i] : this.get(v, i, n);
                if (x === undefined && e.initializer) x = this.ev(e.initializer, sc);
                this.bind(e.name, x, sc, n);
            });
            return;
        }
        und(n, "pattern");
    }
    stmt(s, sc) {
        this.tick(s);
        switch (s.kind) {
        case K.EmptyStatement: case K.FunctionDeclaration: return;
        case K.ClassDeclaration: sc.m.set(s.name.text, { cls: s }); return;
        case K.VariableStatement:
            for (const d of s.declarationList.declarations) this.bind(d.name, d.initializer ? this.ev(d.initializer, sc) : undefined, sc, d);
            return;
        case K.ExpressionStatement: this.ev(s.expression, sc); return;
        case K.Block: return this.block(s.statements, sc);
        case K.IfStatement:
            if (this.truth(this.ev(s.expression, sc), s)) return this.stmt(s.thenStatement, sc);
            return s.elseStatement ? this.stmt(s.elseStatement, sc) : undefined;
        case K.ReturnStatement: return new Ret(s.expression ? this.ev(s.expression, sc) : undefined);
        case K.ForOfStatement: {
            const it = this.list(this.ev(s.expression, sc), s);
            for (const v of it) {
                const b = new Scope(sc);
                if (s.initializer.kind === K.VariableDeclarationList) this.bind(s.initializer.declarations[0].name, v, b, s);
                else und(s, "loop target");
                const r = this.stmt(s.statement, b);
                if (r instanceof Break) { if (r.kind === "break") break; continue; }
                if (r) return r;
            }
            return;
        }
        case K.ForInStatement: {
            const v = this.ev(s.expression, sc);
            const ks = v && v.o ? [...v.o.keys()] : Array.isArray(v) ? v.map((_, i) => String(i)) : und(s, "keys of an unknown value");
            for (const k of ks) {
                const b = new Scope(sc);
                this.bind(s.initializer.declarations[0].name, k, b, s);
                const r = this.stmt(s.statement, b);
                if (r instanceof Break) { if (r.kind === "break") break; continue; }
                if (r) return r;
            }
            return;
        }
        case K.ForStatement: case K.WhileStatement: {
            const b = new Scope(sc);
            if (s.initializer) { if (s.initializer.kind === K.VariableDeclarationList) for (const d of s.initializer.declarations) this.bind(d.name, d.initializer ? this.ev(d.initializer, b) : undefined, b, d); else this.ev(s.initializer, b); }
            const cond = s.kind === K.ForStatement ? s.condition : s.expression;
            while (!cond || this.truth(this.ev(cond, b), s)) {
                this.tick(s);
                const r = this.stmt(s.statement, new Scope(b));
                if (r instanceof Break) { if (r.kind === "break") break; } else if (r) return r;
                if (s.incrementor) this.ev(s.incrementor, b);
            }
            return;
        }
        case K.BreakStatement: return new Break("break");
        case K.ContinueStatement: return new Break("continue");
        case K.SwitchStatement: {
            const v = this.ev(s.expression, sc), b = new Scope(sc);
            let on = false;
            const cl = s.caseBlock.clauses;
            let start = cl.findIndex(c => c.kind === K.CaseClause && this.same(this.ev(c.expression, b), v, s));
            if (start < 0) start = cl.findIndex(c => c.kind === K.DefaultClause);
            if (start < 0) return;
            for (let i = start; i < cl.length; i++) for (const x of cl[i].statements) { const r = this.stmt(x, b); if (r instanceof Break && r.kind === "break") return; if (r) return r; }
            return;
        }
        case K.TryStatement: { const r = this.block(s.tryBlock.statements, sc); if (r) return r; return s.finallyBlock ? this.block(s.finallyBlock.statements, sc) : undefined; }
        case K.ThrowStatement: und(s, "reaches a throw");
        }
        und(s, "statement " + K[s.kind]);
    }
    list(v, n) {
        if (Array.isArray(v)) return v;
        if (v && v.o && v.isMap) return [...v.o];
        und(n, "iterates over an unknown value");
    }
    same(a, b, n) {
        if ((isT(a) && a.app === "MODULE") || (isT(b) && b.app === "MODULE")) return isT(a) && isT(b) && a.app === b.app;
        if (isT(a) || isT(b)) {
            if (a === undefined || b === undefined || a === null || b === null) return false;
            if (show(a) === show(b)) return true;
            und(n, "compares " + show(a).slice(0, 60));
        }
        return a === b;
    }
    get(v, k, n) {
        if (v === undefined || v === null) und(n, "property " + k + " of " + v);
        if (v.o) { if (v.o.has(k)) return v.o.get(k); return { m: [v, k] }; }
        if (Array.isArray(v)) { if (k === "length") return v.length; if (typeof k === "number" || /^\d+$/.test(k)) return v[k]; return { m: [v, k] }; }
        if (typeof v === "string") { if (k === "length") return v.length; if (typeof k === "number") return v[k]; return { m: [v, k] }; }
        if (isT(v)) {
            if (v.app === "MODULE") { if (k === "exports") return this.exports; if (k === "parent") return undefined; if (k === "children") und(n, "module." + k); }
            if (v.app === "REQUIRE" && k === "main") return this.module;
            if (v.app === "PROCESS" && k === "argv") return app("PROCESSARGV");
            if (k === "argv" && root(v) === "require:yargs") return this.argv();
            if (v.app === "argv") return this.option(k);
            return app("get:" + k, v);
        }
        return { m: [v, k] };
    }
    argv() { return app("argv"); }
    option(k) {
        if (k === "prime" || k === "q") return app("opt", "q");
        if (k === "name" || k === "n") return app("opt", "name");
        return this.opts.includes(k) ? app("opt", k) : undefined;
    }
    call(f, args, n, self) {
        this.tick(n);
        if (f && f.fn) {
            const d = f.fn, sc = new Scope(f.sc);
            if (d.asteriskToken) und(n, "generator function");
            d.parameters.forEach((p, i) => {
                let v = p.dotDotDotToken ? args.slice(i) : args[i];
                if (v === undefined && p.initializer) v = this.ev(p.initializer, sc);
                this.bind(p.name, v, sc, n);
            });
            if ((this.depth = (this.depth || 0) + 1) > 60) und(n, "recursion");
            let r;
            if (d.body.kind === K.Block) { const x = this.block(d.body.statements, sc); r = x instanceof Ret ? x.v : undefined; } else r = this.ev(d.body, sc);
            this.depth--;
            return r;
        }
        if (f && f.m) return this.method(f.m[0], f.m[1], args, n);
        if (f && f.cls) und(n, "class called");
        if (isT(f)) {
            const rt = root(f);
            if (rt === "require:yargs") {
                if (/^get:(parse|parseSync)$/.test(f.app)) return this.argv();
                return app("yargs", f);
            }
            if (f.app === "REQUIRE") return app("require", ...args);
            if (f.app.startsWith("get:")) {
                const mname = f.app.slice(4), base = f.args[0];
                if ((mname === "then" || mname === "finally") && args.length) return this.call(args[0], [mname === "then" ? base : undefined], n);
                if (mname === "catch") return base;
                if (isT(base) && base.app === "get:promises" ? root(base) === "require:fs" : /^require:(node:)?fs(\/promises)?$/.test(rt)) {
                    if (/^(writeFileSync|writeFile|outputFile|outputFileSync)$/.test(mname)) {
                        this.writes.push({ file: args[0], content: args[1], line: line(n) });
                        const cb = args[args.length - 1];
                        if (mname === "writeFile" && cb && cb.fn) this.call(cb, [null], n);
                        return undefined;
                    }
                    if (/^(createWriteStream|openSync|open|appendFile|appendFileSync)$/.test(mname)) und(n, "output through " + mname);
                    return app("fs." + mname, ...args);
                }
                if (/^require:(node:)?path$/.test(rt)) return this.pathfn(mname, args);
                if (mname === "promisify" && /^require:(node:)?util$/.test(rt)) return args[0];
                if (base && base.app === "opt" || base && base.app === "cat" || base && base.app === "str") return this.strfn(base, mname, args, n);
                if (/^require:ejs$/.test(rt) && mname === "renderFile") { const cb = args[args.length - 1]; const r = app("render", ...args.slice(0, 2)); if (cb && cb.fn) this.call(cb, [null, r], n); return r; }
                if (base && base.app === "PROMISE") return mname === "all" ? args[0] : mname === "resolve" ? args[0] : und(n, "Promise." + mname);
                if (base && base.app === "OBJECT") {
                    const v = args[0];
                    if (v && v.o) {
                        if (mname === "keys") return [...v.o.keys()];
                        if (mname === "values") return [...v.o.values()];
                        if (mname === "entries") return [...v.o].map(x => x.slice());
                        if (mname === "freeze") return v;
                        if (mname === "assign") { for (const w of args.slice(1)) if (w && w.o) for (const [k, x] of w.o) v.o.set(k, x); else if (w) und(n, "assign"); return v; }
                        if (mname === "fromEntries") und(n, "fromEntries");
                    }
                    if (mname === "fromEntries" && Array.isArray(v)) return obj(v.map(([k, x]) => [k, x]));
                    und(n, "Object." + mname);
                }
                if (base && base.app === "CONSOLE") return undefined;
                if (base && base.app === "PROCESS") { if (mname === "exit") und(n, "reaches process.exit"); return app("process." + mname, ...args); }
                return app("call:" + mname, base, ...args);
            }
            if (f.app === "NUMBER" || f.app === "STRING") return f.app === "STRING" && isT(args[0]) ? args[0] : app(f.app, ...args);
            if (rt === "require:ejs") return app("render", ...args);
            return app("call", f, ...args);
        }
        und(n, "call of " + show(f));
    }
    pathfn(m, args) {
        if (m === "join" || m === "resolve") {
            if (args.every(a => typeof a === "string")) return m === "join" ? path.join(...args) : path.resolve(...args);
            if (args.length === 1) return args[0];
        }
        if (args.every(a => typeof a === "string") && typeof path[m] === "function") return path[m](...args);
        return app("path." + m, ...args);
    }
    strfn(v, m, args, n) {
        if (m === "toLowerCase" || m === "toUpperCase") {
            if (v.app === "cat") return v.args.map(p => (typeof p === "string" ? p[m]() : this.strfn(p, m, args, n))).reduce((a, b) => cat(a, b), "");
            return v.app === "str" && v.args[0] === m ? v : app("str", m, v.app === "str" ? v.args[1] : v);
        }
        if (m === "toString" || m === "trim" || m === "valueOf") return v;
        if (m === "concat") return args.reduce((a, b) => cat(a, b), v);
        return app("call:" + m, v, ...args);
    }
    method(v, k, args, n) {
        if (k === "then" || k === "finally") return args.length ? this.call(args[0], [k === "then" ? v : undefined], n) : v;
        if (k === "catch") return v;
        if (Array.isArray(v)) {
            const f = args[0];
            switch (k) {
            case "map": return v.map((x, i) => this.call(f, [x, i, v], n));
            case "forEach": v.forEach((x, i) => this.call(f, [x, i, v], n)); return undefined;
            case "filter": return v.filter((x, i) => this.truth(this.call(f, [x, i, v], n), n));
            case "find": return v.find((x, i) => this.truth(this.call(f, [x, i, v], n), n));
            case "some": return v.some((x, i) => this.truth(this.call(f, [x, i, v], n), n));
            case "every": return v.every((x, i) => this.truth(this.call(f, [x, i, v], n), n));
            case "includes": return v.some(x => this.same(x, f, n));
            case "reduce": return args.length > 1 ? v.reduce((a, x, i) => this.call(f, [a, x, i, v], n), args[1]) : v.reduce((a, x, i) => this.call(f, [a, x, i, v], n));
            case "push": v.push(...args); return v.length;
            case "concat": return v.concat(...args);
            case "slice": return v.slice(...args);
            case "join": return v.reduce((a, x, i) => cat(i ? cat(a, args.length ? args[0] : ",") : a, x), "");
            case "entries": return v.map((x, i) => [i, x]);
            case "flat": return v.flat();
            }
        }
        if (typeof v === "string" && typeof v[k] === "function" && args.every(a => a === null || typeof a !== "object")) {
            const r = v[k](...args);
            return r;
        }
        if (typeof v === "string" && k === "concat") return args.reduce((a, b) => cat(a, b), v);
        if (v && v.o) {
            if (v.isMap) {
                if (k === "get") return v.o.get(args[0]);
                if (k === "set") { v.o.set(args[0], args[1]); return v; }
                if (k === "has") return v.o.has(args[0]);
                if (k === "entries") return [...v.o].map(x => x.slice());
                if (k === "forEach") { for (const [a, b] of v.o) this.call(args[0], [b, a], n); return undefined; }
            }
            if (k === "hasOwnProperty") return v.o.has(args[0]);
        }
        und(n, "method " + k + " of " + show(v).slice(0, 60));
    }
    name(n, sc) {
        const s = sc.find(n.text);
        if (s) return s.m.get(n.text);
        switch (n.text) {
        case "undefined": return undefined;
        case "require": return app("REQUIRE");
        case "module": return this.module;
        case "exports": return this.exports;
        case "process": return app("PROCESS");
        case "console": return app("CONSOLE");
        case "Object": return app("OBJECT");
        case "Promise": return app("PROMISE");
        case "String": return app("STRING");
        case "Number": return app("NUMBER");
        }
        return app("GLOBAL:" + n.text);
    }
    assign(t, v, sc, n) {
        if (t.kind === K.ParenthesizedExpression) return this.assign(t.expression, v, sc, n);
        if (t.kind === K.Identifier) { const s = sc.find(t.text); if (!s) und(n, "assignment to a global"); s.m.set(t.text, v); return; }
        if (t.kind === K.PropertyAccessExpression || t.kind === K.ElementAccessExpression) {
            const o = this.ev(t.expression, sc), k = t.kind === K.PropertyAccessExpression ? t.name.text : this.ev(t.argumentExpression, sc);
            if (isT(o) && o.app === "MODULE" && k === "exports") { this.exports = v; return; }
            if (o && o.o && !isT(k)) { o.o.set(k, v); return; }
            if (Array.isArray(o) && typeof k === "number") { o[k] = v; return; }
            if (v && v.fn) return; // a method put on an uninterpreted object
            und(n, "assignment to a property of " + show(o).slice(0, 60));
        }
        und(n, "assignment target");
    }
    ev(e, sc) {
        this.tick(e);
        switch (e.kind) {
        case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return e.text;
        case K.NumericLiteral: return Number(e.text);
        case K.BigIntLiteral: return app("big", e.text);
        case K.RegularExpressionLiteral: return app("regex", e.text);
        case K.TrueKeyword: return true;
        case K.FalseKeyword: return false;
        case K.NullKeyword: return null;
        case K.Identifier: return this.name(e, sc);
        case K.ThisKeyword: return app("THIS");
        case K.ParenthesizedExpression: case K.AwaitExpression: return this.ev(e.expression, sc);
        case K.VoidExpression: this.ev(e.expression, sc); return undefined;
        case K.TypeOfExpression: { const v = this.ev(e.expression, sc); return isT(v) ? (v.app === "opt" || v.app === "cat" || v.app === "str" ? "string" : v.app.startsWith("GLOBAL:") ? und(e, "typeof") : "object") : v && v.fn ? "function" : typeof v; }
        case K.TemplateExpression: return e.templateSpans.reduce((a, s) => cat(cat(a, this.ev(s.expression, sc)), s.literal.text), e.head.text);
        case K.ArrowFunction: case K.FunctionExpression: return { fn: e, sc };
        case K.ClassExpression: return { cls: e };
        case K.ArrayLiteralExpression: { const r = []; for (const x of e.elements) if (x.kind === K.SpreadElement) r.push(...this.list(this.ev(x.expression, sc), x)); else r.push(this.ev(x, sc)); return r; }
        case K.ObjectLiteralExpression: {
            const r = obj();
            for (const p of e.properties) {
                if (p.kind === K.SpreadAssignment) { const v = this.ev(p.expression, sc); if (v && v.o) for (const [k, x] of v.o) r.o.set(k, x); else if (v !== undefined && v !== null) und(p, "spread of an unknown object"); continue; }
                if (p.kind === K.ShorthandPropertyAssignment) { r.o.set(p.name.text, this.name(p.name, sc)); continue; }
                const k = p.name.kind === K.ComputedPropertyName ? this.ev(p.name.expression, sc) : p.name.text;
                if (isT(k)) und(p, "computed key");
                r.o.set(k, p.kind === K.MethodDeclaration ? { fn: p, sc } : this.ev(p.initializer, sc));
            }
            return r;
        }
        case K.PropertyAccessExpression: case K.ElementAccessExpression: {
            const v = this.ev(e.expression, sc);
            if (e.questionDotToken && (v === undefined || v === null)) return undefined;
            const k = e.kind === K.PropertyAccessExpression ? e.name.text : this.ev(e.argumentExpression, sc);
            if (isT(k)) und(e, "computed property");
            const r = this.get(v, k, e);
            if (r && r.m && v.o && !["then", "catch", "finally", "hasOwnProperty", "get", "set", "has", "entries", "forEach"].includes(k)) return undefined;
            return r;
        }
        case K.NonNullExpression: return this.ev(e.expression, sc);
        case K.NewExpression: {
            const args = (e.arguments || []).map(a => this.ev(a, sc));
            const nm = e.expression.kind === K.Identifier ? e.expression.text : "?";
            if (nm === "Map") { const r = obj((args[0] || []).map(x => [x[0], x[1]])); r.isMap = true; return r; }
            if (nm === "Promise" && args[0] && args[0].fn) { let v; this.call(args[0], [{ fn: null, m: [null, "resolve"] }, null], e); und(e, "new Promise"); }
            return app("new", nm, ...args);
        }
        case K.CallExpression: {
            const c = e.expression;
            const args = [];
            const f = this.ev(c, sc);
            if (e.questionDotToken && (f === undefined || f === null)) return undefined;
            for (const a of e.arguments) if (a.kind === K.SpreadElement) args.push(...this.list(this.ev(a.expression, sc), a)); else args.push(this.ev(a, sc));
            return this.call(f, args, e);
        }
        case K.ConditionalExpression: return this.truth(this.ev(e.condition, sc), e) ? this.ev(e.whenTrue, sc) : this.ev(e.whenFalse, sc);
        case K.PrefixUnaryExpression: {
            const v = this.ev(e.operand, sc);
            if (e.operator === K.ExclamationToken) return !this.truth(v, e);
            if (e.operator === K.PlusPlusToken || e.operator === K.MinusMinusToken) { if (typeof v !== "number") und(e, "counter"); const w = v + (e.operator === K.PlusPlusToken ? 1 : -1); this.assign(e.operand, w, sc, e); return w; }
            if (typeof v === "number") return e.operator === K.MinusToken ? -v : e.operator === K.PlusToken ? v : ~v;
            und(e, "operator");
        }
        // falls through
        case K.PostfixUnaryExpression: { const v = this.ev(e.operand, sc); if (typeof v !== "number") und(e, "counter"); this.assign(e.operand, v + (e.operator === K.PlusPlusToken ? 1 : -1), sc, e); return v; }
        case K.BinaryExpression: return this.bin(e, sc);
        }
        und(e, "expression " + K[e.kind]);
    }
    bin(e, sc) {
        const op = e.operatorToken.kind;
        if (op === K.EqualsToken) {
            const v = this.ev(e.right, sc);
            if (e.left.kind === K.ObjectLiteralExpression || e.left.kind === K.ArrayLiteralExpression) und(e, "destructuring assignment");
            this.assign(e.left, v, sc, e);
            return v;
        }
        if (op === K.BarBarToken || op === K.AmpersandAmpersandToken || op === K.QuestionQuestionToken) {
            const v = this.ev(e.left, sc);
            if (op === K.QuestionQuestionToken) return v === undefined || v === null ? this.ev(e.right, sc) : v;
            const t = this.truth(v, e);
            return (op === K.BarBarToken) === t ? v : this.ev(e.right, sc);
        }
        if (op === K.CommaToken) { this.ev(e.left, sc); return this.ev(e.right, sc); }
        if (op === K.InKeyword) { const k = this.ev(e.left, sc), o = this.ev(e.right, sc); if (isT(o) && o.app === "argv") return this.option(k) !== undefined; if (o && o.o) return o.o.has(k); und(e, "in"); }
        const a = this.ev(e.left, sc), b = this.ev(e.right, sc);
        if (op === K.PlusEqualsToken || op === K.PlusToken) {
            const stringy = v => typeof v === "string" || (isT(v) && ["cat", "opt", "str"].includes(v.app)) || (isT(v) && /^path\.|^call:|^process\./.test(v.app));
            const r = typeof a === "number" && typeof b === "number" ? a + b : stringy(a) || stringy(b) ? cat(a, b) : app("+", a, b);
            if (op === K.PlusEqualsToken) this.assign(e.left, r, sc, e);
            return r;
        }
        if (op === K.EqualsEqualsEqualsToken) return this.same(a, b, e);
        if (op === K.ExclamationEqualsEqualsToken) return !this.same(a, b, e);
        if (op === K.EqualsEqualsToken) return (a === null || a === undefined) && (b === null || b === undefined) ? true : this.same(a, b, e);
        if (op === K.ExclamationEqualsToken) return (a === null || a === undefined) && (b === null || b === undefined) ? false : !this.same(a, b, e);
        if (typeof a === "number" && typeof b === "number") {
            switch (op) {
            case K.MinusToken: return a - b; case K.AsteriskToken: return a * b; case K.SlashToken: return a / b; case K.PercentToken: return a % b;
            case K.LessThanToken: return a < b; case K.LessThanEqualsToken: return a <= b; case K.GreaterThanToken: return a > b; case K.GreaterThanEqualsToken: return a >= b;
            }
        }
        return app("op:" + K[op], a, b);
    }
}

function cli(repo) {
    const file = path.join(repo, "src", "buildzqfield.js"), out = [];
    const names = new Set();
    // the options the script reads: any property of the parsed command line apart from the two demanded ones
    const probe = new Machine(repo, []);
    const opt = probe.option.bind(probe);
    const base = ["oa", "oc", "oh"];
    const sf = parse(file);
    const seen = new Set(base);
    (function walk(n) {
        if (n.kind === K.PropertyAccessExpression && /argv$/i.test(n.expression.getText()) && /^o[a-z]*$/.test(n.name.text)) seen.add(n.name.text);
        ts.forEachChild(n, walk);
    })(sf);
    const all = [...seen].sort().slice(0, 8);
    for (let m = 0; m < 1 << all.length; m++) {
        const opts = all.filter((_, i) => m >> i & 1);
        const M = new Machine(repo, opts);
        const r = { opts };
        try {
            M.load(file);
            r.writes = M.writes.map(w => ({ file: show(w.file), content: describe(w.content), line: w.line }));
        } catch (e) { if (!(e instanceof Undecided)) throw e; r.undecided = e.message; }
        out.push(r);
    }
    return out;
}
function describe(c) {
    if (isT(c) && c.app === "render") {
        const b = c.args[1];
        return { template: typeof c.args[0] === "string" ? path.basename(c.args[0]) : null, data: show(b) };
    }
    return { other: show(c).slice(0, 200) };
}

// ---- effects: state at module level that functions change
function effects(repo) {
    const dir = path.join(repo, "src"), out = { sites: [], functions: 0, files: [] };
    for (const f of fs.readdirSync(dir).filter(x => x.endsWith(".js")).sort()) {
        const sf = parse(path.join(dir, f));
        out.files.push("src/" + f);
        const top = new Map(), mut = new Map();
        for (const s of sf.statements) {
            if (s.kind === K.VariableStatement) for (const d of s.declarationList.declarations) if (d.name.kind === K.Identifier) top.set(d.name.text, d.initializer);
            if ((s.kind === K.ClassDeclaration || s.kind === K.FunctionDeclaration) && s.name) top.set(s.name.text, s);
        }
        const isFn = n => [K.FunctionDeclaration, K.FunctionExpression, K.ArrowFunction, K.MethodDeclaration, K.Constructor, K.GetAccessor, K.SetAccessor].includes(n.kind);
        const shadow = (n, name) => { // is the name bound inside an enclosing function or block?
            for (let p = n.parent; p && p !== sf; p = p.parent) {
                let hit = false;
                if (isFn(p) && p.parameters.some(q => q.name.getText() === name || q.name.kind !== K.Identifier && q.name.getText().includes(name))) return true;
                const look = q => { if (hit || isFn(q) && q !== p) return; if (q.kind === K.VariableDeclaration && (q.name.getText() === name || q.name.kind !== K.Identifier && q.name.getText().includes(name))) hit = true; else ts.forEachChild(q, look); };
                if (isFn(p) || p.kind === K.Block) look(p);
                if (hit) return true;
            }
            return false;
        };
        const inFn = n => { for (let p = n.parent; p && p !== sf; p = p.parent) if (isFn(p)) return p; return null; };
        const rootId = e => { while (e.kind === K.PropertyAccessExpression || e.kind === K.ElementAccessExpression || e.kind === K.ParenthesizedExpression || e.kind === K.CallExpression && false) e = e.expression; return e; };
        const add = (n, what, name) => { const fn = inFn(n); out.sites.push({ file: "src/" + f, line: line(n), what, name, fn: fn && fn.name ? fn.name.getText() : "function" }); };
        (function walk(n) {
            if (isFn(n)) out.functions++;
            let target = null, how = null;
            if (n.kind === K.BinaryExpression && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment) { target = n.left; how = "assigns"; }
            if ((n.kind === K.PrefixUnaryExpression || n.kind === K.PostfixUnaryExpression) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) { target = n.operand; how = "counts"; }
            if (n.kind === K.DeleteExpression) { target = n.expression; how = "deletes"; }
            if (n.kind === K.CallExpression && n.expression.kind === K.PropertyAccessExpression && /^(push|pop|shift|unshift|splice|sort|reverse|fill|set|add|delete|clear|rewind|getNext|assignRegs|releaseRegs)$/.test(n.expression.name.text)) { target = n.expression.expression; how = "calls " + n.expression.name.text + " on"; }
            if (target && inFn(n)) {
                const r = rootId(target);
                if (r.kind === K.Identifier && r.text !== "module" && r.text !== "exports") {
                    if (top.has(r.text) && !shadow(r, r.text)) add(n, how, target.getText());
                    else if (!shadow(r, r.text) && target === r && !top.has(r.text)) add(n, how + " the undeclared", target.getText());
                }
            }
            if (inFn(n) && n.kind === K.CallExpression && /^(Date\.now|Math\.random|process\.hrtime|process\.uptime|performance\.now|crypto\.\w+)$/.test(n.expression.getText())) add(n, "reads", n.expression.getText());
            if (inFn(n) && n.kind === K.NewExpression && n.expression.getText() === "Date") add(n, "reads", "the clock");
            ts.forEachChild(n, walk);
        })(sf);
    }
    return out;
}

const repo = process.argv[2];
process.stdout.write(JSON.stringify({ cli: cli(repo), effects: effects(repo) }, null, 1));
