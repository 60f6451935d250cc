// node wasm.mjs MODULE IN OUT: calls parseString of the raw WebAssembly module
// (no wasm-bindgen command line here, so this stands in for its glue) on the
// texts of the cases and writes what it returns or throws, trees in the shape
// of spec/Parser.tla.
import fs from "node:fs";

const [, , file, input, output] = process.argv;

let wasm;
// JavaScript values by index, with the constants where Rust expects them.
let heap, free;
const OFFSET = 128;
function reset() {
  heap = new Array(OFFSET).fill(undefined);
  heap.push(undefined, null, true, false);
  free = [];
}
reset();
function put(v) {
  const i = free.length ? free.pop() : heap.length;
  heap[i] = { v };
  return i;
}
function get(i) {
  return i < OFFSET + 4 ? heap[i] : heap[i].v;
}
function drop(i) {
  if (i < OFFSET + 4) return;
  if (heap[i] === undefined) throw new Error("dropped twice");
  heap[i] = undefined;
  free.push(i);
}
function take(i) {
  const v = get(i);
  drop(i);
  return v;
}
const dec = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
const enc = new TextEncoder();
const bytes = () => new Uint8Array(wasm.memory.buffer);
const words = () => new DataView(wasm.memory.buffer);
const text = (p, n) => dec.decode(bytes().slice(p >>> 0, (p >>> 0) + (n >>> 0)));
function pass(s) {
  const b = enc.encode(s);
  const p = wasm.__wbindgen_malloc(b.length, 1) >>> 0;
  bytes().set(b, p);
  return [p, b.length];
}

const known = {
  __wbindgen_describe: () => {},
  __wbindgen_as_number: (i) => Number(get(i)),
  __wbindgen_number_new: (x) => put(x),
  __wbindgen_error_new: (p, n) => put(new Error(text(p, n))),
  __wbindgen_object_clone_ref: (i) => put(get(i)),
  __wbindgen_object_drop_ref: (i) => drop(i),
  __wbindgen_string_new: (p, n) => put(text(p, n)),
  __wbindgen_bigint_from_i64: (x) => put(x),
  __wbindgen_bigint_from_u64: (x) => put(BigInt.asUintN(64, x)),
  __wbindgen_is_string: (i) => (typeof get(i) === "string" ? 1 : 0),
  __wbindgen_throw: (p, n) => { throw new Error("panic: " + text(p, n)); },
  __wbindgen_rethrow: (i) => { throw take(i); },
  __wbindgen_externref_table_grow: () => { throw new Error("externref"); },
  __wbindgen_externref_table_set_null: () => {},
  // serde-wasm-bindgen
  __wbg_set_3f1d0b984ed272ed: (o, k, v) => { get(o)[take(k)] = take(v); },
  __wbg_String_8f0eb39a4a4c2f66: (ret, i) => {
    const [p, n] = pass(String(get(i)));
    words().setInt32(ret, p, true);
    words().setInt32(ret + 4, n, true);
  },
  // js-sys: Array, Map, Object
  __wbg_new_78feb108b6472713: () => put([]),
  __wbg_new_5e0be73521bc8c17: () => put(new Map()),
  __wbg_new_405e22f390576ce2: () => put({}),
  __wbg_set_37837023f3d740e8: (a, i, v) => { get(a)[i >>> 0] = take(v); },
  __wbg_set_8fc6bf8a5b1071d1: (m, k, v) => put(get(m).set(get(k), get(v))),
};

const module = new WebAssembly.Module(fs.readFileSync(file));
function load() {
  reset();
  const imports = {};
  for (const { module: m, name } of WebAssembly.Module.imports(module)) {
    (imports[m] ||= {})[name] = known[name] || (name.startsWith("__wbg_log_") ? () => {} :
      () => { throw new Error("unsupported import " + name); });
  }
  wasm = new WebAssembly.Instance(module, imports).exports;
}
load();

function parseString(s) {
  const [p, n] = pass(s);
  // The result is returned through memory: value, error, is it an error?
  const ret = wasm.__wbindgen_malloc(16, 4) >>> 0;
  wasm.parseString(ret, p, n);
  const [v, e, failed] = [0, 4, 8].map((o) => words().getInt32(ret + o, true));
  wasm.__wbindgen_free(ret, 16, 4);
  if (failed) throw take(e);
  return take(v);
}

// ------------------------------------------------------------------- trees

class Shape extends Error {}
function bits(x) {
  const d = new DataView(new ArrayBuffer(8));
  d.setFloat64(0, x);
  return d.getBigUint64(0).toString(16).padStart(16, "0");
}
function expect(cond, what, v) {
  if (!cond) throw new Shape(what + ": " + String(JSON.stringify(v)).slice(0, 200));
}
function fields(v, ...names) {
  expect(v !== null && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype, "plain object", v);
  expect(Object.keys(v).join() === names.join(), "fields " + names, v);
  return names.map((n) => v[n]);
}
function list(v, n) {
  expect(Array.isArray(v) && (n === undefined || v.length === n), "list of " + n, v);
  return v;
}
function str(v) { expect(typeof v === "string", "string", v); return v; }
function num(v) { expect(typeof v === "number", "number", v); return v; }
function int(v) { expect(Number.isInteger(v), "integer", v); return v; }
function loc(v) { const [l, c] = fields(v, "line", "column"); return [int(l), int(c)]; }
function one(v, ...options) { expect(options.includes(v), "one of " + options, v); return v; }

let bind;
function at(kind, name, l, v) {
  const [d, i] = fields(v, "distance", "index");
  bind.push([kind, name, l[0], l[1], int(d), int(i)]);
}
const KINDS = { PlainFunction: "Plain", Method: "Method", Initializer: "Initializer", ClassMethod: "ClassMethod" };
function fun(head, v) {
  const [ps, body, kind, l] = fields(v, "parameters", "body", "fun_type", "source_loc");
  const params = list(ps).map((p) => { const [n, k] = fields(p, "name", "source_loc"); return [str(n), loc(k)]; });
  expect(kind in KINDS, "kind of function", kind);
  return [...head, params, list(body).map(stmt), KINDS[kind], loc(l)];
}
function tagged(v) {
  expect(v !== null && typeof v === "object", "object", v);
  if (v.type === "LiteralNil") { fields(v, "type"); return [v.type]; }
  return fields(v, "type", "args");
}
function stmt(v) {
  const [type, a] = tagged(v);
  switch (type) {
    case "Block": return ["Block", list(a).map(stmt)];
    case "Break": case "Continue": return [type, loc(a)];
    case "Class": {
      const [name, sup, methods, l] = fields(a, "name", "superclass", "methods", "source_loc");
      let s = [];
      if (sup !== undefined && sup !== null) {
        const e = expr(sup);
        s = e[0] === "Variable" ? [e[1], e[2]] : ["?", e];
      }
      return ["Class", str(name), s, list(methods).map((m) => {
        const [n, f] = fields(m, "name", "fun_def");
        return fun([str(n)], f);
      }), loc(l)];
    }
    case "Expression": case "Print": return [type, expr(a)];
    case "Fun": { const [n, f] = fields(a, "name", "fun_def"); return fun(["Fun", str(n)], f); }
    case "If": {
      const [c, t, e] = list(a, 3);
      const r = ["If", expr(c), stmt(t)];
      return e === undefined || e === null ? r : [...r, stmt(e)];
    }
    case "Return": { const [e, l] = list(a, 2); return ["Return", expr(e), loc(l)]; }
    case "Var": {
      const [n, slot, e, l] = list(a, 4);
      const k = loc(l);
      bind.push(["var", str(n), k[0], k[1], 0, int(slot)]);
      return ["Var", n, expr(e), k];
    }
    case "While": { const [c, b] = list(a, 2); return ["While", expr(c), stmt(b)]; }
    case "WhileIncrement": { const [c, b, i] = list(a, 3); return ["WhileInc", expr(c), stmt(b), expr(i)]; }
  }
  expect(false, "type of statement", type);
}
function expr(v) {
  const [type, a] = tagged(v);
  switch (type) {
    case "Assign": {
      const [n, d, e, l] = list(a, 4);
      const r = ["Assign", str(n), expr(e), loc(l)];
      at("set", n, r[3], d);
      return r;
    }
    case "Call": { const [f, xs, l] = list(a, 3); return ["Call", expr(f), list(xs).map(expr), loc(l)]; }
    case "Binary": {
      const [x, o, y, l] = list(a, 4);
      one(o, "Plus", "Minus", "Multiply", "Divide", "Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual");
      return ["Binary", expr(x), o, expr(y), loc(l)];
    }
    case "Function": return fun(["Function"], a);
    case "Get": { const [o, n, l] = list(a, 3); return ["Get", expr(o), str(n), loc(l)]; }
    case "GetIndex": { const [o, i, l] = list(a, 3); return ["GetIndex", expr(o), expr(i), loc(l)]; }
    case "Grouping": return ["Grouping", expr(a)];
    case "LiteralArray": return ["Array", list(a).map(expr)];
    case "LiteralBool": one(a, true, false); return [a ? "True" : "False"];
    case "LiteralMap": {
      expect(a instanceof Map, "Map", a);
      return ["Map", [...a].map(([k, x]) => [str(k), expr(x)])];
    }
    case "LiteralNumber": return ["Num", bits(num(a))];
    case "LiteralNil": return ["Nil"];
    case "LiteralString": return ["Str", str(a)];
    case "Logical": { const [x, o, y] = list(a, 3); one(o, "And", "Or"); return ["Logical", expr(x), o, expr(y)]; }
    case "Set": { const [o, n, e, l] = list(a, 4); return ["Set", expr(o), str(n), expr(e), loc(l)]; }
    case "SetIndex": { const [o, i, e, l] = list(a, 4); return ["SetIndex", expr(o), expr(i), expr(e), loc(l)]; }
    case "Super": { const [d, n, l] = list(a, 3); const k = loc(l); at("super", "super", k, d); return ["Super", str(n), k]; }
    case "Variable": { const [n, d, l] = list(a, 3); const k = loc(l); at("use", str(n), k, d); return ["Variable", n, k]; }
    case "Unary": { const [o, e, l] = list(a, 3); one(o, "Minus", "Not"); return ["Unary", o, expr(e), loc(l)]; }
  }
  expect(false, "type of expression", type);
}

// -------------------------------------------------------------------- cases

const out = fs.openSync(output, "w");
for (const l of fs.readFileSync(input, "utf8").split("\n")) {
  if (!l) continue;
  const c = JSON.parse(l);
  const s = c.lines[0].s.map((x, i) => x.repeat(c.lines[0].n[i])).join("");
  const r = { id: c.id };
  let v;
  try {
    v = parseString(s);
    bind = [];
    r.ast = list(v).map(stmt);
    r.bind = bind;
  } catch (e) {
    delete r.ast;
    if (e instanceof Shape) r.shape = e.message;
    else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError || /^(panic|unsupported|externref|dropped)/.test(e.message)) {
      r.died = String(e.message);
      load();
    } else r.thrown = e instanceof Error ? e.message : "not an Error: " + String(e);
  }
  fs.writeSync(out, JSON.stringify(r) + "\n");
}
