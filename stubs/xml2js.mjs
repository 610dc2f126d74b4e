// Stand-in for xml2js with its default options, plus those the applications use.
import { parse, render, el } from "../harness/xmlmini.mjs";
const DEFAULTS = { explicitArray: true, explicitRoot: true, mergeAttrs: false, ignoreAttrs: false, trim: false, attrkey: "$", charkey: "_", emptyTag: "" };
function value(n, o) {
  const out = {};
  if (!o.ignoreAttrs && Object.keys(n.attrs).length) {
    if (o.mergeAttrs) for (const [k, v] of Object.entries(n.attrs)) out[k] = o.explicitArray ? [v] : v;
    else out[o.attrkey] = { ...n.attrs };
  }
  let text = "";
  for (const c of n.children) {
    if (typeof c === "string") {
      text += c;
      continue;
    }
    const v = value(c, o);
    if (!Object.hasOwn(out, c.name)) out[c.name] = o.explicitArray ? [v] : v;
    else {
      if (!Array.isArray(out[c.name])) out[c.name] = [out[c.name]];
      out[c.name].push(v);
    }
  }
  if (o.trim) text = text.trim();
  if (text.trim() === "") text = "";
  if (!Object.keys(out).length) return text === "" ? o.emptyTag : text;
  if (text !== "") out[o.charkey] = text;
  return out;
}
function toObject(text, options) {
  const o = { ...DEFAULTS, ...options };
  const s = String(text);
  if (s.trim() === "") return null;
  const root = parse(s);
  const v = value(root, o);
  return o.explicitRoot ? { [root.name]: v } : v;
}
export const parseStringPromise = async (text, options) => toObject(text, options);
export function parseString(text, a, b) {
  const [options, cb] = typeof a === "function" ? [{}, a] : [a, b];
  let r;
  try {
    r = toObject(text, options);
  } catch (e) {
    cb(e);
    return;
  }
  cb(null, r);
}
export class Parser {
  constructor(options) {
    this.options = options;
  }
  parseString(text, cb) {
    return parseString(text, this.options, cb);
  }
  parseStringPromise(text) {
    return parseStringPromise(text, this.options);
  }
}
function build(name, v) {
  if (v === null || v === undefined) return el(name);
  if (typeof v !== "object") return el(name, {}, String(v) === "" ? [] : [String(v)]);
  if (v instanceof Date) return el(name, {}, [v.toString()]);
  const attrs = {};
  const kids = [];
  for (const [k, x] of Object.entries(v)) {
    if (k === "$") for (const [a, t] of Object.entries(x)) attrs[a] = String(t);
    else if (k === "_") kids.push(String(x));
    else for (const y of [x].flat()) kids.push(build(k, y));
  }
  return el(name, attrs, kids);
}
export class Builder {
  constructor(options = {}) {
    this.options = options;
  }
  buildObject(o) {
    const keys = Object.keys(o);
    const [name, v] = this.options.rootName === undefined && keys.length === 1 ? [keys[0], o[keys[0]]] : [this.options.rootName ?? "root", o];
    const body = render(build(name, v), (d) => "\n" + "  ".repeat(d));
    return this.options.headless ? body : `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n${body}`;
  }
}
export default { parseString, parseStringPromise, Parser, Builder };
