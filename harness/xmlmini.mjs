// A small strict XML parser shared by the stand-ins of the XML packages and by the checks.
const NAME = "[A-Za-z_:\\u0080-\\uffff][\\w:.\\-\\u00b7\\u0080-\\uffff]*";
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'" };
function decode(s) {
  return s.replace(/&([^;&\s]*);?/g, (m, e) => {
    if (!m.endsWith(";")) throw new Error("Invalid character entity");
    if (/^#\d+$/.test(e)) return String.fromCodePoint(Number(e.slice(1)));
    if (/^#x[0-9a-f]+$/i.test(e)) return String.fromCodePoint(Number.parseInt(e.slice(2), 16));
    if (!Object.hasOwn(ENT, e)) throw new Error("Invalid character entity");
    return ENT[e];
  });
}
/** {name, attrs, children: (node|string)[]} of a document; throws when it is not well-formed */
export function parse(text) {
  let i = 0;
  const bad = (m) => {
    throw new Error(`${m} at ${i}: ${JSON.stringify(text.slice(i, i + 30))}`);
  };
  if (text.charCodeAt(0) === 0xfeff) i = 1;
  let root;
  const stack = [];
  let started = false;
  while (i < text.length) {
    const top = stack.at(-1);
    if (text[i] !== "<") {
      const e = text.indexOf("<", i);
      const raw = text.slice(i, e < 0 ? text.length : e);
      if (!top && raw.trim()) bad(root ? "Text data outside of root node." : "Non-whitespace before first tag.");
      if (raw.includes("]]>")) bad("]]> in text");
      if (top) top.children.push(decode(raw));
      i += raw.length;
      started = true;
      continue;
    }
    if (text.startsWith("<?", i)) {
      const e = text.indexOf("?>", i);
      if (e < 0) bad("Unclosed processing instruction");
      if (/^<\?xml\s/i.test(text.slice(i, i + 6)) && started) bad("Inappropriately located XML declaration");
      i = e + 2;
    } else if (text.startsWith("<!--", i)) {
      const e = text.indexOf("-->", i + 4);
      if (e < 0) bad("Unclosed comment");
      i = e + 3;
    } else if (text.startsWith("<![CDATA[", i)) {
      const e = text.indexOf("]]>", i);
      if (e < 0 || !top) bad("Unexpected CDATA");
      top.children.push(text.slice(i + 9, e));
      i = e + 3;
    } else if (text.startsWith("<!DOCTYPE", i)) {
      const e = text.indexOf(">", i);
      if (e < 0) bad("Unclosed doctype");
      i = e + 1;
    } else if (text.startsWith("</", i)) {
      const m = new RegExp(`^</(${NAME})\\s*>`).exec(text.slice(i, i + 300));
      if (!m || top?.name !== m[1]) bad("Unexpected close tag");
      stack.pop();
      i += m[0].length;
    } else {
      const m = new RegExp(`^<(${NAME})((?:\\s+${NAME}\\s*=\\s*(?:"[^"<]*"|'[^'<]*'))*)\\s*(/?)>`).exec(text.slice(i, i + 20000));
      if (!m) bad("Unencoded <");
      if (!top && root) bad("Second root");
      const node = { name: m[1], attrs: {}, children: [] };
      for (const a of m[2].matchAll(new RegExp(`(${NAME})\\s*=\\s*(?:"([^"]*)"|'([^']*)')`, "g"))) {
        if (Object.hasOwn(node.attrs, a[1])) bad("Duplicate attribute");
        node.attrs[a[1]] = decode(a[2] ?? a[3]);
      }
      if (top) top.children.push(node);
      else root = node;
      if (!m[3]) stack.push(node);
      i += m[0].length;
    }
    started = true;
  }
  if (stack.length) bad("Unclosed root tag");
  if (!root) bad("No root element");
  return root;
}
export const esc = (s) => s.replaceAll("&", "&amp;").replaceAll("<", "&lt;").replaceAll(">", "&gt;");
export const escAttr = (s) => esc(s).replaceAll('"', "&quot;").replaceAll("\t", "&#x9;").replaceAll("\n", "&#xA;").replaceAll("\r", "&#xD;");
export const el = (name, attrs, ...children) => ({ name, attrs: attrs ?? {}, children: children.flat(9).filter((c) => c !== undefined && c !== null) });
/** a node as text; pad(depth) gives the white space before its children */
export function render(n, pad, depth = 0) {
  const a = Object.entries(n.attrs).map(([k, v]) => ` ${k}="${escAttr(v)}"`).join("");
  if (!n.children.length) return `<${n.name}${a}/>`;
  const onlyText = n.children.every((c) => typeof c === "string");
  const sp = onlyText || !pad ? () => "" : pad;
  return `<${n.name}${a}>${n.children.map((c) => sp(depth + 1) + (typeof c === "string" ? esc(c) : render(c, pad, depth + 1))).join("")}${sp(depth)}</${n.name}>`;
}
/** comparable form: white space between elements does not count, neither does attribute order */
export function canon(n) {
  const kids = [];
  for (const c of n.children) {
    if (typeof c !== "string") kids.push(canon(c));
    else if (typeof kids.at(-1) === "string") kids[kids.length - 1] += c;
    else kids.push(c);
  }
  const some = kids.some((k) => typeof k !== "string");
  return [n.name, Object.entries(n.attrs).sort(([a], [b]) => (a < b ? -1 : 1)), kids.filter((k) => typeof k !== "string" || (some ? k.trim() : k))];
}
export const find = (n, name) => (n.name === name ? [n] : n.children.flatMap((c) => (typeof c === "string" ? [] : find(c, name))));
