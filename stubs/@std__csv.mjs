// A stand-in for the CSV writer: a header, rows ending in CRLF, quoting where it is needed.
const cell = (v) => {
  const s = v === null || v === undefined ? "" : v instanceof Date ? v.toString() : typeof v === "object" ? JSON.stringify(v) : String(v);
  return /[",\r\n]/.test(s) || s.trim() !== s ? `"${s.replaceAll('"', '""')}"` : s;
};
export function stringify(data, { columns = [], headers = true, separator = "," } = {}) {
  const c = columns.map((x) => (typeof x === "object" && !Array.isArray(x) ? x : { prop: x, header: String(x) }));
  const rows = data.map((r) => c.map((x) => cell([x.prop].flat().reduce((o, k) => o?.[k], r))).join(separator));
  return [...(headers ? [c.map((x) => cell(x.header ?? String(x.prop))).join(separator)] : []), ...rows].map((r) => r + "\r\n").join("");
}
