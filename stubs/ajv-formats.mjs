// The formats of ajv-formats that the schemas of the repository use.
const DATE = /^(\d\d\d\d)-(\d\d)-(\d\d)$/;
const TIME = /^(\d\d):(\d\d):(\d\d(?:\.\d+)?)(z|[+-]\d\d(?::?\d\d)?)$/i;
const date = (s) => {
  const m = DATE.exec(s);
  if (!m) return false;
  const d = new Date(Date.UTC(+m[1], +m[2] - 1, +m[3]));
  return d.getUTCMonth() === +m[2] - 1 && d.getUTCDate() === +m[3];
};
const time = (s) => {
  const m = TIME.exec(s);
  return !!m && +m[1] < 24 && +m[2] < 60 && +m[3] < 60;
};
export default function addFormats(ajv) {
  ajv.addFormat("date", date);
  ajv.addFormat("date-time", (s) => {
    const p = s.split(/t|\s/i);
    return p.length === 2 && date(p[0]) && time(p[1]);
  });
  ajv.addFormat("uuid", /^(?:urn:uuid:)?[0-9a-f]{8}-(?:[0-9a-f]{4}-){3}[0-9a-f]{12}$/i);
  ajv.addFormat("byte", /^(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$/m);
  ajv.addFormat("int32", { type: "number", validate: (n) => Number.isInteger(n) && Math.abs(n) < 2 ** 31 });
  ajv.addFormat("int64", { type: "number", validate: Number.isInteger });
  ajv.addFormat("float", { type: "number", validate: () => true });
  ajv.addFormat("double", { type: "number", validate: () => true });
  return ajv;
}
// as with the CommonJS package, the default import carries itself
addFormats.default = addFormats;
