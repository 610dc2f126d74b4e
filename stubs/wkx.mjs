// well-known binary and text of geometries, as far as the applications use the package
class Base {
  constructor(json) {
    this.json = json;
  }
  static parse(buffer) {
    let at = 0;
    const little = [];
    const u8 = () => buffer.readUInt8(at++);
    const u32 = () => ((at += 4), little.at(-1) ? buffer.readUInt32LE(at - 4) : buffer.readUInt32BE(at - 4));
    const f64 = () => ((at += 8), little.at(-1) ? buffer.readDoubleLE(at - 8) : buffer.readDoubleBE(at - 8));
    const list = (f) => Array.from({ length: u32() }, () => f());
    const read = () => {
      little.push(u8() === 1);
      const type = u32();
      if (type & 0x20000000) u32();
      const dims = 2 + (type & 0x80000000 ? 1 : 0) + (type & 0x40000000 ? 1 : 0);
      const pt = () => Array.from({ length: dims }, f64);
      const kinds = [undefined, () => ["Point", pt()], () => ["LineString", list(pt)], () => ["Polygon", list(() => list(pt))], () => ["MultiPoint", list(() => read().coordinates)], () => ["MultiLineString", list(() => read().coordinates)], () => ["MultiPolygon", list(() => read().coordinates)]];
      const kind = kinds[type & 0xff];
      if (!kind) throw new Error("GeometryType not supported");
      const [t, coordinates] = kind();
      little.pop();
      return { type: t, coordinates };
    };
    return new Base(read());
  }
  toGeoJSON() {
    return this.json;
  }
}
export const Geometry = Base;
export class Point extends Base {
  constructor(x, y) {
    super({ type: "Point", coordinates: [x, y] });
  }
}
export class LineString extends Base {
  constructor(points = []) {
    super({ type: "LineString", coordinates: points.map((p) => p.json.coordinates) });
  }
  toWkt() {
    return `LINESTRING(${this.json.coordinates.map((c) => c.join(" ")).join(",")})`;
  }
}
export default { Geometry, Point, LineString };
