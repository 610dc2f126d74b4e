import { lib } from "../harness/hooks.mjs";
const G = await lib("utils/geometry.ts");
const Z = await lib("types/geojson.ts");
const T = await lib("utils/geojson-types.ts");

const num = (rng) => rng.pick([0, -0.0001, 180, -180, 1e-7, rng.int(-180, 180), rng.range(-180, 180), Number(rng.range(19, 32).toFixed(6))]);
const pos = (rng, z) => [num(rng), num(rng), ...((z ?? rng.bool(0.2)) ? [rng.range(-10, 300)] : [])];
const line = (rng, n = rng.int(2, 8), z) => rng.array(n, () => pos(rng, z));
const ring = (rng, z) => {
  const l = line(rng, rng.int(3, 7), z);
  return [...l, [...l[0]]];
};
const poly = (rng, z) => rng.array(rng.int(1, 3), () => ring(rng, z));
function geometry(rng, types) {
  const z = rng.bool(0.2);
  const type = rng.pick(types);
  const c = { Point: () => pos(rng, z), LineString: () => line(rng, undefined, z), Polygon: () => poly(rng, z), MultiPolygon: () => rng.array(rng.int(1, 3), () => poly(rng, z)), MultiPoint: () => line(rng, undefined, z), MultiLineString: () => rng.array(rng.int(1, 3), () => line(rng, undefined, z)) }[type]();
  return { type, coordinates: c };
}
/** parse WKT into nested coordinate arrays */
function parseWkt(s) {
  const m = /^\s*([A-Z]+)\s*(\(.*\))\s*$/s.exec(s);
  if (!m) return;
  const js = m[2].replace(/\(/g, "[").replace(/\)/g, "]").replace(/(-?[\d.]+(?:e[+-]?\d+)?)\s+(-?[\d.]+(?:e[+-]?\d+)?)/gi, '{"x":$1,"y":$2}');
  let v;
  try {
    v = JSON.parse(js);
  } catch {
    return;
  }
  const conv = (x) => (Array.isArray(x) ? x.map(conv) : [x.x, x.y]);
  return { type: m[1], coords: conv(v) };
}
const flat2 = (c) => (typeof c[0] === "number" ? [c[0] + 0, c[1] + 0] : c.map(flat2));
const positions = (c) => (typeof c[0] === "number" ? [c] : c.flatMap(positions));
function haversine([x1, y1], [x2, y2]) {
  const r = Math.PI / 180;
  // chord formulation, independent of the code's
  const v = (lon, lat) => [Math.cos(lat * r) * Math.cos(lon * r), Math.cos(lat * r) * Math.sin(lon * r), Math.sin(lat * r)];
  const a = v(x1, y1);
  const b = v(x2, y2);
  const chord = Math.hypot(a[0] - b[0], a[1] - b[1], a[2] - b[2]);
  return 2 * 6371 * Math.asin(Math.min(1, chord / 2));
}

export default {
  id: "P09",
  rule: "A case is one random geometry (all kinds, optional altitude, extreme and zero coordinates) converted and parsed back by an independent parser, one pair of positions measured against an independent great-circle formula, or one valid/mutated GeoJSON document judged by the validators; non-trivial when a converted value was compared.",
  assumptions: ["Coordinates are finite numbers; WKT is two-dimensional by design, altitudes are only carried into GML."],
  run(ctx) {
    ctx.require("wkt", 500);
    ctx.require("distances", 500);
    ctx.require("validated", 500);
    for (let i = 0; i < ctx.n(6000, 60000); i++) {
      const rng = ctx.rng;
      const g = geometry(rng, ["Point", "LineString", "Polygon", "MultiPolygon"]);
      const snap = JSON.stringify(g);
      const o = ctx.attemptSync(() => G.createGeometry(g));
      ctx.case(snap);
      ctx.observe("wkt");
      if (!ctx.expect(o.ok, "wkt-throws", "a supported geometry could not be converted", { g })) continue;
      const p = parseWkt(o.value);
      const want = flat2(g.type === "Point" ? [g.coordinates] : g.type === "LineString" ? g.coordinates : g.coordinates);
      ctx.expect(p && p.type === g.type.toUpperCase(), "wkt-type", "the WKT is not of the geometry's kind", { g, wkt: o.value });
      if (p) ctx.equal(p.coords, want, "wkt-coords", "the WKT does not hold exactly the geometry's coordinates in order", { g, wkt: o.value });
      ctx.expect(JSON.stringify(g) === snap, "wkt-mutates", "conversion changed the geometry", { g });
      // GML
      if (g.type !== "MultiPolygon") {
        const srs = rng.maybe(() => "EPSG:" + rng.int(1000, 9999));
        const gm = ctx.attemptSync(() => G.createGmlLineString(g, ...(srs ? [srs] : [])));
        if (ctx.expect(gm.ok, "gml-throws", "a supported geometry could not be converted to GML", { g })) {
          ctx.expect(gm.value.srsName === (srs ?? "EPSG:4326"), "gml-srs", "the GML reference system is not the requested one", { srs, got: gm.value.srsName });
          const nums = gm.value.posList.trim().split(/\s+/).map(Number);
          const exp = positions(g.coordinates).flat();
          ctx.expect(nums.length === exp.length && nums.every((n, k) => Math.abs(n - exp[k]) <= Math.abs(exp[k]) * 6e-8 + 1e-300), "gml-coords", "the GML position list does not hold every coordinate in order", { g, posList: gm.value.posList });
        }
      } else {
        const gm = ctx.attemptSync(() => G.createGmlLineString(g));
        ctx.expect(!gm.ok, "gml-unsupported", "an unsupported geometry was silently converted", { g, got: gm.value });
      }
    }
    for (const g of [{ type: "MultiPoint", coordinates: [[1, 2]] }, { type: "MultiLineString", coordinates: [[[1, 2], [3, 4]]] }, { type: "GeometryCollection", geometries: [] }]) {
      const o = ctx.attemptSync(() => G.createGeometry(g));
      ctx.case({ unsupported: g.type });
      ctx.expect(!o.ok || /EMPTY/i.test(o.value), "wkt-unsupported", "an unsupported geometry produced coordinates", { g, got: o.value });
    }
    // distances
    for (let i = 0; i < ctx.n(6000, 60000); i++) {
      const rng = ctx.rng;
      const P = () => [rng.pick([0, 180, -180, rng.range(-180, 180), rng.range(20, 30)]), rng.pick([0, 90, -90, rng.range(-90, 90), rng.range(59, 70)]), ...(rng.bool(0.2) ? [rng.range(0, 100)] : [])];
      const a = P();
      const b = rng.bool(0.15) ? [...a] : rng.bool(0.3) ? [a[0] + rng.range(-1e-3, 1e-3), Math.max(-90, Math.min(90, a[1] + rng.range(-1e-3, 1e-3)))] : P();
      ctx.case({ a, b });
      ctx.observe("distances");
      const o = ctx.attemptSync(() => [G.distanceBetweenPositionsInKm(a, b), G.distanceBetweenPositionsInKm(b, a), G.distanceBetweenPositionsInM(a, b)]);
      if (!ctx.expect(o.ok, "distance-throws", "the distance of two legal positions could not be computed", { a, b, e: String(o.error) })) continue;
      const [km, back, m] = o.value;
      const want = haversine(a, b);
      ctx.expect(Math.abs(km - want) <= 1e-6 + want * 1e-6, "distance", "the distance is not the great-circle distance", { a, b, km, want });
      ctx.expect(Math.abs(km - back) <= 1e-9 + km * 1e-12, "distance-symmetry", "the distance is not symmetric", { a, b, km, back });
      ctx.expect(Math.abs(m - km * 1000) <= 1e-9 + m * 1e-12, "distance-metres", "metres and kilometres disagree", { a, b, km, m });
      ctx.expect(G.areDistinctPositions(a, b) === !(a[0] === b[0] && a[1] === b[1]), "distinct", "position distinctness is wrong", { a, b });
    }
    for (const [a, b] of [[[1], [2, 3]], [[], []], [[1, 2, 3, 4], [1, 2]], [[1, 2], [1, 2, 3, 4]], [[1, 2], [5]]]) {
      const o = ctx.attemptSync(() => G.distanceBetweenPositionsInKm(a, b));
      ctx.case({ illegal: [a, b] });
      ctx.expect(!o.ok, "distance-illegal", "a distance was computed from an illegal position", { a, b, got: o.value });
    }
    // feature collections and validators
    for (let i = 0; i < ctx.n(3000, 25000); i++) {
      const rng = ctx.rng;
      const feats = rng.array(rng.int(0, 4), (k) => ({ type: "Feature", geometry: geometry(rng, ["Point", "LineString", "Polygon", "MultiPolygon", "MultiPoint", "MultiLineString"]), properties: { k, n: rng.text(5) } }));
      const lu = rng.pick([null, rng.date()]);
      const fc = G.createFeatureCollection(feats, lu);
      ctx.equal({ ...fc }, { type: "FeatureCollection", lastUpdated: lu, features: feats }, "feature-collection", "a feature collection does not wrap the given features and time");
      const doc = JSON.parse(JSON.stringify({ type: "FeatureCollection", features: feats }));
      ctx.case({ doc: JSON.stringify(doc) }, feats.length > 0);
      ctx.observe("validated");
      ctx.expect(G.isValidGeoJson(doc) === true && G.isFeatureCollection(doc) === true, "valid-rejected", "well-formed GeoJSON was judged invalid", { doc });
      ctx.expect(Z.FeatureCollectionSchema.safeParse(doc).success, "schema-rejects", "the GeoJSON schema rejects a well-formed collection", { doc });
      if (!feats.length) continue;
      const bad = JSON.parse(JSON.stringify(doc));
      const f = rng.pick(bad.features);
      const mut = rng.pick(["no-type", "bad-type", "one-coord", "string-coord", "no-coords", "wrong-depth", "bad-feature", "short"]);
      let c = f.geometry.coordinates;
      while (Array.isArray(c[0])) c = c[0];
      if (mut === "no-type") delete f.geometry.type;
      else if (mut === "bad-type") f.geometry.type = "Circle";
      else if (mut === "one-coord") c.length = 1;
      else if (mut === "string-coord") c[0] = "25.0";
      else if (mut === "no-coords") delete f.geometry.coordinates;
      else if (mut === "wrong-depth") f.geometry.coordinates = [f.geometry.coordinates];
      else if (mut === "bad-feature") f.type = "Featur";
      else if (mut === "short") {
        if (f.geometry.type === "LineString") f.geometry.coordinates = f.geometry.coordinates.slice(0, 1);
        else if (f.geometry.type === "Polygon") f.geometry.coordinates = [f.geometry.coordinates[0].slice(0, 3)];
        else f.geometry.coordinates = "x";
      }
      if (mut === "wrong-depth" && f.geometry.type === "Point") f.geometry.coordinates = [[1, 2]];
      ctx.case({ mut, f: JSON.stringify(f) });
      ctx.observe("validated");
      ctx.expect(!Z.FeatureCollectionSchema.safeParse(bad).success, "schema-accepts", "the GeoJSON schema accepts a malformed collection", { mut, f });
      const r = ctx.attemptSync(() => G.isValidGeoJson(bad));
      ctx.expect(!r.ok || r.value === false, "valid-accepted", "malformed GeoJSON was judged valid", { mut, f });
      ctx.expect(Z.FeatureSchema.safeParse(doc.features[0]).success && Z.GeometrySchema.safeParse(doc.features[0].geometry).success, "schema-rejects", "the GeoJSON schema rejects a well-formed feature", { doc });
    }
    ctx.equal({ ...new T.GeoJsonPoint([1, 2]) }, { type: "Point", coordinates: [1, 2] }, "point", "point object is not GeoJSON");
    ctx.equal({ ...new T.GeoJsonLineString([[1, 2], [3, 4]]) }, { type: "LineString", coordinates: [[1, 2], [3, 4]] }, "linestring", "line object is not GeoJSON");
  },
};
