// Seeded random source and generators.
export function fnv(s) {
  let h = 0x811c9dc5;
  for (let i = 0; i < s.length; i++) {
    h ^= s.charCodeAt(i);
    h = Math.imul(h, 0x01000193);
  }
  return h >>> 0;
}
export class Rng {
  constructor(seed) {
    this.s = seed >>> 0;
  }
  u32() {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  float() {
    return this.u32() / 4294967296;
  }
  /** integer in [lo, hi] */
  int(lo, hi) {
    return lo + Math.floor(this.float() * (hi - lo + 1));
  }
  range(lo, hi) {
    return lo + this.float() * (hi - lo);
  }
  bool(p = 0.5) {
    return this.float() < p;
  }
  pick(a) {
    return a[this.int(0, a.length - 1)];
  }
  shuffle(a) {
    const b = [...a];
    for (let i = b.length - 1; i > 0; i--) {
      const j = this.int(0, i);
      [b[i], b[j]] = [b[j], b[i]];
    }
    return b;
  }
  subset(a, p = 0.5) {
    return a.filter(() => this.bool(p));
  }
  array(n, f) {
    return Array.from({ length: n }, (_, i) => f(i));
  }
  maybe(v, p = 0.5) {
    return this.bool(p) ? (typeof v === "function" ? v() : v) : undefined;
  }
  word(lo = 1, hi = 8) {
    return this.array(this.int(lo, hi), () => this.pick("abcdefghijklmnopqrstuvwxyz".split(""))).join("");
  }
  digits(n) {
    return this.array(n, () => this.int(0, 9)).join("");
  }
  /** text over hostile alphabets */
  text(max = 30) {
    const n = this.int(0, max);
    const mode = this.int(0, 5);
    let s = "";
    for (let i = 0; i < n; i++) {
      switch (mode) {
        case 0:
          s += String.fromCharCode(this.int(32, 126));
          break;
        case 1:
          s += this.pick(["ä", "ö", "å", "Ä", "Ö", "é", "ž", "€", "a", "b", " "]);
          break;
        case 2:
          s += this.pick(["😀", "🚢", "漢", "字", "и", "א", "a", "\u0301"]);
          break;
        case 3:
          s += this.pick(["<", ">", "&", '"', "'", "\\", "/", "$", "$&", "$'", "$1", "`", "%", "{", "}", "\n", "\t", ";", "#"]);
          break;
        case 4:
          s += this.pick(["a", "A", "0", "9", "-", "_", ".", ",", ":", " "]);
          break;
        default:
          s += String.fromCharCode(this.int(97, 122));
      }
    }
    return s;
  }
  json(depth = 3) {
    const k = this.int(0, depth > 0 ? 8 : 5);
    switch (k) {
      case 0:
        return null;
      case 1:
        return this.bool();
      case 2:
        return this.pick([0, -1, 1.5, 1e21, -1e-7, 123456789, this.int(-1000, 1000)]);
      case 3:
      case 4:
      case 5:
        return this.text(20);
      case 6:
        return this.array(this.int(0, 4), () => this.json(depth - 1));
      default: {
        const o = {};
        for (let i = this.int(0, 4); i > 0; i--) o[this.word(1, 6)] = this.json(depth - 1);
        return o;
      }
    }
  }
  date(lo = Date.UTC(1990, 0, 1), hi = Date.UTC(2040, 0, 1)) {
    return new Date(this.int(lo, hi));
  }
  fork(label) {
    return new Rng((this.u32() ^ fnv(String(label))) >>> 0);
  }
}
