// Evaluates a synthesized AWS::WAFv2::WebACL on a stream of requests of one
// rate window, the way the service does: rules by priority, counting rules do
// not terminate, blocking rules do.
const ipNum = (ip) => ip.split(".").reduce((a, o) => a * 256 + Number(o), 0);
export function inCidr(ip, cidr) {
  const [base, bits = "32"] = cidr.split("/");
  const size = 2 ** (32 - Number(bits));
  return Math.floor(ipNum(ip) / size) === Math.floor(ipNum(base) / size);
}
const get = (o, k) => o?.[k] ?? o?.[k[0].toUpperCase() + k.slice(1)];
export class Waf {
  constructor(cfn, acl) {
    this.cfn = cfn;
    this.p = acl;
    this.rules = [...(acl.Rules ?? [])].sort((a, b) => a.Priority - b.Priority);
    this.counts = new Map();
    this.used = new Set();
  }
  field(f, r) {
    if (get(f, "singleHeader")) {
      const n = get(get(f, "singleHeader"), "name").toLowerCase();
      return n === "digitraffic-user" ? r.user : r.headers?.[n];
    }
    if (get(f, "uriPath")) return r.path;
    if (get(f, "queryString")) return r.query;
    throw new Error("unsupported field " + JSON.stringify(f));
  }
  transform(v, ts = []) {
    for (const t of [...ts].sort((a, b) => a.Priority - b.Priority)) {
      if (t.Type === "LOWERCASE") v = v.toLowerCase();
      else if (t.Type === "NORMALIZE_PATH") v = new URL("http://x" + v).pathname;
    }
    return v;
  }
  match(st, r, rule) {
    const k = Object.keys(st);
    if (k.length !== 1) throw new Error("statement with " + k.join());
    const s = st[k[0]];
    switch (k[0]) {
      case "NotStatement": return !this.match(s.Statement, r, rule);
      case "AndStatement": return s.Statements.every((x) => this.match(x, r, rule));
      case "OrStatement": return s.Statements.some((x) => this.match(x, r, rule));
      case "SizeConstraintStatement": {
        const v = this.field(s.FieldToMatch, r);
        if (v === undefined) return false;
        const n = Buffer.byteLength(v);
        return { GT: n > s.Size, GE: n >= s.Size, LT: n < s.Size, LE: n <= s.Size, EQ: n === s.Size, NE: n !== s.Size }[s.ComparisonOperator];
      }
      case "RegexMatchStatement": {
        const v = this.field(s.FieldToMatch, r);
        return v !== undefined && new RegExp(s.RegexString).test(this.transform(v, s.TextTransformations));
      }
      case "IPSetReferenceStatement": {
        const id = s.Arn?.["Fn::GetAtt"]?.[0];
        const set = this.cfn.byId(id)?.Properties;
        if (!set) throw new Error("unknown ip set");
        return set.Addresses.some((c) => inCidr(r.ip, c));
      }
      case "ManagedRuleGroupStatement": return false;
      case "RateBasedStatement": {
        if (s.ScopeDownStatement && !this.match(s.ScopeDownStatement, r, rule)) return false;
        let key = "";
        if (s.AggregateKeyType === "IP") key = r.ip;
        else if (s.AggregateKeyType === "CUSTOM_KEYS")
          key = s.CustomKeys.map((c) => (c.IP ? "ip:" + r.ip : c.UriPath ? "path:" + this.transform(r.path, c.UriPath.TextTransformations) : c.Header ? "h" : JSON.stringify(c))).sort().join("|");
        else throw new Error("aggregate " + s.AggregateKeyType);
        const kk = rule.Name + "|" + key;
        const n = (this.counts.get(kk) ?? 0) + 1;
        this.counts.set(kk, n);
        return n > s.Limit;
      }
      default: throw new Error("statement " + k[0]);
    }
  }
  request(r) {
    const counted = [];
    // every rate counter sees every request, so the verdict does not depend on rule order
    const hit = this.rules.map((rule) => this.match(rule.Statement, r, rule));
    for (const [i, rule] of this.rules.entries()) {
      if (!hit[i]) continue;
      this.used.add(rule.Name);
      if (rule.Action?.Block) {
        const c = rule.Action.Block.CustomResponse;
        return { blocked: true, rule: rule.Name, status: c?.ResponseCode ?? 403, body: c?.CustomResponseBodyKey ? this.p.CustomResponseBodies?.[c.CustomResponseBodyKey]?.Content : undefined, counted };
      }
      if (rule.Action?.Allow) return { blocked: false, rule: rule.Name, counted };
      counted.push(rule.Name);
    }
    return { blocked: !!this.p.DefaultAction?.Block, counted };
  }
}
