// Simulated SQS, configured from the CloudFormation the application itself produces:
// queues, redrive policies, event source mappings and the environments of the consumers
// are read from the template, and the consumers are the handlers of /repo's sources.
import fs from "node:fs";
import path from "node:path";
import { REPO, repo } from "./hooks.mjs";
import { target, text } from "./cfn.mjs";

export const url = (id) => `https://sqs.eu-west-1.amazonaws.com/123456789012/${id}`;

/** what a template says about queues and their consumers */
export function readQueues(cfn, app) {
  const queues = {};
  for (const [id, r] of cfn.of("AWS::SQS::Queue")) {
    const p = r.Properties ?? {};
    queues[id] = { id, name: p.QueueName, dlq: p.RedrivePolicy && target(p.RedrivePolicy.deadLetterTargetArn), maxReceive: p.RedrivePolicy && Number(p.RedrivePolicy.maxReceiveCount), visibility: p.VisibilityTimeout ?? 30, fifo: Boolean(p.FifoQueue) };
  }
  const value = (v) => {
    if (v === null || v === undefined) return undefined;
    if (typeof v !== "object") return String(v);
    const id = v.Ref ?? v["Fn::GetAtt"]?.[0];
    if (queues[id]) return url(id);
    const r = id && cfn.byId(id);
    if (r?.Type === "AWS::S3::Bucket") return r.Properties?.BucketName ?? id;
    if (r?.Type === "AWS::SNS::Topic") return `arn:aws:sns:eu-west-1:123456789012:${r.Properties?.TopicName ?? id}`;
    return text(v);
  };
  const functions = {};
  for (const [id, r] of cfn.of("AWS::Lambda::Function")) {
    const p = r.Properties ?? {};
    const asset = r.Metadata?.["aws:asset:path"];
    if (!asset || !p.Handler) continue;
    const dir = /dist\/lambda\/(.+)$/.exec(asset)?.[1] ?? path.basename(asset);
    const [file, fn] = [p.Handler.slice(0, p.Handler.lastIndexOf(".")), p.Handler.slice(p.Handler.lastIndexOf(".") + 1)];
    const rel = `${app}/src/lambda/${/dist\/lambda$/.test(asset) ? "" : dir + "/"}${file}.ts`;
    functions[id] = { id, name: p.FunctionName, rel: fs.existsSync(path.join(REPO, rel)) ? rel : undefined, wanted: rel, export: fn, timeout: p.Timeout ?? 3, env: Object.fromEntries(Object.entries(p.Environment?.Variables ?? {}).map(([k, v]) => [k, value(v)])), concurrency: p.ReservedConcurrentExecutions };
  }
  const mappings = cfn.of("AWS::Lambda::EventSourceMapping").map(([id, r]) => {
    const p = r.Properties;
    return { id, queue: target(p.EventSourceArn), fn: target(p.FunctionName), batch: p.BatchSize ?? 10, window: p.MaximumBatchingWindowInSeconds ?? 0, partial: (p.FunctionResponseTypes ?? []).includes("ReportBatchItemFailures"), enabled: p.Enabled !== false, filter: p.FilterCriteria };
  });
  return { queues, functions, mappings, value };
}

/** settings some function was given: another one does not see them */
const KNOWN = new Set();

export class Queues {
  constructor(conf, { rng, tick = () => {} }) {
    Object.assign(this, conf);
    this.rng = rng;
    this.tick = tick;
    this.n = 0;
    this.messages = []; // every message ever accepted
    this.ready = new Map(Object.keys(conf.queues).map((k) => [k, []]));
    this.invocations = [];
    this.parked = new Map();
    this.sendFails = () => false;
    this.parkFails = () => false;
    this.unparkFails = () => false;
    this.baseEnv = {};
    globalThis.__sqs = {
      send: async (i) => this.sent(i),
      sendBatch: async (i) => {
        const Successful = [];
        const Failed = [];
        for (const e of i.Entries)
          try {
            Successful.push({ Id: e.Id, MessageId: (await this.sent({ ...e, QueueUrl: i.QueueUrl })).MessageId });
          } catch (x) {
            Failed.push({ Id: e.Id, SenderFault: false, Code: "InternalError", Message: String(x) });
          }
        return { Successful, Failed };
      },
      park: async (b, body) => {
        if (this.parkFails()) throw new Error("upload of the body failed");
        const k = `k${++this.n}`;
        this.parked.set(`${b}/${k}`, body);
        return k;
      },
      unpark: async (b, k) => {
        if (this.unparkFails()) throw new Error("the body could not be fetched");
        if (!this.parked.has(`${b}/${k}`)) throw new Error("NoSuchKey");
        return this.parked.get(`${b}/${k}`);
      },
    };
  }
  sent(i) {
    if (this.sendFails(i)) throw Object.assign(new Error("ServiceUnavailable"), { name: "ServiceUnavailable" });
    const q = Object.keys(this.queues).find((k) => url(k) === i.QueueUrl);
    if (!q) throw new Error("AWS.SimpleQueueService.NonExistentQueue " + i.QueueUrl);
    if (typeof i.MessageBody !== "string" || !i.MessageBody.length) throw new Error("MissingParameter MessageBody");
    if (Buffer.byteLength(i.MessageBody) > 256 * 1024) throw new Error("InvalidParameterValue: message too long");
    const m = this.put(q, i.MessageBody, i.MessageAttributes);
    return { MessageId: m.id, $metadata: {} };
  }
  put(queue, body, attributes = {}) {
    const m = { id: `m-${++this.n}`, queue, origin: queue, body, attributes, receives: 0, total: 0, state: "queued", faults: 0 };
    this.messages.push(m);
    this.ready.get(queue).push(m);
    return m;
  }
  /** lambda environments are complete before a module is loaded */
  async load(fnId) {
    const f = this.functions[fnId];
    if (!f) throw new Error("no such function " + fnId);
    if (!f.rel) throw new Error("no source for the handler of " + f.name + ": " + f.wanted);
    const keep = { ...process.env };
    for (const k of Object.keys(process.env)) if (!(k in this.baseEnv) && KNOWN.has(k)) delete process.env[k];
    Object.assign(process.env, f.env, this.baseEnv);
    void keep;
    for (const k of Object.keys(f.env)) KNOWN.add(k);
    f.module ??= await repo(f.rel, { isolated: true });
    return f.module[f.export];
  }
  record(m, queue) {
    return {
      messageId: m.id,
      receiptHandle: `${m.id}#${m.receives}`,
      body: m.body,
      attributes: { ApproximateReceiveCount: String(m.receives), SentTimestamp: "1700000000000", SenderId: "AIDA", ApproximateFirstReceiveTimestamp: "1700000000000" },
      messageAttributes: Object.fromEntries(Object.entries(m.attributes).map(([k, a]) => [k, { stringValue: a.StringValue, stringListValues: [], binaryListValues: [], dataType: a.DataType }])),
      md5OfBody: "",
      eventSource: "aws:sqs",
      eventSourceARN: `arn:aws:sqs:eu-west-1:123456789012:${queue}`,
      awsRegion: "eu-west-1",
    };
  }
  /** one invocation of a mapping; returns whether there was anything to deliver */
  async deliver(map, { max = Infinity } = {}) {
    const q = this.queues[map.queue];
    const waiting = this.ready.get(map.queue);
    const size = this.rng.int(1, Math.max(1, Math.min(map.batch, waiting.length, max)));
    const batch = [];
    while (waiting.length && batch.length < size) {
      const m = waiting.shift();
      if (q.maxReceive && m.receives >= q.maxReceive) {
        // over the limit: to the dead letter queue, the counter starts again
        m.receives = 0;
        m.queue = q.dlq;
        m.dead = (m.dead ?? 0) + 1;
        this.ready.get(q.dlq).push(m);
        continue;
      }
      m.receives++;
      m.total++;
      batch.push(m);
    }
    if (!batch.length) return waiting.length > 0;
    const inv = { fn: map.fn, queue: map.queue, ids: batch.map((m) => m.id), n: this.invocations.length };
    this.invocations.push(inv);
    this.tick();
    let failed;
    try {
      const h = await this.load(map.fn);
      inv.result = await h({ Records: batch.map((m) => this.record(m, map.queue)) }, { awsRequestId: `r${inv.n}`, functionName: this.functions[map.fn].name });
      if (!map.partial) failed = new Set();
      else {
        const items = inv.result?.batchItemFailures;
        if (!items) failed = new Set();
        else if (!Array.isArray(items) || items.some((i) => !inv.ids.includes(i?.itemIdentifier))) failed = new Set(inv.ids);
        else failed = new Set(items.map((i) => i.itemIdentifier));
      }
    } catch (e) {
      inv.error = e;
      failed = new Set(inv.ids);
    }
    inv.failed = [...failed];
    for (const m of batch) {
      if (failed.has(m.id)) this.ready.get(map.queue).push(m);
      else m.state = "deleted";
      m.last = inv;
      this.after?.(m, inv, map);
    }
    return true;
  }
  async drain({ limit = 500, order = "random", max } = {}) {
    for (let i = 0; i < limit; i++) {
      const busy = this.mappings.filter((m) => m.enabled && this.ready.get(m.queue).length);
      if (!busy.length) return true;
      await this.deliver(order === "random" ? this.rng.pick(busy) : busy[0], { max });
    }
    return false;
  }
  redeliver(m) {
    // at-least-once: a deleted message can be seen again
    m.state = "queued";
    m.receives = Math.max(0, m.receives - 1);
    this.ready.get(m.queue).push(m);
  }
}
