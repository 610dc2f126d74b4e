// Stand-in for the SSM client: parameters live in globalThis.__ssm.
export class GetParameterCommand {
  constructor(input) {
    this.input = input;
  }
}
export class PutParameterCommand {
  constructor(input) {
    this.input = input;
  }
}
export class SSMClient {
  constructor(config) {
    this.config = config;
  }
  async send(c) {
    await new Promise((r) => setImmediate(r));
    if (c instanceof GetParameterCommand) return globalThis.__ssm.get(c.input);
    if (c instanceof PutParameterCommand) return globalThis.__ssm.put(c.input);
    throw new Error("unsupported SSM command " + c?.constructor?.name);
  }
}
