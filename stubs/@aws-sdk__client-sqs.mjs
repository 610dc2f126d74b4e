// Sends go to the simulated queues of the check (globalThis.__sqs).
export class SendMessageCommand {
  constructor(input) {
    this.input = input;
  }
}
export class SendMessageBatchCommand {
  constructor(input) {
    this.input = input;
  }
}
export class SQSClient {
  constructor(config) {
    this.config = config;
  }
  async send(c) {
    if (c instanceof SendMessageCommand) return globalThis.__sqs.send(c.input);
    if (c instanceof SendMessageBatchCommand) return globalThis.__sqs.sendBatch(c.input);
    throw new Error("unsupported SQS command " + c?.constructor?.name);
  }
  destroy() {}
}
export class SQS extends SQSClient {
  sendMessage(input) {
    return this.send(new SendMessageCommand(input));
  }
  sendMessageBatch(input) {
    return this.send(new SendMessageBatchCommand(input));
  }
}
