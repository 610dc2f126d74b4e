// Bodies over the limit travel through a bucket; the message refers to the object.
import { SQS } from "./@aws-sdk__client-sqs.mjs";
export const LIMIT = 256 * 1024;
export class ExtendedSqsClient extends SQS {
  constructor(options = {}) {
    super(options.sqsClientConfig);
    this.bucket = options.bucketName;
    this.always = options.alwaysUseS3;
  }
  async sendMessage(input) {
    if (!this.always && Buffer.byteLength(input.MessageBody) <= LIMIT) return super.sendMessage(input);
    const key = await globalThis.__sqs.park(this.bucket, input.MessageBody);
    return super.sendMessage({ ...input, MessageBody: JSON.stringify({ S3MessageBodyKey: key }), MessageAttributes: { ...(input.MessageAttributes ?? {}), S3MessageBodyKey: { DataType: "String", StringValue: `(${this.bucket})${key}` } } });
  }
  async _processReceive(output) {
    const Messages = await Promise.all(
      (output.Messages ?? []).map(async (m) => {
        const ref = m.MessageAttributes?.S3MessageBodyKey?.StringValue;
        if (!ref) return m;
        const [, bucket, key] = /^\((.*?)\)(.*)$/.exec(ref);
        return { ...m, Body: await globalThis.__sqs.unpark(bucket, key) };
      }),
    );
    return { ...output, Messages };
  }
}
export default ExtendedSqsClient;
