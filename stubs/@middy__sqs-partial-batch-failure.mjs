// Settled results, one per record, become the identifiers of the records that failed.
export default function sqsPartialBatchFailure() {
  const after = async (request) => {
    const batchItemFailures = [];
    request.event.Records.forEach((record, i) => {
      const r = request.response[i];
      if (r.status === "fulfilled") return;
      batchItemFailures.push({ itemIdentifier: record.messageId });
    });
    request.response = { batchItemFailures };
  };
  const onError = async (request) => {
    if (request.response !== undefined) return;
    request.response = request.event.Records.map(() => ({ status: "rejected", reason: request.error }));
    await after(request);
  };
  return { after, onError };
}
