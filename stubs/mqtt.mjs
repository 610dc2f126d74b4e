// Publishing goes to the broker of the check (globalThis.__mqtt).
export async function connectAsync(...a) {
  const session = await globalThis.__mqtt.connect(...a);
  let open = true;
  return {
    async publishAsync(topic, message, opts) {
      if (!open) throw new Error("client disconnecting");
      return globalThis.__mqtt.publish(session, topic, message, opts);
    },
    async endAsync() {
      open = false;
      return globalThis.__mqtt.end(session);
    },
  };
}
export default { connectAsync };
