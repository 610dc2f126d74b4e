// Stand-in for mysql2/promise: pools are those of globalThis.__mysql, if a check has set one up.
const none = () => ({ getConnection: async () => { throw new Error("no database"); }, end: async () => {}, on() {} });
export const createPool = (options) => (globalThis.__mysql ? globalThis.__mysql.createPool(options) : none());
export default { createPool };
