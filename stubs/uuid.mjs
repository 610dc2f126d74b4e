import { randomUUID } from "node:crypto";
export const v4 = () => randomUUID();
export default { v4 };
