// The installed ajv, found where this sandbox keeps its tools.
import { createRequire } from "node:module";
const Ajv = createRequire("/opt/veriftools/node/node_modules/")("ajv");
export { Ajv };
export default Ajv;
