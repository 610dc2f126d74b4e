export const globby = (...a) => globalThis.__globby(...a);
