// Loads the TypeScript sources of /repo directly (no build output is used, so a
// check always judges the current working tree), and lets a check substitute
// third-party packages that are not installed in this sandbox.
import { registerHooks, createRequire } from "node:module";
import { readFileSync, existsSync } from "node:fs";
import { fileURLToPath, pathToFileURL } from "node:url";
import path from "node:path";

export const REPO = process.env.VERIF_REPO ?? "/repo";
export const LIB = path.join(REPO, "lib/digitraffic-common");
const LIBSRC = path.join(LIB, "src");
const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
const req = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = req("/opt/veriftools/node/node_modules/esbuild");

const stubs = new Map(); // specifier -> file url
const cache = new Map();

/** Substitute a bare package (exact specifier) with a stub module in /verif/stubs. */
export function stub(specifier, file) {
  stubs.set(specifier, pathToFileURL(path.join(VERIF, "stubs", file)).href);
}

/** Substitute any module of /repo (absolute path) with a stub module. */
export function stubFile(absPath, file) {
  stubs.set(absPath, pathToFileURL(path.join(VERIF, "stubs", file)).href);
}

const isRepo = (u) => u?.startsWith("file://") && fileURLToPath(u).startsWith(REPO + "/");
const inNodeModules = (p) => p.includes("/node_modules/");

function splitQuery(u) {
  const i = u.indexOf("?");
  return i < 0 ? [u, ""] : [u.slice(0, i), u.slice(i)];
}

function tsCandidates(p) {
  if (p.endsWith(".js")) return [p.slice(0, -3) + ".ts", p.slice(0, -3) + ".tsx", p];
  if (p.endsWith(".mjs")) return [p.slice(0, -4) + ".mts", p];
  return [p, p + ".ts", path.join(p, "index.ts")];
}

function resolveTs(p) {
  for (const c of tsCandidates(p)) if (existsSync(c)) return c;
  return undefined;
}

let installed = false;
export function install() {
  if (installed) return;
  installed = true;
  registerHooks({
    resolve(specifier, context, nextResolve) {
      const [parent, pq] = splitQuery(context.parentURL ?? "");
      const parentInRepo = isRepo(parent) && !inNodeModules(parent);
      if (!parentInRepo && !specifier.startsWith("file://" + REPO)) {
        const s0 = stubs.get("*:" + specifier);
        if (s0) return { url: s0, shortCircuit: true };
        // Packages of /verif harness code that live in the library's node_modules.
        return nextResolve(specifier, context);
      }
      const done = (file) => {
        const s = stubs.get(file);
        if (s) return { url: s, shortCircuit: true };
        return { url: pathToFileURL(file).href + pq, shortCircuit: true };
      };
      if (specifier.startsWith("file://")) {
        const [u, q] = splitQuery(specifier);
        const f = resolveTs(fileURLToPath(u));
        if (f) return { url: pathToFileURL(f).href + q, shortCircuit: true };
        return nextResolve(specifier, context);
      }
      if (specifier.startsWith(".")) {
        const f = resolveTs(path.resolve(path.dirname(fileURLToPath(parent)), specifier));
        if (f) return done(f);
        return nextResolve(specifier, context);
      }
      const m = /^@digitraffic\/common(?:\/dist\/(.*))?$/.exec(specifier);
      if (m) {
        let sub = m[1] ?? "index.js";
        if (sub.startsWith("test/")) sub = sub.replace(/^test\//, "__test__/");
        const f = resolveTs(path.join(LIBSRC, sub));
        if (f) return done(f);
      }
      const s = stubs.get(specifier);
      if (s) return { url: s, shortCircuit: true };
      if (specifier.startsWith("node:")) return nextResolve(specifier, context);
      try {
        return nextResolve(specifier, { ...context, parentURL: parent });
      } catch (e) {
        try {
          return nextResolve(specifier, {
            ...context,
            parentURL: pathToFileURL(path.join(LIBSRC, "index.ts")).href,
          });
        } catch {}
        const alt = pathToFileURL(path.join(VERIF, "stubs", "index.mjs")).href;
        const g = path.join(VERIF, "stubs", specifier.replaceAll("/", "__") + ".mjs");
        if (existsSync(g)) return { url: pathToFileURL(g).href, shortCircuit: true };
        void alt;
        if (globalThis.__autostub) return { url: globalThis.__autostub(specifier), shortCircuit: true };
        throw e;
      }
    },
    load(url, context, nextLoad) {
      const [u] = splitQuery(url);
      if (u.startsWith("file://") && /\.(ts|tsx|mts)$/.test(u)) {
        const f = fileURLToPath(u);
        let code = cache.get(f);
        if (code === undefined) {
          code = esbuild.transformSync(readFileSync(f, "utf8"), {
            loader: "ts",
            format: "esm",
            target: "es2024",
            sourcefile: f,
            sourcemap: "inline",
            tsconfigRaw: { compilerOptions: { verbatimModuleSyntax: true } },
          }).code;
          // `import x = require("…")`
          if (/\brequire\(/.test(code) && !/createRequire/.test(code))
            code = `import { createRequire as __cr } from "node:module"; const require = __cr(${JSON.stringify(path.join(LIBSRC, "index.ts"))}); ` + code;
          cache.set(f, code);
        }
        return { format: "module", source: code, shortCircuit: true };
      }
      if (u.startsWith("file://") && u.endsWith(".json") && isRepo(u) && !inNodeModules(u)) {
        return {
          format: "module",
          source: "export default " + readFileSync(fileURLToPath(u), "utf8"),
          shortCircuit: true,
        };
      }
      return nextLoad(url, context);
    },
  });
}

let fresh = 0;
/** Import a module of /repo, e.g. repo("lib/digitraffic-common/src/utils/retry.ts"). */
export function repo(rel, { isolated = false } = {}) {
  const q = isolated ? `?v=${++fresh}` : "";
  return import(pathToFileURL(path.join(REPO, rel)).href + q);
}
/** Import from the shared library's sources. */
export const lib = (rel, o) => repo("lib/digitraffic-common/src/" + rel, o);
/** A package as the library itself resolves it. */
const libReq = createRequire(path.join(LIBSRC, "index.ts"));
export const libPackage = (name) => libReq(name);
