// Runs the web sources as they are, each in its own realm, with the browser and the two npm packages replaced by stand-ins.
import vm from 'node:vm';
import fs from 'node:fs';
import path from 'node:path';

export const WEB = process.env.WEB_SRC || '/repo/image-palette-recoloring-web/src';
const text = new Map(), cached = new Map();
function source(file, context) {
    if (!text.has(file)) text.set(file, fs.readFileSync(file, 'utf8'));
    const m = new vm.SourceTextModule(text.get(file), { context, identifier: file, cachedData: cached.get(file) });
    if (!cached.has(file)) cached.set(file, m.createCachedData());
    return m;
}
/// Evaluates `file`; bare imports come from `packages`, relative ones from disk.
export async function load(file, globals, packages) {
    const context = vm.createContext(globals);
    const known = new Map();
    const get = (f) => { if (!known.has(f)) known.set(f, source(f, context)); return known.get(f); };
    const main = get(file);
    await main.link((spec, from) => {
        if (spec.startsWith('.')) { let f = path.resolve(path.dirname(from.identifier), spec); if (!fs.existsSync(f)) f += '.js'; return get(f); }
        if (!packages[spec]) throw new Error(`unknown package ${spec}`);
        const names = Object.keys(packages[spec]);
        return new vm.SyntheticModule(names, function () { for (const n of names) this.setExport(n, packages[spec][n]); }, { context });
    });
    await main.evaluate();
    return context;
}
/// Lets everything run that can run without an outside event.
export const settle = () => new Promise((r) => setImmediate(r));
export const quietConsole = { log() {}, error() {}, warn() {}, info() {}, debug() {} };
export class RunawayError extends Error {}
