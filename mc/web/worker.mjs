// The real webworker.js on the stand-in library. Answers and blob conversions are handed out by the explorer.
import { load, settle, quietConsole, WEB } from './load.mjs';
export class WorkerHost {
    constructor(native) { this.native = native; this.answers = []; this.blobs = []; this.answered = new Map(); this.instance = null; }
    async start() {
        const host = this;
        class ThreadWorker {
            constructor(self) { host.instance = this; this.self = self; }
            sendResponse(id, payload, transfer = []) { host.answer(id, { ok: structuredClone(payload, { transfer: [...new Set(transfer)] }) }); }
            sendError(id, error) { host.answer(id, { error: String(error?.message ?? error) }); }
        }
        class WASI { constructor() { this.wasiImport = {}; } start() {} initialize() {} }
        class File { constructor(data) { this.data = new Uint8Array(data ?? []); } }
        class ImageData { constructor(a, w, h) { if (!Number.isInteger(w) || w <= 0 || a.length !== 4 * w * (h ?? a.length / 4 / w)) throw new Error('IndexSizeError'); Object.assign(this, { data: a, width: w, height: h }); } }
        class OffscreenCanvas {
            constructor(w, h) { this.width = w; this.height = h; this.pixels = null; }
            getContext() { return { putImageData: (d, x, y) => { if (x !== 0 || y !== 0) throw new Error('unexpected offset'); this.pixels = { w: d.width, h: d.height, data: Array.from(d.data) }; } }; }
            convertToBlob() { const b = { blob: true, canvas: [this.width, this.height], ...this.pixels }; const refused = host.native.noBlob?.(); return new Promise((done, no) => host.blobs.push(() => refused ? no(new Error('EncodingError')) : done(b))); }
        }
        const wasm = { exports: this.native.exports };
        const globals = { console: quietConsole, ImageData, OffscreenCanvas, TextDecoder, fetch: async () => ({ arrayBuffer: async () => new ArrayBuffer(0) }), structuredClone, queueMicrotask, setTimeout,
            WebAssembly: { Memory: class { constructor() { this.buffer = new ArrayBuffer(0); } }, compileStreaming: async () => ({}), compile: async () => ({}), instantiate: async () => wasm, instantiateStreaming: async () => ({ instance: wasm, module: {} }), RuntimeError: Error } };
        globals.self = globals;
        await load(`${WEB}/js/webworker.js`, globals, { '@bjorn3/browser_wasi_shim': { WASI, File, OpenFile: class { constructor(f) { this.file = f; } }, PreopenDirectory: class {} }, 'async-thread-worker': { ThreadWorker } });
        if (!this.instance) throw new Error('the worker did not register');
        await settle();
    }
    answer(id, a) { this.answered.set(id, (this.answered.get(id) ?? 0) + 1); this.answers.push([id, a]); }
    /// Hands a request over, as postMessage would.
    post(id, payload, transfer = []) {
        const p = structuredClone(payload, { transfer: [...new Set(transfer)] });
        Promise.resolve().then(() => this.instance.onRequest(id, p)).catch((e) => { this.threw ??= new Map(); this.threw.set(id, String(e?.message ?? e)); });
    }
}
