// The whole web application: the real index.js and webworker.js over the stand-in page and library. The explorer hands out every outside event.
import { load, settle, quietConsole, WEB } from './load.mjs';
import { Native } from './native.mjs';
import { WorkerHost } from './worker.mjs';
import { Doc } from './dom.mjs';

const rgba = (w, h, s) => Uint8ClampedArray.from({ length: 4 * w * h }, (_, i) => (i % 4 === 3 ? 255 - s : (s * 31 + i * 13 + 5) % 256));
/// 0: the example; 1: another one; 2: one whose weights cannot be computed; 3: one for which no palette can be computed;
/// 4: one with more colours than can be counted; 5: not an image at all
export const FILES = [[2, 1, rgba(2, 1, 1)], [1, 2, rgba(1, 2, 2)], [2, 2, rgba(2, 2, 3)], [1, 1, rgba(1, 1, 4)], [3, 1, rgba(3, 1, 5)]];
export const rgb = (a) => Uint8Array.from(Array.from(a).filter((_, i) => i % 4 !== 3));
export const hex = (c) => '#' + c.map((x) => x.toString(16).padStart(2, '0')).join('');
export const unhex = (s) => [1, 3, 5].map((i) => parseInt(s.slice(i, i + 2), 16));

export class Page {
    constructor({ paletteOf, decide }) {
        this.native = new Native({ paletteOf, decide });
        this.urls = new Map(); this.nextUrl = 1; this.errors = []; this.pendingLoad = null; this.answers = []; this.requests = new Map(); this.nextId = 1; this.fetches = []; this.sent = 0;
    }
    async start() {
        const page = this;
        this.worker = new WorkerHost(this.native);
        this.worker.answer = (id, a) => { if (!this.requests.has(id)) this.errors.push('an answer to no request'); this.answers.push([id, a]); };
        await this.worker.start();
        const doc = this.doc = new Doc();
        const src = doc.getElementById('src-img');
        const image = (u) => { const x = this.urls.get(u); return x && x.live && x.file !== undefined ? x : null; };
        let loaded = null; // the URL the page shows
        doc.onsrc = (e) => {
            if (e === src) { e._image = null; page.pendingLoad = () => { page.pendingLoad = null; const x = image(e._src); if (!x || !FILES[x.file]) { e.fire('error'); return; } const [w, h, data] = FILES[x.file]; e._image = { w, h, data, file: x.file }; loaded = e._src; e.fire('load'); }; }
            else if (e.offscreen) { const x = e._src === loaded && image(e._src); if (x) { const [w, h, data] = FILES[x.file]; e._image = { w, h, data, file: x.file }; queueMicrotask(() => e.fire('load')); } else e._image = null; }
        };
        class Thread {
            sendRequest(payload, transfer = []) {
                const id = page.nextId++; page.sent++;
                if (page.sent > 400) throw new Error('runaway');
                const p = structuredClone(payload, { transfer: [...new Set(transfer)] });
                return new Promise((ok, no) => { page.requests.set(id, { ok, no }); page.worker.post(id, p); });
            }
        }
        class Image { constructor() { const e = doc.createElement('img'); e.offscreen = true; return e; } }
        class OffscreenCanvas {
            constructor(w, h) { this.width = w; this.height = h; }
            getContext() { const c = this; return { drawImage(i, x, y) { if (!i._image) return; c.drawn = i._image; if (x !== 0 || y !== 0) throw new Error('offset'); }, getImageData(x, y, w, h) { if (!(w > 0 && h > 0)) throw new Error('IndexSizeError'); if (!c.drawn || c.width !== w || c.height !== h || w !== c.drawn.w || h !== c.drawn.h) return { data: new Uint8ClampedArray(4 * w * h), width: w, height: h }; return { data: c.drawn.data.slice(), width: w, height: h }; } }; }
        }
        const URL = { createObjectURL: (b) => { if (!b || typeof b !== 'object') throw new TypeError('not a blob'); const u = `blob:${this.nextUrl++}`; if (!b || (b.file === undefined && !b.blob)) page.errors.push('an address was made for something that is not a blob'); this.urls.set(u, { live: true, file: b?.file, blob: b }); return u; },
            revokeObjectURL: (u) => { const x = this.urls.get(u); if (!x) page.errors.push('revoked an address that does not exist'); else if (!x.live) page.errors.push('revoked an address twice'); else x.live = false; } };
        const winListeners = [];
        const globals = { console: quietConsole, document: doc, Image, OffscreenCanvas, URL, FileReader: class {}, setTimeout, clearTimeout, queueMicrotask, structuredClone, alert() {},
            fetch: () => new Promise((ok) => page.fetches.push(() => ok({ ok: true, blob: async () => ({ file: 0 }) }))), addEventListener: (t, f) => winListeners.push([t, f]) };
        globals.window = globals; globals.self = globals;
        this.context = await load(`${WEB}/js/index.js`, globals, { '@bjorn3/browser_wasi_shim': { WASI: class {}, File: class {}, OpenFile: class {}, PreopenDirectory: class {} }, 'async-thread-worker': { Thread } });
        for (const [t, f] of winListeners) if (t === 'load') f({ type: 'load' });
        await settle();
    }
    el(id) { return this.doc.getElementById(id); }
    divs() { return this.el('palette-wrapper').kids; }
    part(k, name) { return this.divs()[k]?.children[name]; }
    busy() { return this.requests.size > 0 || this.worker.blobs.length > 0; }
    /// The outside events that can happen next: [name, effect]
    events() {
        const v = [];
        if (this.fetches.length) v.push(['fetched', () => this.fetches.shift()()]);
        if (this.pendingLoad) v.push(['loaded', () => this.pendingLoad()]);
        if (this.answers.length) v.push(['answer', () => { const [id, a] = this.answers.shift(); const r = this.requests.get(id); if (!r) return; this.requests.delete(id); 'ok' in a ? r.ok(a.ok) : r.no(a.error); }]);
        this.worker.blobs.forEach((_, k) => v.push([`converted${k}`, () => this.worker.blobs.splice(k, 1)[0]()]));
        return v;
    }
    /// A user's action; false if the page does not let them.
    act([what, a, b, c]) {
        if (what === 'pick') { const p = this.el('src-img-picker'); if (p.disabled) return false; p.files = a === undefined ? [] : [{ file: a }]; p.fire('input'); p.fire('change'); return true; }
        // the dialog keeps the rest of the page from being used, and outlasts its button being disabled
        if (what === 'open') { this.dialog = !this.el('src-img-picker').disabled; return this.dialog; }
        if (what === 'choose') { const p = this.el('src-img-picker'); if (!this.dialog) return false; this.dialog = false; p.files = [{ file: a }]; p.fire('input'); p.fire('change'); return true; }
        if (what === 'click') { const e = this.el(a); if (e.disabled) return false; e.fire('click'); return true; }
        if (what === 'field') { const e = this.el(a); if (e.disabled) return false; e.value = b; e.fire('input'); e.fire('change'); return true; }
        // what = text | colour, palette entry a, 'src' | 'dst', value
        const e = this.part(a, `palette-${b}-color${what === 'text' ? '-txt' : ''}`);
        if (!e || e.disabled) return false;
        e.value = typeof c === 'function' ? c(this) : c;
        e.fire('input'); e.fire('change');
        return true;
    }
}
