// A stand-in for the compiled library that notices every misuse: wrong sizes, double release, use after release, out of bounds.
export function content(...parts) {
    let h = 0x811c9dc5;
    for (const p of parts) for (const x of typeof p === 'string' ? Buffer.from(p) : [p]) { h = Math.imul(h ^ (x & 255), 0x01000193) >>> 0; h = Math.imul(h ^ (x >>> 8), 0x01000193) >>> 0; }
    return h >>> 0;
}
const key = (bytes) => Array.from(bytes).join();
/// What reconstructing and extracting channels gives, byte by byte.
export const recolored = (img, pal, rec, i) => content(key(img), 'r', key(pal), 'r', key(rec), i) & 255;
export const channel = (img, pal, c, i) => content(key(img), 'c', key(pal), c, i) & 255;

export class Native {
    /// decide(operation, details) -> 'ok' | 'null' | 'throw'; paletteOf(bytes, min, max, bound) -> colours; grow: the calls at which memory moves
    constructor({ decide = () => 'ok', paletteOf, grow = new Set(), fault = -1 }) {
        Object.assign(this, { decide, paletteOf, grow, fault, errors: [], blocks: new Map(), weights: new Map(), images: new Map(), calls: 0, top: 1024, nextWeights: 5000, nextImage: 9000, log: [] });
        this.buf = new ArrayBuffer(1 << 14);
        const me = this;
        this.exports = { memory: { get buffer() { return me.buf; } } };
        for (const n of ['create_image_buffer', 'free_image_buffer', 'create_image_weights', 'free_image_weights', 'compute_palette', 'free_computed_palette',
            'create_decomposed_image', 'free_decomposed_image', 'get_decomposed_image_width', 'get_decomposed_image_height', 'get_decomposed_image_num_channels', 'reconstruct_image', 'grayscale_image_channel'])
            this.exports[n] = (...a) => { if (this.calls === this.fault) { this.faulted = n; this.calls++; throw new Error('unreachable'); } if (this.grow.has(this.calls++)) this.move(); if (this.calls > 5000) throw new Error('runaway'); return this['$' + n](...a); };
    }
    bad(m) { this.errors.push(m); }
    move() { const b = new ArrayBuffer(this.buf.byteLength + 4096); new Uint8Array(b).set(new Uint8Array(this.buf)); this.buf.transfer(0); this.buf = b; }
    alloc(n, kind) {
        n >>>= 0;
        if (n === 0) return 1;
        const p = this.top; this.top += (n + 31) & ~15;
        while (this.top > this.buf.byteLength) this.move();
        this.blocks.set(p, { n, kind, live: true });
        new Uint8Array(this.buf, p, n).fill(kind === 'buffer' ? 0 : 0xab);
        return p;
    }
    release(p, n, kind) {
        if ((n >>> 0) === 0 && p === 1) return;
        const b = this.blocks.get(p);
        if (!b || b.kind !== kind) return this.bad(`released something that is not a ${kind}`);
        if (!b.live) return this.bad(`${kind} released twice`);
        if (b.n !== n >>> 0) return this.bad(`${kind} released with the wrong size`);
        b.live = false; new Uint8Array(this.buf, p, b.n).fill(0xdd);
    }
    /// [p, p+n) must lie in one live block
    at(p, n, what) {
        n >>>= 0;
        if (n === 0) return new Uint8Array(0);
        for (const [q, b] of this.blocks) if (p >= q && p < q + b.n) {
            if (!b.live) { this.bad(`${what} is released memory`); return null; }
            if (p + n > q + b.n) { this.bad(`${what} is too short`); return null; }
            return new Uint8Array(this.buf, p, n);
        }
        this.bad(`${what} is not a buffer`); return null;
    }
    outcome(op, d) { const o = this.decide(op, d); if (o === 'throw') throw new Error('unreachable'); return o; }
    $create_image_buffer(n) { return this.alloc(n, 'buffer'); }
    $free_image_buffer(n, p) { this.release(p, n, 'buffer'); }
    $create_image_weights(w, h, p) {
        const b = this.at(p, 3 * w * h, 'the image'); if (!b) return 0;
        const bytes = Uint8Array.from(b);
        this.log.push(['weights', w, h, key(bytes)]);
        this.outcome('weights', { w, h, bytes });
        const id = this.nextWeights; this.nextWeights += 16;
        this.weights.set(id, { w, h, bytes, live: true });
        return id;
    }
    $free_image_weights(id) { const x = this.weights.get(id); if (!x) return this.bad('released weights that do not exist'); if (!x.live) return this.bad('weights released twice'); x.live = false; }
    $compute_palette(w, h, p, min, max, bound, out) {
        const b = this.at(p, 3 * w * h, 'the image'); if (!b) return 0;
        const bytes = Uint8Array.from(b);
        this.log.push(['palette', w, h, key(bytes), min, max, bound]);
        this.outcome('palette', { w, h, bytes });
        const cols = this.paletteOf(bytes, min, max, bound);
        if (p + 3 * w * h > out && out >= p) this.bad('the palette size goes into the image');
        const o = this.at(out, 1, 'the place for the palette size'); if (!o) return 0;
        o[0] = cols.length;
        if (!cols.length) return 0; // refused
        const q = this.alloc(3 * cols.length, 'palette');
        new Uint8Array(this.buf, q, 3 * cols.length).set(cols.flat());
        return q;
    }
    $free_computed_palette(p, n) { if (p !== 0) this.release(p, 3 * n, 'palette'); }
    $create_decomposed_image(wp, n, pp) {
        const x = this.weights.get(wp);
        if (!x) { this.bad('decomposed with weights that do not exist'); return 0; }
        if (!x.live) { this.bad('decomposed with released weights'); return 0; }
        const p = this.at(pp, 3 * n, 'the palette'); if (!p) return 0;
        const pal = Uint8Array.from(p);
        this.log.push(['decompose', key(x.bytes), key(pal)]);
        if (this.outcome('decompose', { pal, w: x }) === 'null') return 0;
        const id = this.nextImage; this.nextImage += 16;
        this.images.set(id, { w: x.w, h: x.h, bytes: x.bytes, pal, n, live: true });
        return id;
    }
    image(id, what) { const x = this.images.get(id); if (!x) { this.bad(`${what} a decomposed image that does not exist`); return null; } if (!x.live) { this.bad(`${what} a released decomposed image`); return null; } return x; }
    $free_decomposed_image(id) { const x = this.images.get(id); if (!x) return this.bad('released a decomposed image that does not exist'); if (!x.live) return this.bad('decomposed image released twice'); x.live = false; }
    $get_decomposed_image_width(id) { return this.image(id, 'read')?.w ?? 0; }
    $get_decomposed_image_height(id) { return this.image(id, 'read')?.h ?? 0; }
    $get_decomposed_image_num_channels(id) { return this.image(id, 'read')?.n ?? 0; }
    $reconstruct_image(id, pp, out) {
        const x = this.image(id, 'recoloured'); if (!x) return 0;
        const p = this.at(pp, 3 * x.n, 'the palette'), o = this.at(out, 3 * x.w * x.h, 'the output'); if (!p || !o) return 0;
        const rec = Uint8Array.from(p);
        this.log.push(['recolour', key(x.pal), key(rec)]);
        if (this.outcome('reconstruct', { x, rec }) === 'null') return 0;
        for (let i = 0; i < o.length; i++) o[i] = recolored(x.bytes, x.pal, rec, i);
        return 1;
    }
    $grayscale_image_channel(id, c, out) {
        const x = this.image(id, 'took a channel of'); if (!x) return 0;
        const o = this.at(out, x.w * x.h, 'the output'); if (!o) return 0;
        if (this.outcome('grayscale', { x, c }) === 'null' || !(c >>> 0 < x.n)) return 0;
        for (let i = 0; i < o.length; i++) o[i] = channel(x.bytes, x.pal, c, i);
        return 1;
    }
    live() { return { buffers: [...this.blocks.values()].filter((b) => b.live).length, weights: [...this.weights.values()].filter((b) => b.live).length, images: [...this.images.values()].filter((b) => b.live).length }; }
}
