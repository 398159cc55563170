// W01: what the worker answers, and that it leaves no buffer behind, for request sequences x native outcomes x memory moves.
import { settle } from './load.mjs';
import { Native, recolored, channel } from './native.mjs';
import { WorkerHost } from './worker.mjs';

const rgba = (w, h, s) => Uint8ClampedArray.from({ length: 4 * w * h }, (_, i) => (i % 4 === 3 ? (s * 50 + i * 7) % 256 : (s * 31 + i * 13 + 5) % 256));
const rgb = (a) => Uint8Array.from(Array.from(a).filter((_, i) => i % 4 !== 3));
const IMAGES = [[2, 1, rgba(2, 1, 1)], [1, 3, rgba(1, 3, 2)], [3, 2, rgba(3, 2, 3)]];
const P4 = [[0, 1, 2], [250, 3, 4], [5, 251, 6], [7, 8, 252]], P5 = [...P4.slice(1), [9, 9, 9], [200, 201, 202]];
const R4 = [[10, 20, 30], [40, 50, 60], [70, 80, 90], [255, 254, 253]], R5 = [...R4, [1, 0, 1]];
// operation, what it needs, native outcome
const OPS = [
    { op: 'weights', img: 0 }, { op: 'weights', img: 1 }, { op: 'weights', img: 2, out: 'throw' },
    { op: 'palette', img: 0, n: 4 }, { op: 'palette', img: 2, n: 7 }, { op: 'palette', img: 1, n: 0 }, { op: 'palette', img: 0, n: 255 }, { op: 'palette', img: 1, out: 'throw' },
    { op: 'decompose', pal: P4 }, { op: 'decompose', pal: P5 }, { op: 'decompose', pal: P4, out: 'null' }, { op: 'decompose', pal: P5, out: 'throw' },
    { op: 'reconstruct' }, { op: 'reconstruct', out: 'throw' }, { op: 'reconstruct', out: 'null' }, { op: 'reconstruct', out: 'noblob' },
    { op: 'grayscale', c: 0 }, { op: 'grayscale', c: 3 }, { op: 'grayscale', c: 9 }, { op: 'grayscale', c: -1 }, { op: 'grayscale', c: 1, out: 'noblob' }, { op: 'grayscale', c: 1, out: 'null' }, { op: 'grayscale', c: 2, out: 'throw' },
    { op: 'freeWeights' }, { op: 'freeImage' }, { op: 'unknown' }, { op: 'malformed', of: 'createImageWeights' }, { op: 'malformed', of: 'freeDecomposedImage' }, { op: 'malformed' },
];
const sequences = (len, prefix) => {
    const out = [];
    const rec = (s, w, d) => {
        out.push(s);
        if (s.length - prefix.length === len) return;
        for (const o of OPS) {
            if (o.op === 'decompose' || o.op === 'freeWeights') { if (!w) continue; }
            if (['reconstruct', 'grayscale', 'freeImage'].includes(o.op) && !d) continue;
            rec([...s, o], w + (o.op === 'weights' && !o.out) - (o.op === 'freeWeights'), d + (o.op === 'decompose' && !o.out) - (o.op === 'freeImage'));
        }
    };
    rec(prefix, prefix.length ? 1 : 0, prefix.length ? 1 : 0);
    return out;
};
const palette = (bytes, n) => Array.from({ length: n }, (_, k) => [(bytes[0] + k * 17) % 256, (bytes[1] + k * 71) % 256, (3 * k + bytes[2]) % 256]);

/// Runs one sequence; `grow`: native calls at which memory moves; `mode` 0: one request at a time, 1: all at once, blobs in order, 2: all at once, blobs in reverse.
async function run(seq, grow, mode, ctx, fault = -1) {
    let current;
    const native = new Native({ decide: (op) => (current[0]?.op === op ? current[0].out ?? 'ok' : 'ok'), paletteOf: (b) => palette(b, current[0].n), grow, fault });
    native.noBlob = () => current[0]?.out === 'noblob';
    const host = new WorkerHost(native);
    await host.start();
    // the requests that reach the library, in order
    current = [];
    const orig = native.outcome.bind(native);
    const queue = seq.map((o) => o);
    native.outcome = (op, d) => { while (queue.length && queue[0].op !== op) queue.shift(); current = [queue[0]]; try { return orig(op, d); } finally { queue.shift(); } };
    native.paletteOf = (b, mn, mx, bd) => { if (mn !== 4 || mx !== 9 || bd !== 0.25) native.bad('palette settings arrived changed'); return palette(b, current[0].n); };
    const weights = [], images = [], want = [];
    let nw = 5000, ni = 9000;
    const requests = [];
    seq.forEach((o, id) => {
        let m, t = [], w;
        if (o.op === 'weights') { const [x, y, a] = IMAGES[o.img]; const c = a.slice(); m = { method: 'createImageWeights', args: [c, x, y] }; t = [c.buffer]; if (!o.out) { weights.push({ id: nw, img: o.img }); w = { pair: nw, img: o.img }; nw += 16; } }
        else if (o.op === 'palette') { const [x, y, a] = IMAGES[o.img]; const c = a.slice(); m = { method: 'computePalette', args: [c, x, y, 4, 9, 0.25] }; t = [c.buffer]; if (!o.out) w = { pair: palette(rgb(a), o.n), img: o.img }; }
        else if (o.op === 'decompose') { const x = weights.at(-1); m = { method: 'createDecomposedImage', args: [x.id, o.pal] }; if (!o.out) { images.push({ id: ni, img: x.img, pal: o.pal }); w = { value: ni }; ni += 16; } else if (o.out === 'null') w = { none: true }; }
        else if (o.op === 'reconstruct') { const x = images.at(-1); const r = x.pal.length === 4 ? R4 : R5; m = { method: 'reconstructImage', args: [x.id, r] }; if (!o.out) w = { blob: x, f: (i) => recolored(rgb(IMAGES[x.img][2]), x.pal.flat(), r.flat(), i), step: 3 }; }
        else if (o.op === 'grayscale') { const x = images.at(-1); m = { method: 'grayscaleImageChannel', args: [x.id, o.c] }; if (!o.out && o.c >= 0 && o.c < x.pal.length) w = { blob: x, f: (i) => channel(rgb(IMAGES[x.img][2]), x.pal.flat(), o.c, i), step: 1 }; }
        else if (o.op === 'malformed') m = o.of ? { method: o.of } : undefined;
        else if (o.op === 'freeWeights') { m = { method: 'freeImageWeights', args: [weights.pop().id] }; w = { done: true }; }
        else if (o.op === 'freeImage') { m = { method: 'freeDecomposedImage', args: [images.pop().id] }; w = { done: true }; }
        else m = { method: 'noSuchMethod', args: [] };
        want.push(w); requests.push([id + 1, m, t]);
    });
    const flush = async () => { await settle(); while (host.blobs.length) { (mode === 2 ? host.blobs.pop() : host.blobs.shift())(); await settle(); } };
    for (const r of requests) { host.post(...r); if (mode === 0) { await flush(); if (fault < 0 && native.live().buffers) { ctx.fail('a buffer of the library was not given back', seq[r[0] - 1].op); return; } } }
    await flush();
    ctx.state(seq.length); ctx.step(native.calls); ctx.trace(1);
    if (native.errors.length) { ctx.fail(native.errors[0], native.errors.join('; ')); return native; }
    if (fault >= 0) {
        // the call made for the last request failed: only that request may, and it must be answered
        for (let k = 0; k < seq.length; k++) {
            const n = host.answered.get(k + 1) ?? 0;
            if (n !== 1) { ctx.fail(n ? 'a request was answered twice' : 'a request was never answered', `${seq[k].op}, ${native.faulted} failed`); return native; }
        }
        if (native.faulted && host.answers.find((a) => a[0] === seq.length)[1].error === undefined) ctx.fail('a failed request was answered as if it had succeeded', `${seq.at(-1).op}, ${native.faulted} failed`);
        return native;
    }
    if (native.live().buffers) { ctx.fail('a buffer of the library was not given back', 'in the end'); return native; }
    if (native.live().weights !== weights.length || native.live().images !== images.length) { ctx.fail('objects were created or released without being asked for', ''); return native; }
    const got = new Map(host.answers);
    for (let k = 0; k < seq.length; k++) {
        const n = host.answered.get(k + 1) ?? 0, w = want[k], a = got.get(k + 1);
        if (n !== 1) { ctx.fail(n ? 'a request was answered twice' : 'a request was never answered', seq[k].op + ' ' + (seq[k].out ?? '')); return native; }
        if (!w) { if (a.error === undefined) { ctx.fail('a failed request was answered as if it had succeeded', seq[k].op); return native; } continue; }
        if (w.none) { if (a.error === undefined && a.ok) { ctx.fail('a refused palette was answered with an object', ''); return native; } continue; }
        if (a.error !== undefined) { ctx.fail('a request that succeeded was answered with an error', seq[k].op + ': ' + a.error); return native; }
        const v = a.ok;
        let ok = true;
        if ('pair' in w) { ok = Array.isArray(v) && JSON.stringify(v[0]) === JSON.stringify(w.pair) && v[1] && Buffer.compare(Buffer.from(v[1]), Buffer.from(IMAGES[w.img][2])) === 0; }
        else if ('value' in w) ok = v === w.value;
        else if (w.blob) {
            const [x, y] = IMAGES[w.blob.img];
            ok = v && v.blob && v.w === x && v.h === y && v.canvas[0] === x && v.canvas[1] === y && v.data.length === 4 * x * y;
            for (let i = 0; ok && i < x * y; i++) for (let c = 0; c < 4; c++) ok &&= v.data[4 * i + c] === (c === 3 ? 255 : w.f(w.step === 3 ? 3 * i + c : i));
        }
        if (!ok) { ctx.fail('a request got the wrong answer', `${seq[k].op}: ${JSON.stringify(v).slice(0, 200)}`); return native; }
        ctx.outcome(JSON.stringify(v));
    }
    // what reached the library is what was sent
    const sent = seq.filter((o) => ['weights', 'palette'].includes(o.op));
    const logged = native.log.filter((l) => l[0] === 'weights' || l[0] === 'palette');
    for (let k = 0; k < sent.length; k++) { const [x, y, a] = IMAGES[sent[k].img]; if (!logged[k] || logged[k][1] !== x || logged[k][2] !== y || logged[k][3] !== Array.from(rgb(a)).join()) { ctx.fail('the image reached the library changed', ''); return native; } }
    return native;
}
/// How many calls all but the last request make.
async function before(seq, ctx) { const quiet = { ...ctx, fail() {}, state() {}, step() {}, trace() {}, outcome() {} }; return seq.length > 1 ? (await run(seq.slice(0, -1), new Set(), 0, quiet))?.calls ?? 0 : 0; }
const show = (s) => s.map((o) => o.op + (o.img !== undefined ? o.img : '') + (o.pal ? o.pal.length : '') + (o.c ?? '') + (o.of ?? '') + (o.out ? '!' + o.out : '')).join(' ');
export function spaces(thorough) {
    const start = [OPS[0], OPS.find((o) => o.op === 'decompose')];
    const mk = (name, seqs, depth, what) => ({ name, n: seqs.length * 3, what, desc: (i) => show(seqs[Math.floor(i / 3)]) + [' one by one', ' at once', ' at once, conversions reversed'][i % 3],
        async run(i, ctx) {
            const seq = seqs[Math.floor(i / 3)], mode = i % 3;
            ctx.nontrivial();
            const n = await run(seq, new Set(), mode, ctx);
            if (!n || ctx.failed()) return;
            // then with memory moving at each native call, and at each pair of calls
            for (let a = 0; a < n.calls && !ctx.failed(); a++) {
                await run(seq, new Set([a]), mode, ctx);
                if (depth > 1 && mode === 0 && a >= (await before(seq, ctx))) await run(seq, new Set(), mode, ctx, a);
                if (depth > 1) for (let b = a + 1; b < n.calls && !ctx.failed(); b++) await run(seq, new Set([a, b]), mode, ctx);
            }
        } });
    return [
        mk('fresh', sequences(thorough ? 3 : 2, []), 1, 'all valid sequences of requests from nothing, every native outcome, memory moving at any one call'),
        mk('loaded', sequences(thorough ? 3 : 2, start), thorough ? 1 : 1, 'the same after weights and a decomposition'),
        mk('pairs', sequences(1, start), 2, 'one more request, memory moving at any two calls, and any one library call failing'),
    ];
}
export const about = ['every request is answered exactly once with exactly the data the library gave, or with an error when it failed; the library gets exactly the pixels and colours sent; every buffer is given back with its size, whatever fails, and however memory moves', ['the library is a stand-in that checks its contract; the thread package is a stand-in with its documented interface']];
