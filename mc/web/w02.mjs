// W02: all interleavings of user actions with loading, answers and conversions.
import { settle } from './load.mjs';
import { recolored, channel } from './native.mjs';
import { Page, FILES, rgb, hex, unhex } from './page.mjs';

const key = (a) => Array.from(a).join();
const paletteOf = (bytes, min, max) => key(bytes) === key(rgb(FILES[4][2])) ? [] : Array.from({ length: min - 2 + (key(bytes) === key(rgb(FILES[1][2])) ? 1 : 0) }, (_, k) => [(bytes[0] + k * 40 + 1) % 256, (bytes[1] + k * 90) % 256, (k * 3 + bytes[2]) % 256]);
const distinct = (pal) => { const s = new Set(); for (let i = 0; i < pal.length; i += 3) s.add(pal.slice(i, i + 3).join()); return s.size * 3 === pal.length; };
const decide = (op, d) => {
    if (op === 'weights' && key(d.bytes) === key(rgb(FILES[2][2]))) return 'throw';
    if (op === 'palette' && key(d.bytes) === key(rgb(FILES[3][2]))) return 'throw';
    if (op === 'decompose' && (!d.pal.length || !distinct(Array.from(d.pal)))) return 'null';
    return 'ok';
};
const A = {
    out: ['click', 'recompute-output-button'], pal: ['click', 'recompute-palette-button'],
    pick0: ['pick', 0], pick1: ['pick', 1], flat: ['pick', 2], nopal: ['pick', 3], many: ['pick', 4], junk: ['pick', 5], cancel: ['pick'],
    min5: ['field', 'min-palette-cnt', '5'], min4: ['field', 'min-palette-cnt', '4'],
    src: ['text', 0, 'src', '#0a6b6C'], dup: ['colour', 0, 'src', (p) => p.part(1, 'palette-src-color').value], dst: ['text', 1, 'dst', '#66ff00'], dstc: ['colour', 0, 'dst', '#c06060'],
    bad: ['text', 1, 'dst', '#66ff0'], badsrc: ['text', 0, 'src', '0a6b6cd'], open: ['open'], choose1: ['choose', 1],
};
const isJob = (n) => ['out', 'pal', 'pick0', 'pick1', 'flat', 'nopal', 'many', 'choose1'].includes(n);

/// One execution: `choice(options)` picks the next event; actions happen in order, at any time.
async function execute(scenario, choice, early) {
    const page = new Page({ paletteOf, decide });
    await page.start();
    let next = 0, n = 0; const trail = [];
    // the requests made and what the page looked like when the last change to it was made
    let lastPick = 0, lastJobAt = -1, lastEditAt = -1;
    for (;;) {
        const ev = page.events();
        const opts = ev.map((e) => e[0]);
        // unless early, the user waits for the page to have finished loading before acting at all
        const mayAct = next < scenario.length && (early || started(page));
        if (mayAct) opts.push('act');
        if (!opts.length) { if (next < scenario.length) { opts.push('act'); } else break; }
        if (++n > 600) throw new Error('runaway');
        const k = opts.length === 1 ? 0 : choice(opts);
        if (opts[k] === 'act') {
            const name = scenario[next++];
            const ok = page.act(A[name]);
            trail.push((ok ? '' : '-') + name);
            if (ok && ['pick', 'choose'].includes(A[name][0]) && A[name][1] !== undefined) lastPick = A[name][1];
            if (ok && isJob(name)) lastJobAt = n; else if (ok) lastEditAt = n;
        } else { trail.push(opts[k]); ev[k][1](); if (opts[k] === 'loaded') lastJobAt = n; }
        await settle();
    }
    return { page, trail, lastJobAt, lastEditAt, lastPick, steps: n };
}
const started = (page) => page.loadedOnce || (page.el('dst-img').src && !page.busy() && !page.answers.length && (page.loadedOnce = true));

/// What must be true when nothing more will happen.
function judge({ page, lastJobAt, lastEditAt, lastPick }, ctx) {
    const { native } = page;
    const bad = native.errors[0] ?? page.errors[0];
    if (bad) return ctx.fail(bad, [...native.errors, ...page.errors].join('; '));
    if (page.requests.size) return ctx.fail('the page waits for an answer forever', '');
    const live = native.live();
    if (live.buffers) return ctx.fail('a buffer of the library was not given back', String(live.buffers));
    if (live.weights > 1 || live.images > 1) return ctx.fail('objects of the library were forgotten', JSON.stringify(live));
    const src = page.el('src-img'), dst = page.el('dst-img');
    if (page.doc.getElementById('dst-spinner').style.visibility !== 'hidden' || page.el('recompute-output-button').disabled || page.el('recompute-palette-button').disabled || page.el('src-img-picker').disabled)
        return ctx.fail('the page stays busy for ever', '');
    const shown = [src, dst, ...page.divs().map((d) => d.children['palette-img'])].map((e) => e.src).filter((s) => s.length);
    for (const s of shown) if (!page.urls.get(s)?.live) return ctx.fail('an image is shown whose address was revoked', s);
    const liveUrls = [...page.urls].filter(([, x]) => x.live).map(([u]) => u);
    for (const u of liveUrls) if (!shown.includes(u)) return ctx.fail('an address was never revoked', u);
    // what is shown is what the fields say, if nothing was edited since, and the library could do it
    const file = src._image?.file;
    if (file !== (FILES[lastPick] && lastPick)) return ctx.fail('the image shown is not the last one picked', `${file} instead of ${lastPick}`);
    if (lastEditAt > lastJobAt || file === undefined || file === 2) return;
    const cols = (w) => page.divs().map((d) => unhex(d.children[`palette-${w}-color`].value));
    const pal = cols('src').flat(), rec = cols('dst').flat();
    if (!distinct(pal) || !page.divs().length) return;
    if (file === 3) return;
    const [w, h, data] = FILES[file], bytes = rgb(data);
    const same = (url, f, c3) => { const b = page.urls.get(url)?.blob; if (!b || b.w !== w || b.h !== h) return false; for (let i = 0; i < w * h; i++) for (let c = 0; c < 4; c++) if (b.data[4 * i + c] !== (c === 3 ? 255 : f(c3 ? 3 * i + c : i))) return false; return true; };
    if (!same(dst.src, (i) => recolored(bytes, pal, rec, i), true)) return ctx.fail('the image shown is not the one the page describes', `image ${file} palette ${cols('src').map(hex)} recoloured ${cols('dst').map(hex)}`);
    for (let k = 0; k < page.divs().length; k++) if (!same(page.part(k, 'palette-img').src, (i) => channel(bytes, pal, k, i), false)) return ctx.fail('a channel shown is not that of its colour', String(k));
    if (live.weights !== 1 || live.images !== 1) return ctx.fail('objects of the library are missing', JSON.stringify(live));
    ctx.outcome(`${file} ${pal} ${rec}`);
    page.judged = true;
}
/// Every schedule of a scenario, depth first.
async function explore(scenario, early, ctx) {
    let stack = [];
    do {
        const path = stack.map((s) => s[0]); let d = 0; const widths = stack.map((s) => s[1]);
        const r = await execute(scenario, (o) => { const k = d < path.length ? path[d] : 0; widths[d] = o.length; path[d] = k; d++; return k; }, early);
        if (d < stack.length) throw new Error('the page does not do the same thing twice');
        stack = path.slice(0, d).map((k, i) => [k, widths[i]]);
        ctx.trace(1); ctx.step(r.steps); ctx.state(d);
        judge(r, ctx);
        if (ctx.failed()) return r.trail;
        while (stack.length && stack.at(-1)[0] + 1 >= stack.at(-1)[1]) stack.pop();
        if (stack.length) stack.at(-1)[0]++;
    } while (stack.length);
    return null;
}
const words = (alpha, n) => lists(alpha, n).map((w) => w.flatMap((a) => (a === 'late1' ? ['open', 'choose1'] : [a])));
const lists = (alpha, n) => n === 0 ? [[]] : lists(alpha, n - 1).flatMap((w) => alpha.map((a) => [...w, a]));
export function spaces(thorough) {
    const mk = (name, list, early, what) => ({ name, n: list.length, what, desc: (i) => list[i].join(' '),
        async run(i, ctx) {
            ctx.nontrivial();
            const c2 = { ...ctx, failed: ctx.failed, fail: (k, d) => { c2.last = [k, d]; ctx.fail(k, d); } };
            const real = ctx.fail; let held = null;
            ctx.fail = (k, d) => { held ??= [k, d]; }; const was = ctx.failed; ctx.failed = () => held !== null || was();
            const trail = await explore(list[i], early, ctx);
            ctx.fail = real; ctx.failed = was;
            if (held) real(held[0], `${held[1]} after: ${(trail ?? []).join(' ')}`);
        } });
    // the file dialog may be open while the page goes on
    const all = [...Object.keys(A).filter((n) => n !== 'open' && n !== 'choose1'), 'late1'];
    const jobs = ['out', 'pal', 'pick1', 'src', 'late1'];
    return [
        mk('load2', words(all, 2).filter((w) => !w.includes('open')), true, 'every two actions, at any time from the moment the page opens'),
        mk('dialog', words(['late1'], 1), true, 'an image picked at any time in a file dialog that was opened at any earlier time'),
        mk('act2', words(all, 2), false, 'every two actions, at any time after the first image is shown'),
        mk('act3', words(thorough ? all : ['out', 'pal', 'pick1', 'src', 'flat', 'dup', 'min5'], 3), false, 'every three actions out of some, at any time after the first image is shown'),
        ...(thorough ? [mk('load3', words(jobs, 3), true, 'every three actions out of some, at any time from the moment the page opens')] : []),
    ];
}
export const about = ['in every schedule: no object of the library is used after release, released twice, used before it exists or forgotten; every buffer is given back; once nothing is pending the page is ready again, its image addresses are live and no other one is, and, if nothing was edited since, the images shown are those the fields describe', ['the library, the thread package and the browser are stand-ins; answers arrive in the order given, except that image conversions may finish in any order; a disabled control cannot be used']];
