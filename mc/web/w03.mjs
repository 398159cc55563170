// W03: colours on their way between palettes, pickers and texts.
import { settle } from './load.mjs';
import { Page, FILES, rgb, hex, unhex } from './page.mjs';

const PROBE = ['/', '0', '9', ':', '@', 'A', 'F', 'G', 'Z', '`', 'a', 'f', 'g', 'z', '+', '-', ' ', '_', 'x', ',', '.', '#', '5', '6', '7', 'é', '０'];
const valid = (t) => /^#[0-9A-Fa-f]{6}$/.test(t);
async function shown(colours) {
    const page = new Page({ paletteOf: typeof colours === 'function' ? colours : () => colours });
    await page.start();
    for (;;) { const e = page.events(); if (!e.length) break; e[0][1](); await settle(); }
    return page;
}
const settleAll = async (page) => { for (;;) { await settle(); const e = page.events(); if (!e.length) break; e[0][1](); } };
const rgbs = (l) => JSON.stringify(l);
/// the palettes the library was last given
const given = (page) => page.native.log.filter((l) => l[0] === 'decompose').at(-1)?.[2];
const recoloured = (page) => page.native.log.filter((l) => l[0] === 'recolour').at(-1)?.[2];
const FIELDS = ['src-color', 'src-color-txt', 'dst-color', 'dst-color-txt'];
const NINE = [[1, 2, 3], [250, 20, 30], [9, 99, 199], [77, 166, 5], [200, 210, 220], [31, 41, 59], [0, 255, 128], [255, 0, 17], [66, 13, 240]];

/// The page must show exactly these colours, and must have given them to the library.
function showsAll(page, cols, ctx) {
    ctx.state(1); ctx.step(cols.length * 4);
    const no = (k, d) => { ctx.fail(k, d); return false; };
    if (page.native.errors.length) return no(page.native.errors[0], '');
    if (page.divs().length !== cols.length) return no('the page does not show every palette colour', `${page.divs().length} entries for ${cols.length} colours`);
    for (let k = 0; k < cols.length; k++) for (const f of FIELDS)
        if (page.part(k, 'palette-' + f).value !== hex(cols[k])) return no('a palette colour is shown as another one', `${rgbs(cols[k])} as ${page.part(k, 'palette-' + f).value}`);
    if (given(page) !== cols.flat().join() || recoloured(page) !== cols.flat().join()) return no('the library was given other colours than shown', `${given(page)} and ${recoloured(page)} for ${cols}`);
    return true;
}
const levels = {
    name: 'levels', n: 256, what: 'every value of every component, from the library to the fields and back', desc: (i) => `value ${i}`,
    async run(i, ctx) {
        const cols = [[i, 255 - i, (i * 7 + 3) % 256], [(i * 5 + 1) % 256, i, 255 - i], [255 - i, (i * 3 + 2) % 256, i], [i, i, i]];
        const page = await shown(cols);
        ctx.trace(1); ctx.nontrivial();
        if (showsAll(page, cols, ctx)) ctx.outcome(hex(cols[0]));
    },
};
const SIZES = [4, 5, 9, 17];
const again = {
    name: 'again', n: SIZES.length ** 3 * 2, what: `every three palettes of ${SIZES} colours one after the other, by recomputing or by another image, every field edited in between`,
    desc: (i) => `${i % 2 ? 'recomputed' : 'another image'} sizes ${[0, 1, 2].map((k) => SIZES[Math.floor(i / 2 / 4 ** k) % 4])}`,
    async run(i, ctx) {
        const sizes = [0, 1, 2].map((k) => SIZES[Math.floor(i / 2 / 4 ** k) % 4]);
        let t = 0;
        const cols = () => Array.from({ length: sizes[t] }, (_, k) => [(k * 11 + t * 50 + 1) % 256, (k * 29 + t) % 256, (255 - k * 3 - t) % 256]);
        const page = await shown(cols);
        ctx.trace(1); ctx.nontrivial();
        for (;;) {
            if (!showsAll(page, cols(), ctx)) return;
            if (++t === 3) break;
            // edits: pickers of even entries, texts of odd ones
            page.divs().forEach((_, k) => { page.act([k % 2 ? 'text' : 'colour', k, 'src', hex([k, 200, 9])]); page.act([k % 2 ? 'colour' : 'text', k, 'dst', hex([k, 100, 8])]); });
            if (i % 2) page.act(['click', 'recompute-output-button']), await settleAll(page);
            page.act(i % 2 ? ['click', 'recompute-palette-button'] : ['pick', t % 2]);
            await settleAll(page);
        }
        ctx.outcome(sizes.join());
    },
};
const MINS = ['4', '5', '6', '17', '100', '254', '255'], MAXS = ['4', '9', '10', '11', '128', '255'], BOUNDS = ['0', '0.0', '0.5', '1', '2.25', '0.007843137254901961', '1e-3', '100'];
const fields = {
    name: 'fields', n: MINS.length * MAXS.length * BOUNDS.length * 2, what: 'every combination of smallest and largest palette size and error bound, changed before the first or for a further palette',
    desc: (i) => `min ${MINS[i % 7]} max ${MAXS[Math.floor(i / 7) % 6]} bound ${BOUNDS[Math.floor(i / 42) % 8]} ${i >= 336 ? 'further palette of the second image' : 'first palette'}`,
    async run(i, ctx) {
        const v = [MINS[i % 7], MAXS[Math.floor(i / 7) % 6], BOUNDS[Math.floor(i / 42) % 8]], later = i >= 336;
        const set = () => ['min-palette-cnt', 'max-palette-cnt', 'palette-err-limit'].forEach((f, k) => page.act(['field', f, v[k]]));
        const page = new Page({ paletteOf: () => [[1, 2, 3], [250, 20, 30], [9, 99, 199], [77, 166, 5]] });
        await page.start();
        if (!later) set();
        await settleAll(page);
        ctx.state(1); ctx.step(3); ctx.trace(1); ctx.nontrivial();
        let file = 0;
        if (later) {
            const first = page.native.log.find((l) => l[0] === 'palette');
            const d = ['min-palette-cnt', 'max-palette-cnt', 'palette-err-limit'].map((f) => +page.el(f).value);
            if (!first || d.some((x, k) => first[4 + k] !== x)) return ctx.fail('the first palette was not computed with the settings shown', rgbs(first ?? null));
            page.act(['pick', 1]); await settleAll(page); file = 1; set(); page.act(['click', 'recompute-palette-button']); await settleAll(page);
        }
        const last = page.native.log.filter((l) => l[0] === 'palette').at(-1), [w, h, d] = FILES[file];
        if (page.native.errors.length) return ctx.fail(page.native.errors[0], '');
        if (!last || last[4] !== +v[0] || last[5] !== +v[1] || last[6] !== +v[2]) return ctx.fail('a palette was computed with other settings than shown', `${rgbs(last)} for ${v}`);
        if (last[1] !== w || last[2] !== h || last[3] !== Array.from(rgb(d)).join()) return ctx.fail('the palette was computed for another image than shown', rgbs(last));
        ctx.outcome(v.join());
    },
};
/// texts typed one after the other into one field
function typed(name, what, groups) {
    return {
        name, what, n: groups.length * 6, desc: (i) => `${['src', 'dst'][i % 2]} field ${[0, 1, 8][Math.floor(i / 2) % 3]} of 9: ${groups[Math.floor(i / 6)][0]} and so on`,
        async run(i, ctx) {
            const which = ['src', 'dst'][i % 2], k = [0, 1, 8][Math.floor(i / 2) % 3];
            const page = await shown(NINE);
            const others = () => NINE.map((_, j) => j).flatMap((j) => ['src', 'dst'].filter((w) => j !== k || w !== which).flatMap((w) => [page.part(j, `palette-${w}-color`).value, page.part(j, `palette-${w}-color-txt`).value])).join();
            const before = others();
            let colour = page.part(k, `palette-${which}-color`).value;
            for (const t of groups[Math.floor(i / 6)]) {
                page.act(['text', k, which, t]);
                ctx.state(1); ctx.step(1);
                if (valid(t)) { ctx.nontrivial(); colour = t.toLowerCase(); }
                const got = page.part(k, `palette-${which}-color`).value;
                if (got !== colour) return ctx.fail(valid(t) ? 'a valid colour text was not taken' : 'something that is not a colour was taken', `${JSON.stringify(t)} gave ${got}`);
                if (page.part(k, `palette-${which}-color-txt`).value !== t) return ctx.fail('typing was overwritten', t);
                if (page.doc.thrown.length) return ctx.fail('typing made the page throw', page.doc.thrown[0]);
            }
            if (others() !== before) return ctx.fail('typing changed another field', '');
            // a text that is not a colour stays where it is, and changes nothing
            if (i % 4 < 2) { const c = colour; page.act(['text', k, which, '#12']); if (page.part(k, `palette-${which}-color`).value !== c) return ctx.fail('something that is not a colour was taken', '#12'); page.act(['click', 'recompute-output-button']); await settleAll(page);
                if (unhex(c).join() !== (which === 'src' ? given : recoloured)(page)?.split(',').slice(3 * k, 3 * k + 3).join()) return ctx.fail('the library was given other colours than shown', `${c} text #12`); }
            // the picker writes its text
            for (const c of ['#000000', '#6b6c6d', '#ffffff', colour]) {
                page.act(['colour', k, which, c]); ctx.step(1);
                if (page.part(k, `palette-${which}-color-txt`).value !== c) return ctx.fail('the text does not follow the picker', c);
            }
            if (others() !== before) return ctx.fail('picking changed another field', '');
            // and the library gets it
            page.act(['click', 'recompute-output-button']);
            await settleAll(page);
            ctx.trace(1);
            const want = (w) => NINE.map((_, j) => unhex(page.part(j, `palette-${w}-color`).value)).flat().join();
            if (given(page) !== want('src') || recoloured(page) !== want('dst')) return ctx.fail('the library was given other colours than shown', `${given(page)} and ${recoloured(page)}`);
            ctx.outcome(want(which));
        },
    };
}
const base = [...'30c9E1'];
const one = Array.from({ length: 7 }, (_, p) => Array.from({ length: 127 }, (_, c) => { const b = ['#', ...base]; b[p] = String.fromCharCode(c + 1); return b.join(''); }));
const pairs = (probe) => { const out = []; for (let p = 0; p < 7; p++) for (let q = p + 1; q < 7; q++) out.push(probe.flatMap((x) => probe.map((y) => { const b = ['#', ...base]; b[p] = x; b[q] = y; return b.join(''); }))); return out; };
const short = () => { let w = ['']; const out = [w]; for (let n = 0; n < 5; n++) { w = w.flatMap((x) => ['#', '0', '6', 'F', 'g'].map((c) => x + c)); out.push(w); } return out; };
const long = [['#0123456', '#01234567', '##012345', '012345', '0123456', '#012345 ', ' #012345', '#01234', '#6', '#666', '#666666', '#6666666', '#66666\u0130', '']];
export function spaces(thorough) {
    return [levels, again, fields, typed('onechar', 'a colour with any one character replaced by any ASCII character', one), typed('twochars', `a colour with any two characters replaced by any of ${PROBE.length}`, pairs(PROBE)), typed('short', 'every text of up to 5 characters out of 5', short()), typed('long', 'texts of other lengths', long)];
}
export const about = ['every colour the library computes, for the first or any later palette, is shown as its #rrggbb in all four fields of its entry and given back to the library unchanged; a text changes its picker exactly when it is # and six hexadecimal digits, to that colour; a picker changes its text; no other field changes', ['the browser is a stand-in: a colour input holds #rrggbb in lower case and turns anything else into black']];
