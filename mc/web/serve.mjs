// serve.mjs spaces ID tier | serve.mjs run ID tier   (case numbers as "space index" or "desc space index" on stdin, a line of JSON per answer)
import readline from 'node:readline';
process.on('unhandledRejection', () => {});
const [what, id, tier] = process.argv.slice(2);
const mod = await import(`./${id.toLowerCase()}.mjs`);
const spaces = mod.spaces(tier === 'thorough');
if (what === 'spaces') {
    process.stdout.write([mod.about[0], mod.about[1].join('\t')].join('\n') + '\n' + spaces.map((s) => `${s.name}\t${s.n}\t${s.what}`).join('\n') + '\n');
    process.exit(0);
}
const hash = (s) => { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0; return h; };
for await (const line of readline.createInterface({ input: process.stdin })) {
    const f = line.split(' ');
    if (f[0] === 'desc') { process.stdout.write(spaces[+f[1]].desc(+f[2]).replace(/[\n\t]/g, ' ') + '\n'); continue; }
    const c = [0, 0, 0, 0, 0], out = new Set(); let fail = null;
    const ctx = { state: (n) => { c[0] += n; }, step: (n) => { c[1] += n; }, trace: (n) => { c[2] += n; }, skip: () => { c[3]++; }, nontrivial: () => { c[4]++; }, outcome: (s) => { if (out.size < 64) out.add(hash(s)); }, fail: (k, d) => { fail ??= [k, String(d)]; }, failed: () => fail !== null };
    try { await spaces[+f[0]].run(+f[1], ctx); } catch (e) { fail ??= ['the program threw where nothing may be thrown: ' + String(e?.message ?? e).slice(0, 80), String(e?.stack ?? e).slice(0, 600)]; }
    process.stdout.write([c.join(' '), [...out].join(' '), fail ? fail[0].replace(/[\n\t]/g, ' ') : '', fail ? fail[1].replace(/[\n\t]/g, ' ') : ''].join('\t') + '\n');
}
