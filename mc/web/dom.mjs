// As much of a page as index.js needs, built from the real index.html.
import fs from 'node:fs';
import { WEB } from './load.mjs';

const VOID = new Set(['br', 'img', 'input', 'meta', 'link', 'hr']);
class El {
    constructor(doc, tag) { Object.assign(this, { doc, tagName: tag.toUpperCase(), attrs: {}, kids: [], parentNode: null, style: {}, disabled: false, listeners: {}, _value: '', _src: '', files: [], hidden: false, textContent: '' });
        const cls = new Set(); this.classList = { add: (...c) => c.forEach((x) => cls.add(x)), remove: (...c) => c.forEach((x) => cls.delete(x)), contains: (x) => cls.has(x), toggle: (x, f) => { const on = f ?? !cls.has(x); on ? cls.add(x) : cls.delete(x); return on; } }; }
    get parentElement() { return this.parentNode; }
    get id() { return this.attrs.id ?? ''; } set id(v) { this.attrs.id = v; }
    get name() { return this.attrs.name ?? ''; } set name(v) { this.attrs.name = v; }
    get type() { return this.attrs.type ?? ''; }
    getAttribute(n) { return this.attrs[n] ?? null; } setAttribute(n, v) { this.attrs[n] = String(v); if (n === 'disabled') this.disabled = true; if (n === 'value') this.value = v; } removeAttribute(n) { delete this.attrs[n]; if (n === 'disabled') this.disabled = false; }
    get children() {
        const a = this.kids.slice();
        a.item = (i) => a[i] ?? null; a.namedItem = (n) => this.kids.find((k) => k.attrs.id === n) ?? this.kids.find((k) => k.attrs.name === n) ?? null;
        return new Proxy(a, { get: (t, p) => (typeof p === 'string' && !(p in t) ? t.namedItem(p) ?? undefined : t[p]) });
    }
    get childElementCount() { return this.kids.length; }
    get firstElementChild() { return this.kids[0] ?? null; } get lastElementChild() { return this.kids.at(-1) ?? null; }
    get nextElementSibling() { const k = this.parentNode?.kids; return k?.[k.indexOf(this) + 1] ?? null; }
    get previousElementSibling() { const k = this.parentNode?.kids; return k?.[k.indexOf(this) - 1] ?? null; }
    remove() { const k = this.parentNode?.kids; if (k) { k.splice(k.indexOf(this), 1); this.parentNode = null; } }
    appendChild(c) { c.remove(); c.parentNode = this; this.kids.push(c); return c; }
    get firstChild() { return this.firstElementChild; } get lastChild() { return this.lastElementChild; } get childNodes() { return this.children; }
    insertBefore(c, r) { c.remove(); const k = r ? this.kids.indexOf(r) : this.kids.length; if (k < 0) throw new Error('NotFoundError'); c.parentNode = this; this.kids.splice(k, 0, c); return c; }
    prepend(...c) { c.reverse().forEach((x) => this.insertBefore(x, this.kids[0])); }
    hasAttribute(n) { return n in this.attrs; } toggleAttribute(n, f) { const on = f ?? !(n in this.attrs); on ? this.setAttribute(n, '') : this.removeAttribute(n); return on; }
    closest(s) { let e = this; while (e && e.tagName !== 'ROOT') { if (e.matches(s)) return e; e = e.parentNode; } return null; }
    contains(e) { while (e) { if (e === this) return true; e = e.parentNode; } return false; }
    get dataset() { return this._dataset ??= {}; }
    append(...c) { c.forEach((x) => this.appendChild(x)); }
    removeChild(c) { if (c.parentNode !== this) throw new Error('NotFoundError'); c.remove(); return c; }
    replaceChildren(...c) { this.kids.slice().forEach((x) => x.remove()); this.append(...c); }
    cloneNode(deep) { const e = new El(this.doc, this.tagName); e.attrs = { ...this.attrs }; e._value = this._value; e._src = this._src; e.style = { ...this.style }; e.disabled = this.disabled; if (deep) this.kids.forEach((k) => e.appendChild(k.cloneNode(true))); return e; }
    get value() { return this._value; }
    set value(v) { v = String(v); this._value = this.attrs.type === 'color' ? (/^#[0-9a-fA-F]{6}$/.test(v) ? v.toLowerCase() : '#000000') : v; }
    get valueAsNumber() { return this._value.trim() === '' ? NaN : Number(this._value); }
    get src() { return this._src; }
    set src(v) { this._src = String(v); this.doc.onsrc?.(this); }
    get width() { return this._image?.w ?? 0; } get height() { return this._image?.h ?? 0; }
    get naturalWidth() { return this.width; } get naturalHeight() { return this.height; } get complete() { return !!this._image; }
    decode() { return this._image ? Promise.resolve() : Promise.reject(new Error('EncodingError')); }
    addEventListener(t, f, o) { const g = o?.once ? (ev) => { this.removeEventListener(t, g); return f.call(this, ev); } : f; if (!(this.listeners[t] ??= []).includes(g)) this.listeners[t].push(g); }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] ?? []).filter((x) => x !== f); }
    fire(type) {
        const ev = { type, target: this, currentTarget: this, preventDefault() {}, stopPropagation() {} };
        const all = [...(typeof this['on' + type] === 'function' ? [this['on' + type]] : []), ...(this.listeners[type] ?? [])];
        // what a handler throws goes to the console of a browser
        for (const f of all) { try { const r = f.call(this, ev); if (r?.catch) r.catch(() => {}); } catch (e) { this.doc.thrown.push(String(e?.stack ?? e)); } }
    }
    matches(s) { const m = /^([a-zA-Z]*)(#[\w-]+)?(\[name=["']?([\w-]+)["']?\])?$/.exec(s.trim()); if (!m) throw new Error('selector ' + s); return (!m[1] || m[1].toUpperCase() === this.tagName) && (!m[2] || '#' + this.id === m[2]) && (!m[4] || m[4] === this.name); }
    *all() { for (const k of this.kids) { yield k; yield* k.all(); } }
    querySelector(s) { for (const e of this.all()) if (e.matches(s)) return e; return null; }
    querySelectorAll(s) { return [...this.all()].filter((e) => e.matches(s)); }
}
let html;
export class Doc {
    constructor() {
        html ??= fs.readFileSync(`${WEB}/html/index.html`, 'utf8');
        this.thrown = [];
        this.root = new El(this, 'root');
        let at = this.root;
        for (const m of html.matchAll(/<!--[\s\S]*?-->|<(\/?)([a-zA-Z][\w-]*)((?:\s+[\w-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]*))?)*)\s*\/?>/g)) {
            if (!m[2]) continue;
            const tag = m[2].toLowerCase();
            if (m[1]) { if (VOID.has(tag)) continue; let e = at; while (e && e.tagName !== tag.toUpperCase()) e = e.parentNode; if (e?.parentNode) at = e.parentNode; continue; }
            const e = new El(this, tag);
            for (const a of m[3].matchAll(/([\w-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?/g)) e.attrs[a[1]] = a[2] ?? a[3] ?? a[4] ?? '';
            if ('disabled' in e.attrs) e.disabled = true;
            if (tag === 'input') e.value = e.attrs.value ?? '';
            if (e.attrs.style) for (const d of e.attrs.style.split(';')) { const [k, v] = d.split(':'); if (v) e.style[k.trim()] = v.trim(); }
            at.appendChild(e);
            if (!VOID.has(tag)) at = e;
        }
    }
    getElementsByName(n) { return [...this.root.all()].filter((e) => e.name === n); } getElementsByTagName(t) { return [...this.root.all()].filter((e) => e.tagName === t.toUpperCase()); }
    getElementById(id) { for (const e of this.root.all()) if (e.id === id) return e; return null; }
    querySelector(s) { return this.root.querySelector(s); }
    querySelectorAll(s) { return this.root.querySelectorAll(s); }
    createElement(t) { return new El(this, t); }
    get body() { return this.root.querySelector('body'); }
}
