"use strict";
// A small document: enough of the DOM for the user interface of Ngineer.

const VOID = new Set(["br", "hr", "img", "input", "link", "meta"]);
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = s => s.replace(/&(#x?[0-9a-fA-F]+|[a-z]+);/g, (m, e) =>
    e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : ENT[e] ?? m);
const escText = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
const escAttr = s => s.replace(/&/g, "&amp;").replace(/"/g, "&quot;");

class Node {
    constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
    get nextSibling() { const c = this.parentNode?.childNodes; return c ? c[c.indexOf(this) + 1] ?? null : null; }
    get previousSibling() { const c = this.parentNode?.childNodes; return c ? c[c.indexOf(this) - 1] ?? null : null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument.documentElement; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    hasChildNodes() { return this.childNodes.length > 0; }
    _in(n, before) {
        if (n instanceof Fragment) { for (const c of [...n.childNodes]) this._in(c, before); return n; }
        if (n.contains(this)) throw new Error("HierarchyRequestError");
        if (before && before.parentNode !== this) throw new Error("NotFoundError");
        if (before === n) return n;
        n.remove();
        const k = before ? this.childNodes.indexOf(before) : this.childNodes.length;
        this.childNodes.splice(k, 0, n);
        n.parentNode = this;
        return n;
    }
    appendChild(n) { return this._in(n, null); }
    insertBefore(n, b) { return this._in(n, b ?? null); }
    removeChild(n) {
        if (!(n instanceof Node)) throw new TypeError("parameter 1 is not of type 'Node'");
        if (n.parentNode !== this) throw new Error("NotFoundError");
        n.remove();
        return n;
    }
    replaceChild(n, old) { this._in(n, old); old.remove(); return old; }
    remove() { const p = this.parentNode; if (p) { p.childNodes.splice(p.childNodes.indexOf(this), 1); this.parentNode = null; } }
    _many(xs) { return xs.map(x => typeof x === "string" ? new Text(this.ownerDocument, x) : x); }
    append(...xs) { for (const x of this._many(xs)) this._in(x, null); }
    prepend(...xs) { const b = this.firstChild; for (const x of this._many(xs)) this._in(x, b); }
    before(...xs) { for (const x of this._many(xs)) this.parentNode._in(x, this); }
    after(...xs) { const b = this.nextSibling, p = this.parentNode; for (const x of this._many(xs)) p._in(x, b); }
    replaceWith(...xs) { const p = this.parentNode, b = this.nextSibling; this.remove(); for (const x of this._many(xs)) p._in(x, b); }
    replaceChildren(...xs) { for (const c of [...this.childNodes]) c.remove(); this.append(...xs); }
    get textContent() { return this.childNodes.map(c => c.textContent).join(""); }
    set textContent(v) { this.replaceChildren(...(v === "" || v == null ? [] : [String(v)])); }
    get children() { return Object.assign(this.childNodes.filter(c => c instanceof Element), { item(k) { return this[k] ?? null; }, namedItem(n) { return this.find(e => e.id === n) ?? null; } }); }
    get firstElementChild() { return this.children[0] ?? null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; }
    get childElementCount() { return this.children.length; }
    _walk(f) { for (const c of this.childNodes) { if (c instanceof Element) { if (f(c)) return c; const r = c._walk(f); if (r) return r; } } return null; }
    _all(f) { const out = []; this._walk(e => { if (f(e)) out.push(e); }); return out; }
    querySelector(s) { return this._walk(selector(s)); }
    querySelectorAll(s) { return this._all(selector(s)); }
    getElementsByTagName(t) { return this._all(e => t === "*" || e.localName === t.toLowerCase()); }
    getElementsByClassName(c) { return this._all(e => e.classList.contains(c)); }
}
class Text extends Node {
    constructor(doc, s) { super(doc); this.data = String(s); this.nodeType = 3; this.nodeName = "#text"; }
    get textContent() { return this.data; }
    set textContent(v) { this.data = String(v); }
    get nodeValue() { return this.data; }
    cloneNode() { return new Text(this.ownerDocument, this.data); }
    get outerHTML() { return escText(this.data); }
}
class Fragment extends Node {
    constructor(doc) { super(doc); this.nodeType = 11; }
    getElementById(id) { return this._walk(e => e.id === id); }
}
class Style {
    setProperty(n, v) { this[n.replace(/-([a-z])/g, (m, c) => c.toUpperCase())] = v; }
    getPropertyValue(n) { return this[n.replace(/-([a-z])/g, (m, c) => c.toUpperCase())] ?? ""; }
    removeProperty(n) { delete this[n.replace(/-([a-z])/g, (m, c) => c.toUpperCase())]; }
}
class Element extends Node {
    constructor(doc, name) {
        super(doc);
        this.nodeType = 1; this.localName = name.toLowerCase(); this.tagName = this.nodeName = name.toUpperCase();
        this._attrs = new Map(); this._listeners = []; this.style = new Style(); this.dataset = {};
        for (const e of ["click", "mouseover", "mouseenter", "mouseleave", "mouseup", "mousedown"]) this["on" + e] = null;
    }
    get id() { return this.getAttribute("id") ?? ""; }
    set id(v) { this.setAttribute("id", v); }
    get className() { return this.getAttribute("class") ?? ""; }
    set className(v) { this.setAttribute("class", v); }
    get classList() {
        const el = this, get = () => el.className.split(/\s+/).filter(x => x);
        return {
            contains: c => get().includes(c),
            add: (...cs) => { el.className = [...new Set([...get(), ...cs])].join(" "); },
            remove: (...cs) => { el.className = get().filter(x => !cs.includes(x)).join(" "); },
            toggle: c => { const h = get().includes(c); el.className = (h ? get().filter(x => x !== c) : [...get(), c]).join(" "); return !h; },
            get length() { return get().length; },
        };
    }
    getAttribute(n) { return this._attrs.has(n) ? this._attrs.get(n) : null; }
    setAttribute(n, v) { this._attrs.set(n.toLowerCase(), String(v)); }
    hasAttribute(n) { return this._attrs.has(n); }
    removeAttribute(n) { this._attrs.delete(n); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this.childNodes.map(c => c.outerHTML).join(""); }
    set innerHTML(s) { this.replaceChildren(); parse(this.ownerDocument, String(s ?? ""), this); }
    get outerHTML() {
        const a = [...this._attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join("");
        return VOID.has(this.localName) ? `<${this.localName}${a}>` : `<${this.localName}${a}>${this.innerHTML}</${this.localName}>`;
    }
    set outerHTML(s) { const f = new Fragment(this.ownerDocument); parse(this.ownerDocument, s, f); this.replaceWith(...f.childNodes); }
    insertAdjacentElement(where, n) {
        ({ beforebegin: () => this.before(n), afterbegin: () => this.prepend(n), beforeend: () => this.append(n), afterend: () => this.after(n) })[where.toLowerCase()]();
        return n;
    }
    insertAdjacentHTML(where, s) { const f = new Fragment(this.ownerDocument); parse(this.ownerDocument, String(s), f); this.insertAdjacentElement(where, f); }
    insertAdjacentText(where, s) { this.insertAdjacentElement(where, new Text(this.ownerDocument, s)); }
    cloneNode(deep) {
        const e = new Element(this.ownerDocument, this.localName);
        e._attrs = new Map(this._attrs);
        if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true));
        return e;
    }
    matches(s) { return selector(s)(this); }
    closest(s) { for (let e = this; e; e = e.parentElement) if (e.matches(s)) return e; return null; }
    addEventListener(t, f, o) { if (!this._listeners.some(l => l.t === t && l.f === f)) this._listeners.push({ t, f, once: !!(o && o.once) }); }
    removeEventListener(t, f) { this._listeners = this._listeners.filter(l => l.t !== t || l.f !== f); }
    // the handlers of this element alone
    fire(type, ev) {
        for (const l of [...this._listeners]) if (l.t === type) { if (l.once) this.removeEventListener(type, l.f); (l.f.handleEvent ?? l.f).call(this, ev); }
        const h = this["on" + type];
        if (typeof h === "function") h.call(this, ev);
    }
    dispatchEvent(ev) {
        ev.target = this;
        let stop = false;
        ev.stopPropagation = ev.stopImmediatePropagation = () => { stop = true; };
        ev.preventDefault = () => { };
        const path = [];
        for (let e = this; e; e = e.parentElement) path.push(e);
        for (const e of ev.bubbles === false ? [this] : path) { ev.currentTarget = e; e.fire(ev.type, ev); if (stop) break; }
        return true;
    }
    click() { this.dispatchEvent({ type: "click" }); }
    focus() { }
    blur() { }
    scrollIntoView() { }
}
// CSS.escape
const escape = s => [...String(s)].map((c, k, all) => /[0-9]/.test(c) && (k === 0 || (k === 1 && all[0] === "-")) ? "\\" + c.charCodeAt(0).toString(16) + " "
    : /[a-zA-Z0-9_-]/.test(c) || c > "\x7f" ? c : "\\" + c).join("");
const ESC = /\\([0-9a-fA-F]{1,6}) ?|\\(.)/g;
const unesc = s => s.replace(ESC, (m, h, c) => h ? String.fromCodePoint(parseInt(h, 16)) : c);
// groups of compound selectors joined by spaces or ">"
function selector(s) {
    const name = "(?:[a-zA-Z0-9_-]|[^\\x00-\\x7f]|\\\\[0-9a-fA-F]{1,6} ?|\\\\.)+";
    const token = new RegExp(`\\s*,\\s*|\\s*>\\s*|\\s+|\\*|[#.]?${name}|\\[\\s*(${name})\\s*(?:([$^*]?)=\\s*("(?:[^"\\\\]|\\\\.)*"|'(?:[^'\\\\]|\\\\.)*'|${name})\\s*)?\\]`, "y");
    const groups = [[{ tests: [], rel: "" }]];
    s = s.trim();
    while (token.lastIndex < s.length) {
        const m = token.exec(s);
        if (!m) throw new Error("selector not supported: " + s);
        const t = m[0], g = groups[groups.length - 1];
        if (/^\s*,/.test(t)) groups.push([{ tests: [], rel: "" }]);
        else if (/^\s*>/.test(t)) g.push({ tests: [], rel: ">" });
        else if (/^\s/.test(t)) g.push({ tests: [], rel: " " });
        else if (t[0] === "[") {
            const v = m[3] === undefined ? undefined : unesc(/^["']/.test(m[3]) ? m[3].slice(1, -1) : m[3]), n = unesc(m[1]);
            g[g.length - 1].tests.push(e => { const a = e.getAttribute(n); return a !== null && (v === undefined || (m[2] === "^" ? a.startsWith(v) : m[2] === "$" ? a.endsWith(v) : m[2] === "*" ? a.includes(v) : a === v)); });
        }
        else if (t[0] === "#") g[g.length - 1].tests.push(e => e.id === unesc(t.slice(1)));
        else if (t[0] === ".") g[g.length - 1].tests.push(e => e.classList.contains(unesc(t.slice(1))));
        else if (t !== "*") g[g.length - 1].tests.push(e => e.localName === t.toLowerCase());
    }
    const hits = (e, g, k) => {
        if (!e || !g[k].tests.every(f => f(e))) return false;
        if (k === 0) return true;
        if (g[k].rel === ">") return hits(e.parentElement, g, k - 1);
        for (let p = e.parentElement; p; p = p.parentElement) if (hits(p, g, k - 1)) return true;
        return false;
    };
    return e => groups.some(g => hits(e, g, g.length - 1));
}
function parse(doc, s, into) {
    const re = /<!--[\s\S]*?-->|<!doctype[^>]*>|<\/([a-z][a-z0-9]*)\s*>|<([a-z][a-z0-9]*)((?:[^>"']|"[^"]*"|'[^']*')*?)(\/?)>|[^<]+|</gi;
    let at = into, m;
    while ((m = re.exec(s))) {
        if (m[1]) {
            for (let e = at; e !== into; e = e.parentNode) if (e.localName === m[1].toLowerCase()) { at = e.parentNode; break; }
        } else if (m[2]) {
            const e = new Element(doc, m[2]);
            for (const a of m[3].matchAll(/([^\s=\/"'>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g))
                if (!e.hasAttribute(a[1].toLowerCase())) e.setAttribute(a[1], decode(a[2] ?? a[3] ?? a[4] ?? ""));
            at.appendChild(e);
            if (!VOID.has(e.localName)) at = e;
        } else if (!m[0].startsWith("<!")) {
            const t = decode(m[0]);
            if (at.lastChild instanceof Text) at.lastChild.data += t;
            else at.appendChild(new Text(doc, t));
        }
    }
}
class Document {
    constructor(body) {
        this.documentElement = new Element(this, "html");
        this.head = this.documentElement.appendChild(new Element(this, "head"));
        this.body = this.documentElement.appendChild(new Element(this, "body"));
        this.body.innerHTML = body;
    }
    getElementById(id) { return id === "" ? null : this.documentElement._walk(e => e.id === String(id)); }
    createElement(n) { return new Element(this, n); }
    createTextNode(s) { return new Text(this, s); }
    createDocumentFragment() { return new Fragment(this); }
    querySelector(s) { return this.documentElement.querySelector(s); }
    querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
    getElementsByClassName(s) { return this.documentElement.getElementsByClassName(s); }
    getElementsByTagName(s) { return this.documentElement.getElementsByTagName(s); }
    contains(n) { return this.documentElement.contains(n); }
    addEventListener() { }
    removeEventListener() { }
}
module.exports = { Document, Element, Node, Text, escape };
