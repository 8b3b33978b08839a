"use strict";
// harness.js REPO OUTDIR < cases > results
// Bundles the user interface as it is in REPO (the TypeScript sources and the
// compiled scripts) and runs cases against it, each in a fresh page.
const fs = require("fs"), path = require("path");
const NODE = "/opt/veriftools/node/node_modules/";
const { Document, Element, Node, Text, escape } = require("./dom.js");
const [repo, out] = process.argv.slice(2);
const esbuild = require(NODE + "esbuild");

const BUNDLES = {};
for (const [name, dir, ext] of [["src", "ngineer_js/src", ".ts"], ["target", "ngineer_js/target", ".js"]]) {
    const at = m => JSON.stringify(path.join(repo, dir, m + ext));
    for (const [kind, text] of [
        ["tags", `export * from ${at("tagbuilder")};`],
        ["app", `import ${at("index")}; export * as tags from ${at("tagbuilder")}; export * as common from ${at("common")};
                 export * as menu from ${at("leftRibbonMenu")}; export * as panels from ${at("panelManager")}; export * as debug from ${at("debugRibbon")};`]]) {
        const entry = path.join(out, `${kind}-${name}.js`);
        fs.writeFileSync(entry, text);
        const r = esbuild.buildSync({ entryPoints: [entry], bundle: true, write: false, format: "cjs", platform: "browser", logLevel: "silent", treeShaking: false });
        BUNDLES[kind + "-" + name] = r.outputFiles[0].text;
    }
}
const quiet = { log() { }, info() { }, warn() { }, error() { }, debug() { } };
function load(kind, page) {
    const document = new Document(page), module = { exports: {} };
    const window = { document, console: quiet, HTMLElement: Element, Element, Node, Text, CSS: { escape } };
    const globals = { module, exports: module.exports, window, globalThis: window, self: window, ...window };
    new Function(...Object.keys(globals), BUNDLES[kind])(...Object.values(globals));
    return { document, api: module.exports };
}
function attempt(f) {
    try { return ["ok", f()]; } catch (e) { return ["error", String((e && e.message) || e)]; }
}

const TYPES = ["click", "mouseover", "mouseenter", "mouseleave", "mouseup", "mousedown"];
function tags(c) {
    const scratch = load("tags-" + c.tree, "").api;
    const names = {};          // symbolic id -> id
    for (let i = 0; i < 3; i++) names["p" + i] = scratch.generateUniqueElementId();
    const { document, api } = load("tags-" + c.tree, c.page);
    const real = id => names[id] ?? c.names[id] ?? id;
    const used = new Set();
    const handles = [], builders = [], results = [];
    let fired = [];
    const look = () => {
        const rows = [];
        const walk = (e, depth) => {
            for (const x of e.children) {
                const cbs = {};
                for (const t of TYPES) { fired = []; x.fire(t, { type: t, target: x }); if (fired.length) cbs["on" + t] = fired.join(); }
                const own = x.childNodes.filter(n => n.nodeType === 3).map(n => n.data).join("");
                const text = own === "" ? "" : x.childNodes[0].nodeType === 3 && x.childNodes.slice(1).every(n => n.nodeType !== 3) ? own : "misplaced:" + own;
                rows.push([depth, x.localName, x.id, x.className, text, cbs]);
                walk(x, depth + 1);
            }
        };
        walk(document.body, 1);
        return rows;
    };
    for (const s of c.ops) {
        let r;
        if (s.op === "register") r = attempt(() => { handles.push(api.registerElementId(real(s.id))); used.add(real(s.id)); });
        else if (s.op === "generate") r = attempt(() => { const g = api.generateUniqueElementId(); const clash = used.has(g); used.add(g); names[s.id] = g; return clash || typeof g !== "string" || !g ? "known" : "fresh"; });
        else if (s.op === "drop") r = attempt(() => String(api.dropTagFromApplication(real(s.id))));
        else if (s.op === "get") r = attempt(() => { const e = handles[s.h - 1].getter(); return e && e === document.getElementById(e.id) ? e.id : "another element"; });
        else if (s.op === "remove") { r = attempt(() => { document.getElementById(real(s.id)).remove(); return ""; }); }
        else if (s.op === "build") r = attempt(() => {
            const b = s.from ? builders[s.from - 1] : new api.TagBuilder(s.kind);
            if (!s.from) builders.push(b);
            const steps = [() => b.setTagId(real(s.id))];
            if (s.cls || s.blank) steps.push(() => b.setTagClass(c.names[s.cls] ?? s.cls));
            if (s.text || s.blank) steps.push(() => b.setTagContent(s.text));
            for (const [e, l] of s.sets) steps.push(() => b.setTagCallback(e, () => fired.push(l)));
            for (const k of s.order) if (steps[k]) steps[k]();      // setters in any order
            for (const [k, f] of steps.entries()) if (!s.order.includes(k)) f();
            const parent = handles[s.h - 1];
            handles.push(s.append ? b.buildInto(parent, true) : s.blank ? b.buildInto(parent) : b.buildInto(parent, false));
            used.add(real(s.id));
        });
        results.push({ r: [r[0], r[1] ?? ""], page: look(), ids: s.id ? real(s.id) : null });
    }
    return { results, names };
}

function app(c) {
    const html = fs.readFileSync(path.join(repo, "index.html"), "utf8");
    const body = /<body[^>]*>([\s\S]*)<\/body>/i.exec(html)[1];
    const { document, api } = load("app-" + c.tree, body);
    const results = [];
    const el = id => document.getElementById(id);
    // what a press of the mouse button sends, as long as the element is there
    const press = x => { for (const t of ["mouseover", "mouseenter", "mousedown", "mouseup", "click"]) if (x.isConnected) x.dispatchEvent({ type: t, bubbles: t !== "mouseenter" }); };
    for (const s of c.ops) {
        const r = attempt(() => {
            if (s.op === "file") api.menu.createLeftRibbonMenuFileItem(s.name);
            else if (s.op === "open") press(el("left-ribbon").children[s.i - 1]);
            else if (s.op === "close" || s.op === "focus") {
                const tab = el("proj-tabs-bar").children[s.i - 1], parts = tab.children;
                press(s.op === "close" ? parts[parts.length - 1] : s.at ? tab : parts[0]);
            }
            else if (s.op === "panel") press(el(s.name + "-tab"));
            else if (s.op === "say") api.debug.DebugRibbon[s.kind](s.name);
            return "";
        });
        results.push({
            r: [r[0], r[1] ?? ""],
            files: el("left-ribbon").children.map(x => [x.textContent, x.className]),
            left: el("left-ribbon").textContent.trim(),
            tabs: el("proj-tabs-bar").children.map(x => [x.className, ...x.children.map(y => y.textContent), ...x.children.map(y => y.className)]),
            rest: ["file-menu-ribbon", "left-ribbon-tabs", "proj-pane"].map(i => el(i).textContent.replace(/\s+/g, " ").trim()),
            colors: ["files-tab", "model-tab"].map(i => el(i).style.backgroundColor ?? ""),
            ribbon: [el("debug-ribbon").textContent, el("debug-ribbon").style.color ?? ""],
        });
    }
    return { results };
}

const lines = fs.readFileSync(0, "utf8").split("\n").filter(l => l);
const all = [];
for (const l of lines) {
    const c = JSON.parse(l);
    let r;
    try { r = c.kind === "tags" ? tags(c) : app(c); } catch (e) { r = { crash: String((e && e.stack) || e) }; }
    all.push("R " + JSON.stringify(r));
}
process.stdout.write(all.join("\n") + "\n");
