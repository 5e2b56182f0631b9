// Runs the scripts of display_tsv.html against a small stand-in for d3 (version 3)
// and reports what was drawn.   usage: node chart_driver.js HTML JOBS OUT
'use strict';
const fs = require('fs'), vm = require('vm');
const html = fs.readFileSync(process.argv[2], 'utf8');
const jobs = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));
const scripts = [...html.matchAll(/<script(?![^>]*\bsrc=)[^>]*>([\s\S]*?)<\/script>/g)].map(m => m[1]).join('\n;\n');

// ---- a document of plain nodes --------------------------------------------
class Node {
  constructor(tag, parent) {
    this.tag = tag; this.parent = parent; this.kids = []; this.attrs = {}; this.styles = {}; this.txt = '';
    if (parent) { this.__data__ = parent.__data__; }
  }
  all(out) { for (const k of this.kids) { out.push(k); k.all(out); } return out; }
}
function matches(n, sel) {
  return sel.split(',').some(s => {
    s = s.trim();
    if (s === '*') return true;
    const m = /^([A-Za-z0-9]*)((?:[.#][\w-]+)*)$/.exec(s);
    if (!m) return false;
    if (m[1] && m[1].toLowerCase() !== n.tag) return false;
    const cls = String(n.attrs['class'] || '').split(/\s+/);
    return (m[2].match(/[.#][\w-]+/g) || []).every(p => p[0] === '.' ? cls.includes(p.slice(1)) : n.attrs.id === p.slice(1));
  });
}
function find(n, sel) { const part = sel.trim().split(/\s+(?![^,]*,)/).pop(); return n.all([]).filter(k => matches(k, part)); }

class Sel {
  constructor(nodes, parents) { this.nodes = nodes; this.parents = parents || []; }
  val(v, n, i) { return typeof v === 'function' ? v.call(n, n.__data__, i) : v; }
  put(slot, k, v) {
    if (typeof k === 'object' && k !== null) { for (const x in k) this.put(slot, x, k[x]); return this; }
    if (v === undefined) return this.nodes.length ? this.nodes[0][slot][k] : undefined;
    this.nodes.forEach((n, i) => { const r = this.val(v, n, i); if (r === null) delete n[slot][k]; else n[slot][k] = String(r); });
    return this;
  }
  attr(k, v) { return this.put('attrs', k, arguments.length < 2 ? undefined : v); }
  style(k, v) { return this.put('styles', k, arguments.length < 2 ? undefined : v); }
  classed(k, v) {
    this.nodes.forEach((n, i) => {
      const s = new Set(String(n.attrs['class'] || '').split(/\s+/).filter(x => x));
      if (this.val(v, n, i)) s.add(k); else s.delete(k);
      n.attrs['class'] = [...s].join(' ');
    });
    return this;
  }
  property(k, v) { this.nodes.forEach((n, i) => { n[k] = this.val(v, n, i); }); return this; }
  text(v) {
    if (!arguments.length) return this.nodes.length ? this.nodes[0].txt : '';
    this.nodes.forEach((n, i) => { const r = this.val(v, n, i); n.txt = r === null || r === undefined ? '' : String(r); n.kids = []; });
    return this;
  }
  html(v) { return this.text(v); }
  append(tag) {
    return new Sel(this.nodes.map(n => { const k = new Node(String(tag).replace(/^svg:/, ''), n); n.kids.push(k); return k; }));
  }
  insert(tag) {
    return new Sel(this.nodes.map(n => { const k = new Node(String(tag).replace(/^svg:/, ''), n); n.kids.unshift(k); return k; }));
  }
  remove() { this.nodes.forEach(n => { n.parent.kids = n.parent.kids.filter(k => k !== n); }); return this; }
  select(sel) {
    return new Sel(this.nodes.map(n => { const k = find(n, sel)[0]; if (k && n.__data__ !== undefined) k.__data__ = n.__data__; return k; }).filter(k => k));
  }
  selectAll(sel) { return new Sel([].concat(...this.nodes.map(n => find(n, sel))), this.nodes.slice()); }
  filter(f) { return new Sel(this.nodes.filter((n, i) => typeof f === 'string' ? matches(n, f) : f.call(n, n.__data__, i)), this.parents); }
  datum(v) {
    if (!arguments.length) return this.nodes.length ? this.nodes[0].__data__ : undefined;
    this.nodes.forEach((n, i) => { n.__data__ = this.val(v, n, i); });
    return this;
  }
  data(v) {
    if (!arguments.length) return this.nodes.map(n => n.__data__);
    const fresh = [];
    const have = this.nodes.slice();
    this.parents.forEach((p, j) => {
      const d = typeof v === 'function' ? v.call(p, p.__data__, j) : v;
      const mine = have.filter(n => { let q = n.parent; while (q && q !== p) q = q.parent; return q === p; });
      d.forEach((x, i) => { if (i < mine.length) mine[i].__data__ = x; else fresh.push([p, x]); });
    });
    this.enter = () => ({
      append: tag => new Sel(fresh.map(([p, x]) => { const k = new Node(String(tag).replace(/^svg:/, ''), p); k.__data__ = x; p.kids.push(k); return k; })),
      insert: function (tag) { return this.append(tag); }, empty: () => !fresh.length, size: () => fresh.length,
    });
    this.exit = () => new Sel([]);
    return this;
  }
  call(f, ...a) { f(this, ...a); return this; }
  each(f) { this.nodes.forEach((n, i) => f.call(n, n.__data__, i)); return this; }
  on() { return this; }
  order() { return this; }
  transition() { return this; }
  duration() { return this; }
  delay() { return this; }
  node() { return this.nodes[0] || null; }
  size() { return this.nodes.length; }
  empty() { return !this.nodes.length; }
}

// ---- the parts of d3 a chart may use ---------------------------------------
function world(files, root) {
  const num = a => a.filter(x => x !== null && x !== undefined && !(typeof x === 'number' && isNaN(x)));
  const best = better => (a, f) => { let r; num(f ? a.map((d, i) => f(d, i)) : a).forEach(x => { if (r === undefined || better(x, r)) r = x; }); return r; };
  const min = best((x, r) => x < r), max = best((x, r) => x > r);
  function linear() {
    let dom = [0, 1], ran = [0, 1], clamp = false;
    const s = v => {
      const span = dom[dom.length - 1] - dom[0];
      let t = span ? (+v - dom[0]) / span : (isNaN(+v) ? NaN : 0);
      if (clamp) t = Math.max(0, Math.min(1, t));
      return ran[0] + t * (ran[ran.length - 1] - ran[0]);
    };
    s.domain = function (d) { if (!arguments.length) return dom.slice(); dom = d.map(Number); return s; };
    s.range = function (r) { if (!arguments.length) return ran.slice(); ran = r.slice(); return s; };
    s.rangeRound = s.range;
    s.clamp = function (c) { if (!arguments.length) return clamp; clamp = c; return s; };
    s.nice = () => s;
    s.ticks = () => dom.slice();
    s.tickFormat = () => String;
    s.interpolate = () => s;
    s.invert = p => dom[0] + (p - ran[0]) / (ran[ran.length - 1] - ran[0]) * (dom[dom.length - 1] - dom[0]);
    s.copy = () => linear().domain(dom).range(ran);
    return s;
  }
  function ordinal(range) {
    let dom = [], ran = range || [];
    const s = v => { let i = dom.indexOf(String(v)); if (i < 0) { dom.push(String(v)); i = dom.length - 1; } return ran[i % ran.length]; };
    s.domain = function (d) { if (!arguments.length) return dom.slice(); dom = []; d.forEach(x => { if (!dom.includes(String(x))) dom.push(String(x)); }); return s; };
    s.range = function (r) { if (!arguments.length) return ran.slice(); ran = r.slice(); return s; };
    s.copy = () => ordinal(ran).domain(dom);
    return s;
  }
  const shades = n => Array.from({ length: n }, (_, i) => '#' + (1000 + i));
  function fluent(keys, draw) {
    const f = draw || (() => {}), kept = {};
    keys.forEach(k => { f[k] = function (v) { if (!arguments.length) return kept[k]; kept[k] = v; return f; }; });
    f.kept = kept;
    return f;
  }
  function line() {
    let fx = d => d[0], fy = d => d[1], ok = () => true;
    const f = d => d.length ? 'M' + d.map((p, i) => [p, i]).filter(p => ok(p[0], p[1])).map(p => {
      const g = (h, p) => +(typeof h === 'function' ? h(p[0], p[1]) : h);
      return g(fx, p) + ',' + g(fy, p);
    }).join('L') : null;
    f.x = v => { fx = v; return f; };
    f.y = v => { fy = v; return f; };
    f.defined = v => { ok = v; return f; };
    f.interpolate = () => f;
    f.tension = () => f;
    return f;
  }
  const axisKeys = ['scale', 'orient', 'ticks', 'tickValues', 'tickSize', 'innerTickSize', 'outerTickSize', 'tickPadding', 'tickFormat', 'tickSubdivide'];
  function table(sep, text, row) {
    const ls = text.split(/\r?\n/), head = ls[0].split(sep);
    while (ls.length && ls[ls.length - 1] === '') ls.pop();
    return ls.slice(1).map((l, i) => { const c = l.split(sep), o = {}; head.forEach((h, j) => { o[h] = c[j]; }); return row ? row(o, i) : o; });
  }
  function loader(sep) {
    return (file, row, cb) => {
      if (cb === undefined) { cb = row; row = null; }
      if (!(file in files)) cb(new Error('no file ' + file), undefined); else cb(null, table(sep, files[file], row));
    };
  }
  const d3 = {
    select: x => new Sel(x instanceof Node ? [x] : x === 'body' ? [root] : find(root, x).slice(0, 1)),
    selectAll: x => new Sel(Array.isArray(x) ? x : x === 'body' ? [root] : find(root, x), [root]),
    keys: o => { const r = []; for (const k in o) r.push(k); return r; },
    values: o => { const r = []; for (const k in o) r.push(o[k]); return r; },
    entries: o => { const r = []; for (const k in o) r.push({ key: k, value: o[k] }); return r; },
    min, max, extent: (a, f) => [min(a, f), max(a, f)],
    sum: (a, f) => num(f ? a.map(f) : a).reduce((x, y) => x + +y, 0),
    mean: (a, f) => d3.sum(a, f) / a.length,
    range: (a, b, c) => { if (b === undefined) { b = a; a = 0; } const r = []; for (let i = a; i < b; i += c || 1) r.push(i); return r; },
    merge: a => [].concat(...a), ascending: (a, b) => a < b ? -1 : a > b ? 1 : 0, descending: (a, b) => a < b ? 1 : a > b ? -1 : 0,
    set: a => { const s = new Set(a); return { has: x => s.has(x), add: x => s.add(x), values: () => [...s], size: () => s.size }; },
    map: o => { const m = new Map(Object.entries(o || {})); return { get: k => m.get(String(k)), set: (k, v) => { m.set(String(k), v); return v; }, has: k => m.has(String(k)), keys: () => [...m.keys()], values: () => [...m.values()], forEach: f => m.forEach((v, k) => f(k, v)) }; },
    functor: v => typeof v === 'function' ? v : () => v, format: () => String,
    tsv: loader('\t'), csv: loader(','),
    scale: { linear, ordinal: () => ordinal(), category10: () => ordinal(shades(10)), category20: () => ordinal(shades(20)) },
    svg: { axis: () => fluent(axisKeys), line },
  };
  d3.tsv.parse = (t, r) => table('\t', t, r);
  return d3;
}

// ---- where things ended up --------------------------------------------------
function place(n, x, y) {                 // to the coordinates of the picture
  for (let q = n; q; q = q.parent) {
    const ops = [...String(q.attrs.transform || '').matchAll(/(translate|rotate)\(([^)]*)\)/g)].reverse();
    for (const [, op, arg] of ops) {
      const a = arg.split(/[\s,]+/).filter(t => t !== '').map(Number);
      if (op === 'translate') { x += a[0]; y += a.length > 1 ? a[1] : 0; }
      else { const t = a[0] * Math.PI / 180; [x, y] = [x * Math.cos(t) - y * Math.sin(t), x * Math.sin(t) + y * Math.cos(t)]; }
    }
  }
  return [x, y].map(v => { const r = Math.round(v * 100); return Number.isFinite(r) && Math.abs(r) < 1e8 ? r : -99999999; });
}
function inside(n, cls) { for (let q = n; q; q = q.parent) if (String(q.attrs['class'] || '').split(/\s+/).includes(cls)) return true; return false; }
const codes = s => [...String(s)].map(c => c.codePointAt(0));
const colour = n => codes(n.styles.stroke || n.attrs.stroke || n.styles.fill || n.attrs.fill || '');

const out = fs.openSync(process.argv[4], 'w');
for (const job of jobs) {
  const root = new Node('body', null);
  let exc = '';
  try {
    const d3 = world(job.files, root);
    const box = { d3, console: { log() {}, warn() {}, error() {} }, document: { body: root }, Math, parseInt, parseFloat, isNaN };
    box.window = box;
    vm.runInNewContext(scripts, box, { timeout: 20000 });
  } catch (e) { exc = String(e && e.message || e).slice(0, 200) || 'raises'; }
  const pictures = find(root, 'svg');
  const charts = pictures.map(svg => {
    const all = svg.all([]);
    const num = p => Math.round((+svg.attrs[p] || 0) * 100);
    const texts = all.filter(n => n.tag === 'text' && n.txt !== '');
    return {
      size: [num('width'), num('height')],
      titles: texts.filter(n => inside(n, 'title')).map(n => codes(n.txt)),
      lines: all.filter(n => n.tag === 'path' && inside(n, 'line')).map(n => ({
        colour: colour(n),
        points: (String(n.attrs.d || '').match(/[^MLCSQTHVZ\s]+/gi) || []).map(p => { const a = p.split(',').map(Number); return place(n, a[0], a.length > 1 ? a[1] : NaN); }),
      })),
      labels: texts.filter(n => !inside(n, 'axis') && !inside(n, 'note') && !inside(n, 'title')).map(n => ({
        text: codes(n.txt), colour: colour(n), at: place(n, +(n.attrs.x || 0), +(n.attrs.y || 0)),
      })),
      notes: texts.filter(n => inside(n, 'note')).map(n => ({ text: codes(n.txt), at: place(n, +(n.attrs.x || 0), +(n.attrs.y || 0)) })),
    };
  });
  fs.writeSync(out, JSON.stringify({ ev: 'new', exc: exc ? 'raises' : '', what: exc, tables: job.tables, charts }) + '\n');
}
fs.closeSync(out);
