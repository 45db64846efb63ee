'use strict';
// A compiler host for the compiled plugin (wasm), as swc's plugin runner drives it:
// one fresh instance per file, host functions answered from the native session in ../plugin-host.
const path = require('path'), fs = require('fs');
const DIR = path.join(__dirname, '..', 'plugin-host', 'target');
const m = { exports: {} };
process.dlopen(m, path.join(DIR, 'debug', 'libverif_plugin_host.so'));
const n = m.exports;
const wasm = new WebAssembly.Module(fs.readFileSync(path.join(DIR, 'wasm32-wasip1', 'debug', 'swc_plugin_coverage.wasm')));
const wanted = WebAssembly.Module.imports(wasm);

class Exit extends Error {}
/** Runs the plugin over one program. req: {syntax, goal, filename (null: none), options (text, null: none), comments} */
function runPlugin(code, req) {
  const open = JSON.parse(n.open(code, JSON.stringify({ syntax: req.syntax, goal: req.goal, before: req.before || [], proposals: !!req.proposals, first: !!req.first })));
  if (!open.ok) return { rejected: `${open.kind}: ${open.message}` };
  let inst = null, result = null, stdout = '', failed = null;
  const mem = () => new DataView(inst.exports.memory.buffer);
  const bytes = (p, l) => Buffer.from(inst.exports.memory.buffer.slice(p >>> 0, (p >>> 0) + l));
  const give = b => { const p = inst.exports.__alloc(b.length) >>> 0; new Uint8Array(inst.exports.memory.buffer, p, b.length).set(b); return p; };
  const ret = (b, at) => { if (b === null) return 0; const p = give(b), d = mem(); d.setUint32(at >>> 0, p, true); d.setUint32((at >>> 0) + 4, b.length, true); return 1; };
  const context = key => key === 1 ? (req.filename === undefined ? null : req.filename) : key === 2 ? 'test' : '/cwd';
  const env = {
    __set_transform_result: (p, l) => { result = bytes(p, l); },
    __emit_diagnostics: () => {}, __set_transform_plugin_core_pkg_diagnostics: () => {},
    __get_transform_plugin_config: at => ret(req.options === null || req.options === undefined ? null : n.stringBytes(req.options), at),
    __get_transform_context: (key, at) => { const v = context(key); return ret(v === null ? null : n.stringBytes(v), at); },
    __copy_context_key_to_host_env: () => {}, __get_experimental_transform_context: () => 0,
    __copy_comment_to_host_env: (p, l) => n.commentBuffer(bytes(p, l)),
    __get_leading_comments_proxy: (pos, at) => ret(n.readComments('getLeading', pos >>> 0), at),
    __get_trailing_comments_proxy: (pos, at) => ret(n.readComments('getTrailing', pos >>> 0), at),
    __take_leading_comments_proxy: (pos, at) => ret(n.readComments('takeLeading', pos >>> 0), at),
    __take_trailing_comments_proxy: (pos, at) => ret(n.readComments('takeTrailing', pos >>> 0), at),
    __has_leading_comments_proxy: pos => +n.hasComments(true, pos >>> 0), __has_trailing_comments_proxy: pos => +n.hasComments(false, pos >>> 0),
    __add_leading_comment_proxy: pos => n.writeComments('addLeading', pos >>> 0, 0), __add_trailing_comment_proxy: pos => n.writeComments('addTrailing', pos >>> 0, 0),
    __add_leading_comments_proxy: pos => n.writeComments('addLeadingMany', pos >>> 0, 0), __add_trailing_comments_proxy: pos => n.writeComments('addTrailingMany', pos >>> 0, 0),
    __move_leading_comments_proxy: (a, b) => n.writeComments('moveLeading', a >>> 0, b >>> 0), __move_trailing_comments_proxy: (a, b) => n.writeComments('moveTrailing', a >>> 0, b >>> 0),
    __add_pure_comment_proxy: pos => n.writeComments('addPure', pos >>> 0, 0),
    __lookup_char_pos_source_map_proxy: (pos, file, at) => { const r = n.charPos(pos >>> 0, file === 1); if (typeof r === 'string') throw new Error('host: ' + r); return ret(r, at); },
    __span_to_string_proxy: (a, b, at) => ret(n.spanText('string', a >>> 0, b >>> 0), at), __span_to_filename_proxy: (a, b, at) => ret(n.spanText('filename', a >>> 0, b >>> 0), at), __span_to_source_proxy: (a, b, at) => ret(n.spanText('source', a >>> 0, b >>> 0), at),
    __span_dummy_with_cmt_proxy: () => n.dummyWithCmt() | 0,
    __mark_fresh_proxy: a => n.mark('fresh', a >>> 0, 0) | 0, __mark_parent_proxy: a => n.mark('parent', a >>> 0, 0) | 0,
    __syntax_context_apply_mark_proxy: (a, b) => n.mark('apply', a >>> 0, b >>> 0) | 0, __syntax_context_outer_proxy: a => n.mark('outer', a >>> 0, 0) | 0,
  };
  const wasi = {
    clock_time_get: (id, prec, at) => { mem().setBigUint64(at >>> 0, 1700000000000000000n, true); return 0; },
    fd_write: (fd, iovs, len, out) => { const d = mem(); let w = 0; for (let i = 0; i < len; i++) { const p = d.getUint32(iovs + 8 * i, true), l = d.getUint32(iovs + 8 * i + 4, true); w += l; if (stdout.length < 20000) stdout += bytes(p, l).toString('utf8'); } d.setUint32(out >>> 0, w, true); return 0; },
    sched_yield: () => 0, random_get: (p, l) => { new Uint8Array(inst.exports.memory.buffer, p >>> 0, l).fill(7); return 0; },
    environ_get: () => 0, environ_sizes_get: (a, b) => { mem().setUint32(a >>> 0, 0, true); mem().setUint32(b >>> 0, 0, true); return 0; },
    args_get: () => 0, args_sizes_get: (a, b) => { mem().setUint32(a >>> 0, 0, true); mem().setUint32(b >>> 0, 0, true); return 0; },
    proc_exit: c => { throw new Exit('exit ' + c); },
  };
  const imports = { env: {}, wasi_snapshot_preview1: {} };
  for (const w of wanted) {
    const f = (w.module === 'env' ? env : wasi)[w.name];
    imports[w.module] = imports[w.module] || {};
    imports[w.module][w.name] = f || (() => { throw new Error(`the test host has no ${w.module}.${w.name}`); });
  }
  try {
    inst = new WebAssembly.Instance(wasm, imports);
    if (inst.exports._initialize) inst.exports._initialize();
    const prog = n.programBytes(), p = give(prog);
    const rc = inst.exports.__transform_plugin_process_impl(p, prog.length, open.unresolvedMark, req.comments === false ? 0 : 1);
    if (rc !== 0) { failed = 'the plugin reported an error'; result = null; }
  } catch (e) {
    if (/test host has no/.test(String(e.message))) { n.close(); throw e; }
    failed = String(e && e.message); result = null;
  }
  const j = JSON.parse(n.judge(result, JSON.stringify({ filename: req.filename === undefined ? null : req.filename, options: req.options === undefined ? null : req.options, withComments: req.comments !== false })));
  n.close();
  if (j.error && !failed) failed = j.error;
  return { ...j, failed, stdout };
}
module.exports = { runPlugin };
