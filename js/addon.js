'use strict';
// Loads the native addon built from /repo's working tree (see ../run.sh).
const path = require('path');
const SO = process.env.VERIF_ADDON || path.join(__dirname, '..', 'harness', 'target', 'debug', 'libverif_harness.so');
const m = { exports: {} };
process.dlopen(m, SO);
const h = m.exports;
/** Run the pipeline. `req.options` may be an object (stringified here), a string, or null/undefined (no instrumentation). */
function transform(code, req = {}) {
  const { deep, ...rest } = req, r = { filename: '/virtual/file.js', ...rest };
  if (r.options === null) delete r.options;
  else if (r.options !== undefined && typeof r.options !== 'string') r.options = JSON.stringify(r.options);
  return JSON.parse((deep ? h.transformDeep : h.transform)(code, JSON.stringify(r)));
}
module.exports = { h, transform };
