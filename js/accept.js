'use strict';
// Does a conforming JavaScript engine accept this text under the given goal?
const vm = require('vm');
function accepts(code, goal) {
  try {
    if (goal === 'module') new vm.SourceTextModule(code); // eslint-disable-line no-new
    else if (goal === 'cjs') new vm.Script(`(function(exports, require, module){${code}\n})`); // eslint-disable-line no-new
    else new vm.Script(code); // eslint-disable-line no-new
    return null;
  } catch (e) { return String(e && e.message || e); }
}
module.exports = { accepts };
