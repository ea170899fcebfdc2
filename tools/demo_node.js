// Loads the addon of the current directory's build.
const fs = require('fs'), os = require('os'), path = require('path');
const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'demo'));
const copy = path.join(dir, 'addon.node');
fs.copyFileSync(path.resolve('target/debug/libjinja_lsp_nodejs.so'), copy);
const addon = require(copy);
fs.unlinkSync(copy);
fs.rmdirSync(dir);
exports.addon = addon;
exports.same = (got, want, what) => {
  const g = JSON.stringify(got), w = JSON.stringify(want);
  if (g !== w) { console.log(`DEMO FAILS: ${what}: ${g}, expected ${w}`); process.exit(1); }
};
