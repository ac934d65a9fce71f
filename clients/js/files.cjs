// Stand-in for node:fs: the files of the scene; nothing is written anywhere.
'use strict';
const get = (path, encoding) => {
  const f = globalThis.scene.files.get(String(path));
  if (f === undefined) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${path}'`), { code: 'ENOENT' });
  const as = typeof encoding === 'string' ? encoding : encoding?.encoding;
  return as ? Buffer.from(f).toString(as) : Buffer.from(f);
};
const put = (path, data) => {
  if (globalThis.scene.unwritable) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${path}'`), { code: 'ENOENT' });
  globalThis.scene.files.set(String(path), typeof data === 'string' ? data : Buffer.from(data));
};
const stat = (p) => ({ size: get(p).length, isFile: () => true, isDirectory: () => false });
const there = (path) => globalThis.scene.files.has(String(path));
const fs = {
  readFileSync: get, existsSync: there, writeFileSync: put, mkdirSync: () => undefined,
  statSync: stat, lstatSync: stat, constants: require('node:fs').constants,
  accessSync: (p) => void get(p),
  promises: {
    access: async (p) => void get(p), stat: async (p) => stat(p), lstat: async (p) => stat(p), readFile: async (p, e) => get(p, e), writeFile: async (p, d) => put(p, d), mkdir: async () => undefined },
};
Object.assign(fs.promises, { constants: fs.constants });
// what is not modelled says so when it is called
const notModelled = new Proxy({}, {
  get: (_, name) => (typeof name === 'symbol' || ['__esModule', 'default', 'then', 'toJSON'].includes(name) || name in Object.prototype ? undefined
    : function () { globalThis.scene.notModelled = `fs.${name}`; throw new Error(`fs.${name} is not modelled`); }),
});
Object.setPrototypeOf(fs.promises, notModelled);
Object.setPrototypeOf(fs, notModelled);
module.exports = fs;
