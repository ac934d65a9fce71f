// Stand-in for @irys/sdk: records what would be uploaded, where and with which key.
'use strict';
class Irys {
  constructor(o) {
    this.o = o;
    return new Proxy(this, { get: (t, name) => (typeof name === 'symbol' || name === 'then' || name in t ? t[name] : () => {
      globalThis.scene.notModelled = `irys.${name}`;
      throw new Error(`irys.${name} is not modelled`);
    }) });
  }
  async ready() { return this; }
  async upload(data, options = {}) {
    const scene = globalThis.scene;
    scene.asked++;
    await null;
    if (scene.exited) throw new Error('the process has exited');
    if (scene.refuses) throw new Error('402: not enough funds for the upload');
    const { url, network, token, key } = this.o;
    scene.sent.push({ url: url ?? network, token, key: Array.from(key), data: Array.from(typeof data === 'string' ? Buffer.from(data) : data), tags: options.tags ?? [] });
    return { id: `upload-${scene.sent.length}`, timestamp: scene.now * 1000 };
  }
  async uploadFile(path, options) { return this.upload(require('./files.cjs').readFileSync(path), options); }
}
Irys.default = Irys;
module.exports = Irys;
