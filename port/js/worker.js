// Runs the WebAssembly build of the decoders: batches of requests on stdin, answers on stdout.
// Wire format: see ../src/wire.rs.  A trap is a panic of the code under test.
'use strict';
const fs = require('fs');
const module_ = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let inst = null;
const fresh = () => { inst = new WebAssembly.Instance(module_, {}).exports; };
function readExact(n) {
  const b = Buffer.allocUnsafe(n);
  let at = 0;
  while (at < n) {
    let k;
    try { k = fs.readSync(0, b, at, n - at, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
    if (k === 0) process.exit(at === 0 ? 0 : 1);
    at += k;
  }
  return b;
}
function writeAll(b) {
  let at = 0;
  while (at < b.length) {
    try { at += fs.writeSync(1, b, at, b.length - at); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
  }
}
fresh();
writeAll(Buffer.from('\0T2DPORT\n'));
const HEAD = 26;
for (;;) {
  const h = readExact(8);
  let count = h.readUInt32LE(0);
  let body = readExact(h.readUInt32LE(4));
  while (count > 0) {
    // room for the answers
    let room = 0, at = 0;
    for (let i = 0; i < count; i++) {
      room += 9 + (body[at + 1] ? 4 * body.readUInt32LE(at + 18) : 0);
      at += HEAD + body.readUInt32LE(at + 22);
    }
    let p = inst.buffer(body.length, room) >>> 0;
    new Uint8Array(inst.memory.buffer).set(body, p);
    let trapped = false;
    try { inst.run(count, body.length); } catch (e) { trapped = true; }
    const done = inst.progress(0), read = inst.progress(1), wrote = inst.progress(2);
    writeAll(Buffer.from(inst.memory.buffer, p + body.length, wrote));
    if (!trapped) break;
    // the request after the last answered one trapped
    const full = body[read + 1] ? 4 * body.readUInt32LE(read + 18) : 0;
    const a = Buffer.alloc(9 + full);
    a[0] = 2;
    writeAll(a);
    body = body.subarray(read + HEAD + body.readUInt32LE(read + 22));
    count -= done + 1;
    fresh();
  }
}
