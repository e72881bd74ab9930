// Worker for a wasm build: node worker.js MODULE PREFIX; same protocol as worker.c.
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2])), prefix = process.argv[3] || 'vb_';
let ex;
const fresh = () => { ex = new WebAssembly.Instance(mod, {}).exports; };
fresh();
function rd(b, off, n) { while (n) { let k; try { k = fs.readSync(0, b, off, n, null); } catch (e) { if (e.code === 'EAGAIN') continue; process.exit(0); } if (k <= 0) process.exit(0); off += k; n -= k; } }
function wr(b, off, n) { while (n) { let k; try { k = fs.writeSync(1, b, off, n); } catch (e) { if (e.code === 'EAGAIN') continue; process.exit(0); } off += k; n -= k; } }
const H = Buffer.alloc(60), R = Buffer.alloc(4);
for (;;) {
    rd(H, 0, 60);
    let op = H.toString('latin1', 0, 32).replace(/\0.*$/s, '').replace(/^vb_/, prefix);
    const n = H.readUInt32LE(32), nin = H.readUInt32LE(36), nout = H.readUInt32LE(40), p = ex.vx_buf();
    let q = [], i = 0, o = 0, k = 0;
    for (; k < nin; k++) { q.push(p + i); i += (n * H.readUInt32LE(44 + 4 * k) + 15) & ~15; }
    for (; k < nin + nout; k++) { q.push(p + i + o); o += (n * H.readUInt32LE(44 + 4 * k) + 15) & ~15; }
    let m = Buffer.from(ex.memory.buffer);
    rd(m, p, i);
    if (!ex[op]) { R.writeUInt32LE(0xffffffff); wr(R, 0, 4); continue; }
    let panic = false;
    try { ex[op](n, 0, ...q); } catch (e) { panic = true; }
    m = Buffer.from(ex.memory.buffer);
    const prog = m.readUInt32LE(ex.VX_PROG.value);
    R.writeUInt32LE(prog); wr(R, 0, 4);
    if (panic) { process.exit(1); }
    wr(m, p + i, o);
}
