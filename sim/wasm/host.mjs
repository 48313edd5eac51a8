// Runs the 32-bit build of the simulator: host.mjs MODULE WORD.. (the words are the simulator's own arguments).
import fs from 'node:fs';
import { Worker, isMainThread, workerData } from 'node:worker_threads';
import { fileURLToPath } from 'node:url';

if (isMainThread) {
    // A thread of its own, for its stack.
    const w = new Worker(fileURLToPath(import.meta.url), {
        workerData: process.argv.slice(2),
        resourceLimits: { stackSizeMb: 200 },
    });
    w.on('error', (e) => { console.error(String(e)); process.exit(101); });
    w.on('exit', (c) => process.exit(c));
} else {
    const [file, ...words] = workerData;
    const open = new Map();
    let mem, taken;
    const text = (p, n) => Buffer.from(mem.buffer, p >>> 0, n >>> 0).toString('utf8');
    const host = {
        h_read(p, n) {
            try { taken = fs.readFileSync(text(p, n)); return taken.length; } catch { return -1; }
        },
        h_take(to) { Buffer.from(mem.buffer, to >>> 0, taken.length).set(taken); },
        h_write(p, n, d, m, how) {
            const name = text(p, n);
            const b = Buffer.from(mem.buffer, d >>> 0, m >>> 0);
            let f = open.get(name);
            if (f === undefined) {
                f = fs.openSync(name, how ? 'a' : 'w');
                open.set(name, f);
            }
            if (how) {
                fs.writeSync(f, b);
            } else {
                fs.ftruncateSync(f, m >>> 0);
                fs.writeSync(f, b, 0, b.length, 0);
            }
        },
        h_exit(c) { process.exit(c); },
        h_now() { return performance.now() / 1000; },
    };
    const inst = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(file)), { host });
    mem = inst.exports.memory;
    const cmd = Buffer.from(words.join('\n'));
    const p = inst.exports.sim_buf(cmd.length);
    Buffer.from(mem.buffer, p >>> 0, cmd.length).set(cmd);
    process.exit(inst.exports.sim_cmd(p, cmd.length));
}
