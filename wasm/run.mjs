// node run.mjs MODULE JOB.json
// JOB: {mode: "digest"|"keys"|"items", seed, from, to, step, len, tail, count, items: [[prop, family, idx], ...]}
// Prints one JSON line per result; the last line is {"done": ...}.
import fs from "node:fs";
const [mod, jobfile] = process.argv.slice(2);
const job = JSON.parse(fs.readFileSync(jobfile, "utf8"));
const seed = BigInt(job.seed);
const { instance } = await WebAssembly.instantiate(fs.readFileSync(mod), {});
const x = instance.exports;
x.init();
const u = (v) => BigInt.asUintN(64, v);
const text = () => Buffer.from(x.memory.buffer, x.text_ptr(), x.text_len()).toString("utf8");
const say = (o) => console.log(JSON.stringify(o));
let n = 0;
let now = "";
try {
  if (job.mode === "digest") {
    for (let i = job.from; i < job.to; i += job.step) {
      now = `script ${i}`;
      say({ i, d: u(x.digest(seed, BigInt(i), job.len, job.tail)).toString(16).padStart(16, "0") });
      n++;
    }
  } else if (job.mode === "keys") {
    for (let i = job.from; i < job.to; i += job.step) {
      now = `chunk ${i}`;
      say({ i, d: u(x.key_chunk(seed, BigInt(i), BigInt(job.count))).toString(16).padStart(16, "0") });
      n++;
    }
  } else if (job.mode === "dump") {
    x.dump(seed, BigInt(job.from), job.len, job.tail);
    say({ dump: text() });
  } else {
    for (const [prop, family, idx] of job.items) {
      now = `item ${prop} ${family} ${idx}`;
      if (x.item(prop, seed, family, BigInt(idx)) !== 0) {
        say({ viol: text(), prop, family, idx });
        process.exit(1);
      }
      n++;
    }
  }
} catch (e) {
  if (e instanceof WebAssembly.RuntimeError) {
    say({ trap: String(e.message), text: text(), in_api: x.in_api(), now });
    process.exit(x.in_api() ? 1 : 2);
  }
  throw e;
}
say({ done: n, observations: Number(x.stat(0)), moves: Number(x.stat(1)), in_check: Number(x.stat(2)), api_calls: Number(x.api_calls()) });
