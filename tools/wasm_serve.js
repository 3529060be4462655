// node tools/wasm_serve.js FILE.wasm: answers request lines on stdin with the WebAssembly build of the harness.
const fs = require("fs"), readline = require("readline");
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let ex;
function fresh() {
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ??= {})[i.name] = () => { throw new Error("import " + i.name); };
  ex = new WebAssembly.Instance(mod, imports).exports;
}
fresh();
const text = () => Buffer.from(ex.memory.buffer, ex.wm_out(), ex.wm_out_len()).toString();
readline.createInterface({ input: process.stdin }).on("line", (l) => {
  let ans;
  try {
    const b = Buffer.from(l), p = ex.wm_in(b.length);
    b.copy(Buffer.from(ex.memory.buffer, p, b.length));
    ex.wm_serve();
    ans = text();
  } catch (e) {
    let m = ""; try { ex.wm_panic(); m = text(); } catch (_) {}
    ans = `${"0".repeat(16)} Trap(${m || e.message})`.replace(/\n/g, " ");
    fresh();
  }
  process.stdout.write(ans + "\n");
});
