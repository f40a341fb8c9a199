// Stateless exploration of delivery orders. `body(gate)` starts the system under
// test; every `await gate(...)` in it parks until the explorer delivers it.
// Between deliveries all microtasks (and timers of 0) drain, so one execution is
// a sequence of deliveries; depth-first search enumerates every sequence.
export const drain = () => new Promise((r) => setImmediate(r));
export async function explore(body, visit, cap = Infinity) {
  let prefix = [], runs = 0, steps = 0, maxPending = 0, capped = false;
  for (;;) {
    const pending = [], trace = [];
    const gate = (...label) => new Promise((resolve) => pending.push({ resolve, label: label.join(":") }));
    let done = false, out;
    const p = Promise.resolve().then(() => body(gate)).then((v) => { done = true; out = v; }, (e) => { done = true; out = { thrown: e }; });
    let dead = false;
    for (;;) {
      await drain();
      if (done && !pending.length) break;
      if (done) { /* answers nobody waits for any more */ break; }
      if (!pending.length) { await drain(); await drain(); if (done || pending.length) continue; dead = true; break; }
      maxPending = Math.max(maxPending, pending.length);
      const d = trace.length, pick = d < prefix.length ? prefix[d] : 0;
      trace.push({ pick, n: pending.length, label: pending[pick].label });
      const [q] = pending.splice(pick, 1);
      q.resolve(); steps++;
    }
    if (!dead) await p;
    runs++;
    visit(dead ? "deadlock" : out, trace.map((x) => `${x.pick}/${x.n} ${x.label}`).join(" "));
    let i = trace.length - 1;
    while (i >= 0 && trace[i].pick + 1 >= trace[i].n) i--;
    if (i < 0) break;
    if (runs >= cap) { capped = true; break; }
    prefix = [...trace.slice(0, i).map((x) => x.pick), trace[i].pick + 1];
  }
  return { runs, steps, maxPending, capped };
}
