// A real process that runs one P34 configuration; P34_CONF carries it, the arguments are the process's own.
const d = JSON.parse(process.env.P34_CONF);
const { load, runOnce } = await import("../checks/P34.mjs");
const M = await load({ load: (p) => import(d.dist + "/" + p) });
const v = await runOnce(M, { ...d, args: process.argv.slice(2) });
process.stdout.write("VALUE " + JSON.stringify(v) + "\n");
