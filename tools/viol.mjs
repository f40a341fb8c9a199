// print violations grouped by AST head shapes
import {readFileSync} from "node:fs";
const f=JSON.parse(readFileSync(process.argv[2])); for (const v of f.violations.slice(0,+process.argv[3]||10)) console.log(v.what.slice(0,500));
