// Prints the ESTree of a script as JSON: node parse.js FILE
const acorn = require("/opt/veriftools/node/node_modules/acorn");
const src = require("fs").readFileSync(process.argv[2], "utf8");
process.stdout.write(JSON.stringify(acorn.parse(src, { ecmaVersion: 2022, sourceType: "script", locations: true }),
    (k, v) => (k === "end" || k === "start") && typeof v === "number" ? undefined : typeof v === "bigint" ? String(v) : v));
