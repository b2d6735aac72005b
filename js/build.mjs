// build.mjs SRC OUT: bundles the worker with the client's source and the
// stand-ins of its dependencies.  What the client imports of them and the
// stand-ins lack is replaced by something that says so when it is used.
import { existsSync, readdirSync, readFileSync, mkdirSync, writeFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import { dirname, join } from 'node:path';
const [src, out] = process.argv.slice(2);
const { build, transformSync } = createRequire('/opt/veriftools/node/node_modules/x.js')('esbuild');
const stubs = {
    '@solana/kit': 'kit', '@solana/program-client-core': 'client-core', '@solana-program/system': 'system',
    '@solana-program/token': 'token', '@solana-program/token-2022': 'token-2022',
};
const here = '/verif/js';
const work = join(dirname(out), 'stubs');
mkdirSync(work, { recursive: true });
const walk = d => readdirSync(d, { withFileTypes: true }).flatMap(e => (e.isDirectory() ? (e.name === 'examples' ? [] : walk(join(d, e.name))) : e.name.endsWith('.ts') ? [join(d, e.name)] : []));
const used = Object.fromEntries(Object.keys(stubs).map(k => [k, new Set()]));
for (const f of walk(src)) {
    // esbuild drops the imports that are types only
    const js = transformSync(readFileSync(f, 'utf8'), { loader: 'ts' }).code;
    for (const m of js.matchAll(/(?:import|export)\s*\{([^}]*)\}\s*from\s*["']([^"']+)["']/g))
        if (used[m[2]]) for (const n of m[1].split(',')) used[m[2]].add(n.trim().split(/\s+as\s+/)[0]);
}
writeFileSync(join(work, 'token-common.mjs'), readFileSync(`${here}/stubs/token-common.mjs`));
for (const [pkg, file] of Object.entries(stubs)) {
    let s = readFileSync(`${here}/stubs/${file}.mjs`, 'utf8');
    const has = n => new RegExp(`\\b${n}\\b`).test(s);
    const lacking = [...used[pkg]].filter(n => n && !has(n));
    if (lacking.length) {
        console.error(`NOTE: no stand-in for ${pkg}: ${lacking.join(', ')}`);
        s += '\nconst unmodelled = n => new Proxy(() => {}, { get() { throw new Error("UNMODELLED " + n); }, apply() { throw new Error("UNMODELLED " + n); }, construct() { throw new Error("UNMODELLED " + n); } });\n';
        for (const n of lacking) s += `export const ${n} = unmodelled('${n}');\n`;
    }
    writeFileSync(join(work, file + '.mjs'), s);
}
await build({
    entryPoints: [`${here}/worker.mjs`], outfile: out, bundle: true, platform: 'node', format: 'esm', target: 'node22', logLevel: 'error',
    alias: {
        ...Object.fromEntries(Object.entries(stubs).map(([k, v]) => [k, join(work, v + '.mjs')])),
        client: join(src, 'index.ts'), 'client-utilities': join(src, existsSync(join(src, 'utilities.ts')) ? 'utilities.ts' : 'index.ts'),
    },
});
