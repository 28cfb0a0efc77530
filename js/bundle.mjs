// Bundles a TypeScript entry of the repository with the stand-ins for the packages that are not installed here.
import { createRequire } from 'node:module';
import { fileURLToPath } from 'node:url';
import path from 'node:path';
const esbuild = createRequire('/opt/veriftools/node/')('esbuild');
const here = path.dirname(fileURLToPath(import.meta.url));

export async function bundle(entry, out, alias = {}, options = {}) {
  const r = await esbuild.build({
    entryPoints: [entry],
    outfile: out,
    bundle: true,
    format: 'esm',
    platform: 'node',
    target: 'node20',
    logLevel: 'silent',
    write: true,
    alias: {
      '@solana/kit': path.join(here, 'stubs/kit.js'),
      '@solana/addresses': path.join(here, 'stubs/addresses.js'),
      '@solana-program/token': path.join(here, 'stubs/token.js'),
      ...alias,
    },
    ...options,
  }).catch((e) => {
    console.log(`the sources cannot be bundled: ${e.message}`);
    process.exit(2);
  });
  return r;
}
