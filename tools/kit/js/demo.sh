#!/bin/sh
# bundles the JavaScript client of the current directory's repository with stand-ins for its dependencies and runs demo.mjs
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/kit.cjs" "$here/demo.mjs" "$t/"
cat > "$t/build.mjs" <<'X'
import { createRequire } from 'node:module';
const esbuild = createRequire('/opt/veriftools/node/')('esbuild');
const stub = process.argv[3] + '/kit.cjs';
await esbuild.build({ entryPoints: [process.argv[2] + '/js-client/src/index.ts'], bundle: true, platform: 'node', format: 'cjs', outfile: process.argv[3] + '/client.cjs', logLevel: 'error',
  plugins: [{ name: 'stubs', setup: (b) => b.onResolve({ filter: /^@solana/ }, () => ({ path: stub })) }] });
X
node "$t/build.mjs" "$(pwd)" "$t" && node "$t/demo.mjs"
