// Bundles the real sources of /repo for execution against a scripted network:
// `process` becomes __process and the optional renderer is imported through
// __importRender, both provided by the harness; nothing else is changed.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
const require = createRequire('/opt/veriftools/node/node_modules/');
const esbuild = require('esbuild');

export async function build(repo, outDir) {
  const out = path.join(outDir, 'resend.bundle.mjs');
  await esbuild.build({
    entryPoints: [path.join(repo, 'src/index.ts')],
    bundle: true,
    format: 'esm',
    platform: 'node',
    target: 'node20',
    outfile: out,
    logLevel: 'silent',
    keepNames: true,
    absWorkingDir: repo,
    define: { process: '__process', 'globalThis.process': 'globalThis.__process' },
    external: ['@react-email/render'],
    banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr(import.meta.url);" },
  });
  let text = fs.readFileSync(out, 'utf8');
  text = text.replace(/\bimport\((["'`])@react-email\/render\1\)/g, 'globalThis.__importRender()');
  text = text.replace(/^import \{([^}]*)\} from ["']@react-email\/render["'];?$/gm, (_, n) =>
    n.split(',').map((x) => {
      const [a, b] = x.trim().split(/\s+as\s+/);
      return `const ${b ?? a} = (...a) => globalThis.__importRender().then((m) => m.${a}(...a));`;
    }).join('\n'));
  fs.writeFileSync(out, text);
  const deps = path.join(outDir, 'deps.mjs');
  await esbuild.build({
    stdin: {
      contents: "export { default as PostalMime } from 'postal-mime'; export { Webhook } from 'standardwebhooks';",
      resolveDir: repo,
      loader: 'js',
    },
    bundle: true, format: 'esm', platform: 'node', outfile: deps, logLevel: 'silent', absWorkingDir: repo,
    banner: { js: "import { createRequire as __cr } from 'node:module'; const require = __cr(import.meta.url);" },
  });
  return { bundle: out, deps };
}
