// Bundles the extension of /repo into one file; what it is given from outside stays outside.
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const [, , out, from = '/repo'] = process.argv;
esbuild
    .build({
        entryPoints: [`${from}/editors/code/src/extension.ts`],
        outfile: out,
        bundle: true,
        platform: 'node',
        format: 'cjs',
        target: 'es2019',
        external: ['vscode', 'vscode-languageclient', 'vscode-languageclient/node', 'node-fetch'],
        logLevel: 'error',
    })
    .catch(() => process.exit(1));
