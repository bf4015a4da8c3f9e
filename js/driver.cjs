// Bundles the JavaScript clients of the repository with the stand-ins and evaluates the requests of
// the harness, one line each: `node driver.cjs <repository> <requests> <answers>`.
const fs = require('node:fs');
const path = require('node:path');
const Module = require('node:module');

const [, , repo, requests, answers] = process.argv;
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const { MissingStandIn } = require('./missing.cjs');
const umi = require('./umi.cjs');

const STAND_INS = {
  '@metaplex-foundation/umi': 'umi.cjs',
  '@metaplex-foundation/umi/serializers': 'serializers.cjs',
  '@metaplex-foundation/umi-serializers': 'serializers.cjs',
  '@metaplex-foundation/mpl-token-metadata': 'metadata.cjs',
  '@metaplex-foundation/mpl-toolbox': 'toolbox.cjs',
};

const standIns = {
  name: 'stand-ins',
  setup(build) {
    build.onResolve({ filter: /^[^./]/ }, (args) => {
      if (args.kind === 'entry-point') return undefined;
      if (args.path.startsWith('@nifty-oss/')) {
        const dir = path.join(repo, 'clients/js', args.path.slice('@nifty-oss/'.length), 'src/index.ts');
        return fs.existsSync(dir) ? { path: dir } : { path: args.path, namespace: 'missing' };
      }
      if (STAND_INS[args.path]) return { path: path.join(__dirname, STAND_INS[args.path]), external: true };
      if (args.path.startsWith('node:')) return { path: args.path, external: true };
      return { path: args.path, namespace: 'missing' };
    });
    build.onLoad({ filter: /.*/, namespace: 'missing' }, (args) => ({
      contents: `module.exports = require(${JSON.stringify(path.join(__dirname, 'missing.cjs'))}).complete(${JSON.stringify(args.path)}, {});`,
      resolveDir: __dirname,
      loader: 'js',
    }));
  },
};

const tag = (v) => v && typeof v === 'object' && !Array.isArray(v) && Object.keys(v).find((k) => k.startsWith('$'));

async function main(clients) {
  const programs = [clients.asset, clients.proxy, clients.bridge]
    .map((c, i) => c[['createAssetProgram', 'createProxyProgram', 'createBridgeProgram'][i]])
    .filter((f) => typeof f === 'function')
    .map((f) => f());
  const lookup = (name) => {
    const [pkg, ...rest] = name.includes('.') ? name.split('.') : ['asset', name];
    const at = clients[pkg] ?? umi;
    const v = rest.reduce((o, k) => (o === undefined ? undefined : o[k]), at);
    if (v === undefined) throw new MissingStandIn(`export ${name}`);
    return v;
  };
  const value = (v, env) => {
    if (Array.isArray(v)) return v.map((x) => value(x, env));
    if (v === null || typeof v !== 'object') return v;
    switch (tag(v)) {
      case '$s':
        return umi.internal.signer(v.$s);
      case '$b':
        return Uint8Array.from(Buffer.from(v.$b, 'hex'));
      case '$n':
        return BigInt(v.$n);
      case '$ctx':
        return umi.internal.context(v.$ctx[0], v.$ctx[1], v.$ctx[2] ? programs : [], v.accounts && value(v.accounts, env));
      case '$installed': {
        const at = umi.internal.context(v.$installed, v.$installed, v.before ? [value(v.before, env)] : []);
        v.plugins.forEach((p) => lookup(p)().install(at));
        return at;
      }
      case '$get':
        return lookup(v.$get);
      case '$of':
        return value(v.$of, env)[v.field];
      case '$call':
        return lookup(v.$call)(...v.args.map((x) => value(x, env)));
      case '$method':
        return value(v.on, env)[v.$method](...v.args.map((x) => value(x, env)));
      case '$omit': {
        const whole = { ...value(v.on, env) };
        v.$omit.forEach((k) => delete whole[k]);
        return whole;
      }
      case '$undefined':
        return undefined;
      case '$some':
        return umi.some(value(v.$some, env));
      case '$none':
        return umi.none();
      case '$new':
        return new (lookup(v.$new))(...v.args.map((x) => value(x, env)));
      default:
        return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, value(x, env)]));
    }
  };
  const instruction = ({ instruction: i, signers }) =>
    `${i.programId}!${i.keys.map((k) => `${k.pubkey}:${k.isSigner ? 's' : ''}${k.isWritable ? 'w' : ''}`).join(',')}!${Buffer.from(i.data).toString('hex')}!${signers
      .map((s) => s.publicKey)
      .join(',')}`;
  const transaction = (b) => `${umi.internal.packet(b.items, b.options.feePayer?.publicKey ?? FEE)}#${b.items.map(instruction).join(';')}`;
  let FEE = umi.defaultPublicKey();
  const show = (v) => {
    if (v === undefined) return 'undefined';
    if (v === null || typeof v === 'boolean' || typeof v === 'number' || typeof v === 'bigint') return String(v);
    if (typeof v === 'string') return JSON.stringify(v);
    if (v instanceof umi.TransactionBuilder) return `tx ${transaction(v)}`;
    if (v instanceof umi.TransactionBuilderGroup)
      return `group ${v.isParallel() ? 'parallel' : 'sequential'} ${v.builders.filter((b) => b.items.length > 0).map(transaction).join('|')}`;
    if (v instanceof umi.GpaBuilder)
      return `gpa ${v.program} ${(v.options.filters ?? [])
        .map((f) => ('memcmp' in f ? `${f.memcmp.offset}:${Buffer.from(f.memcmp.bytes).toString('hex')}` : `size ${f.dataSize}`))
        .join(' ')}`;
    if (v instanceof Uint8Array || Array.isArray(v)) return `[${Array.from(v, show).join(',')}]`;
    if (v instanceof Error) return `error ${v.name} ${v.code} ${JSON.stringify(v.message)}`;
    if (typeof v === 'function') return 'function';
    return `{${Object.keys(v)
      .filter((k) => v[k] !== undefined)
      .sort()
      .map((k) => `${k}:${show(v[k])}`)
      .join(',')}}`;
  };
  const dropped = (v, names) => {
    if (Array.isArray(v)) return v.map((x) => dropped(x, names));
    if (v === null || typeof v !== 'object') return v;
    return Object.fromEntries(Object.entries(v).filter(([k]) => !names.includes(k)));
  };
  const out = fs.openSync(answers, 'w');
  for (const line of fs.readFileSync(requests, 'utf8').split('\n')) {
    if (line === '') continue;
    umi.internal.restart();
    let text;
    try {
      const request = JSON.parse(line);
      if (request.fee) FEE = request.fee;
      let v = value(request.eval, {});
      if (v instanceof Promise) v = await v;
      if (request.drop) v = dropped(v, request.drop);
      text = `ok ${request.hex ? Buffer.from(v).toString('hex') : show(v)}`;
    } catch (e) {
      text = e instanceof MissingStandIn ? `missing ${e.message}` : `error ${e && e.message}`;
    }
    fs.writeSync(out, `${text.replace(/\n/g, ' ')}\n`);
  }
  fs.closeSync(out);
}

esbuild
  .build({
    stdin: {
      contents: ['asset', 'proxy', 'bridge']
        .map((c) => `export * as ${c} from ${JSON.stringify(path.join(repo, 'clients/js', c, 'src/index.ts'))};`)
        .join('\n'),
      resolveDir: repo,
      loader: 'ts',
    },
    bundle: true,
    write: false,
    platform: 'node',
    format: 'cjs',
    target: 'node20',
    logLevel: 'silent',
    tsconfigRaw: '{}',
    plugins: [standIns],
  })
  .then((r) => {
    const m = new Module(path.join(__dirname, 'bundle.cjs'));
    m.filename = path.join(__dirname, 'bundle.cjs');
    m.paths = [];
    m._compile(r.outputFiles[0].text, m.filename);
    return main(m.exports);
  })
  .catch((e) => {
    console.error(`the clients cannot be bundled: ${e.message}`);
    process.exit(3);
  });
