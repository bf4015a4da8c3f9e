// Stand-in for '@metaplex-foundation/umi', written from its documented behaviour.
const { createHash } = require('node:crypto');
const { complete, MissingStandIn } = require('./missing.cjs');
const serializers = require('./serializers.cjs');

const { base58Encode, base58Decode, some, none, isOption } = serializers.internal;

const isPublicKey = (v) => typeof v === 'string' && v.length >= 32 && v.length <= 44 && base58Decode(v).length === 32;
const isPda = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
const isSigner = (v) => !!v && typeof v === 'object' && 'publicKey' in v && 'signMessage' in v;
const publicKey = (input, valid = true) => {
  const key =
    typeof input === 'string' ? input
    : typeof input === 'object' && 'publicKey' in input ? input.publicKey
    : typeof input === 'object' && 'toBase58' in input ? input.toBase58()
    : Array.isArray(input) ? input[0]
    : base58Encode(input);
  if (valid && !isPublicKey(key)) throw new Error(`The provided public key is invalid: ${key}`);
  return key;
};
const publicKeyBytes = (key) => base58Decode(key);
const defaultPublicKey = () => '11111111111111111111111111111111';
const samePublicKey = (a, b) => publicKey(a, false) === publicKey(b, false);

const isSome = (o) => o.__option === 'Some';
const isNone = (o) => o.__option === 'None';
const wrapNullable = (v) => (v !== null && v !== undefined ? some(v) : none());
const unwrapOption = (o, fallback) => (isSome(o) ? o.value : fallback ? fallback() : null);

class Signer {
  constructor(key) {
    this.publicKey = key;
  }
  signMessage() {
    throw new MissingStandIn('signMessage');
  }
  signTransaction() {
    throw new MissingStandIn('signTransaction');
  }
  signAllTransactions() {
    throw new MissingStandIn('signAllTransactions');
  }
}
const signer = (key) => {
  const s = new Signer(key);
  // own properties, as copies of a signer keep them
  for (const m of ['signMessage', 'signTransaction', 'signAllTransactions']) s[m] = Signer.prototype[m];
  return s;
};

// ---- addresses of programs ----
const P = (1n << 255n) - 19n;
const mod = (a) => ((a % P) + P) % P;
const pow = (b, e) => {
  let [r, x, n] = [1n, mod(b), e];
  while (n > 0n) {
    if (n & 1n) r = (r * x) % P;
    x = (x * x) % P;
    n >>= 1n;
  }
  return r;
};
const D = mod(-121665n * pow(121666n, P - 2n));
function onCurve(bytes) {
  let y = 0n;
  for (let i = 31; i >= 0; i -= 1) y = y * 256n + BigInt(i === 31 ? bytes[i] & 127 : bytes[i]);
  const yy = mod(y * y);
  const u = mod(yy - 1n);
  const v = mod(D * yy + 1n);
  if (u === 0n) return true;
  return pow(u * v, (P - 1n) / 2n) === 1n;
}
const found = new Map();
function findPda(program, seeds) {
  const id = `${program}/${seeds.map((s) => Buffer.from(s).toString('hex')).join('/')}`;
  if (found.has(id)) return [...found.get(id)];
  for (let bump = 255; bump >= 0; bump -= 1) {
    const h = createHash('sha256');
    for (const s of seeds) h.update(s);
    h.update(Uint8Array.of(bump));
    h.update(base58Decode(publicKey(program, false)));
    h.update('ProgramDerivedAddress');
    const out = new Uint8Array(h.digest());
    if (!onCurve(out)) {
      found.set(id, [base58Encode(out), bump]);
      return [base58Encode(out), bump];
    }
  }
  throw new Error('no address');
}

// ---- programs ----
class ProgramRepository {
  constructor(programs = [], bindings = new Map()) {
    this.programs = programs;
    this.bindings = bindings;
  }
  clone() {
    return new ProgramRepository([...this.programs], new Map(this.bindings));
  }
  add(program, overrides = true) {
    if (overrides) this.programs.unshift(program);
    else this.programs.push(program);
  }
  bind(name, key) {
    this.bindings.set(name, key);
  }
  unbind(name) {
    this.bindings.delete(name);
  }
  resolve(id) {
    const seen = [];
    let at = id;
    while (this.bindings.has(at)) {
      if (seen.includes(at)) throw new Error('circular binding');
      seen.push(at);
      at = this.bindings.get(at);
    }
    return at;
  }
  find(id) {
    const at = this.resolve(id);
    return this.programs.find((p) => p.name === at || p.publicKey === at) ?? null;
  }
  has(id) {
    return this.find(id) !== null;
  }
  get(id) {
    const p = this.find(id);
    if (!p) throw new Error(`The provided program name or key [${id}] is not registered`);
    return p;
  }
  all() {
    return [...this.programs];
  }
  getPublicKey(id, fallback) {
    const p = this.find(id);
    if (p) return p.publicKey;
    const at = this.resolve(id);
    if (isPublicKey(at)) return at;
    if (fallback === undefined) throw new Error(`The provided program name or key [${id}] is not registered`);
    return fallback;
  }
}
class ProgramError extends Error {
  constructor(message, program, cause) {
    super(message);
    this.program = program;
    this.cause = cause;
  }
}

// ---- transactions ----
const short = (n) => (n < 0x80 ? 1 : n < 0x4000 ? 2 : 3);
const LIMIT = 1232;
/** Size of a versioned transaction. */
function packet(items, fee) {
  const keys = new Map([[fee, true]]);
  for (const { instruction, signers } of items) {
    for (const k of instruction.keys) keys.set(k.pubkey, (keys.get(k.pubkey) ?? false) || k.isSigner);
    if (!keys.has(instruction.programId)) keys.set(instruction.programId, false);
    void signers;
  }
  const signed = [...keys.values()].filter(Boolean).length;
  let n = short(signed) + 64 * signed + 1 + 3 + short(keys.size) + 32 * keys.size + 32 + short(items.length) + 1;
  for (const { instruction } of items)
    n += 1 + short(instruction.keys.length) + instruction.keys.length + short(instruction.data.length) + instruction.data.length;
  return n;
}

const itemsOf = (input) => {
  const list = Array.isArray(input) ? input : [input];
  return list.flatMap((x) => ('items' in x ? x.items : [x]));
};
class TransactionBuilder {
  constructor(items = [], options = {}) {
    this.items = items;
    this.options = options;
  }
  empty() {
    return new TransactionBuilder([], this.options);
  }
  setItems(input) {
    return new TransactionBuilder(itemsOf(input), this.options);
  }
  prepend(input) {
    return new TransactionBuilder([...itemsOf(input), ...this.items], this.options);
  }
  append(input) {
    return new TransactionBuilder([...this.items, ...itemsOf(input)], this.options);
  }
  add(input) {
    return this.append(input);
  }
  mapInstructions(fn) {
    return new TransactionBuilder(this.items.map(fn), this.options);
  }
  addRemainingAccounts(metas, index) {
    const list = Array.isArray(metas) ? metas : [metas];
    const at = index ?? this.items.length - 1;
    const keys = list.map((m) =>
      'pubkey' in m ? m : { pubkey: m.signer.publicKey, isSigner: true, isWritable: m.isWritable }
    );
    const signers = list.flatMap((m) => ('pubkey' in m ? [] : [m.signer]));
    return this.mapInstructions((x, i) =>
      i === undefined || i !== at
        ? x
        : {
            ...x,
            instruction: { ...x.instruction, keys: [...x.instruction.keys, ...keys] },
            signers: [...x.signers, ...signers],
          }
    );
  }
  splitByIndex(index) {
    return [
      new TransactionBuilder(this.items.slice(0, index), this.options),
      new TransactionBuilder(this.items.slice(index), this.options),
    ];
  }
  unsafeSplitByTransactionSize(context) {
    return this.items.reduce(
      (builders, item) => {
        const last = builders[builders.length - 1];
        const longer = last.add(item);
        if (longer.fitsInOneTransaction(context)) builders[builders.length - 1] = longer;
        else builders.push(last.empty().add(item));
        return builders;
      },
      [this.empty()]
    );
  }
  setFeePayer(feePayer) {
    return new TransactionBuilder(this.items, { ...this.options, feePayer });
  }
  getFeePayer(context) {
    return this.options.feePayer ?? context.payer;
  }
  getInstructions() {
    return this.items.map((x) => x.instruction);
  }
  getTransactionSize(context) {
    return packet(this.items, this.getFeePayer(context).publicKey);
  }
  minimumTransactionsRequired(context) {
    return Math.ceil(this.getTransactionSize(context) / LIMIT);
  }
  fitsInOneTransaction(context) {
    return this.minimumTransactionsRequired(context) === 1;
  }
  getSigners(context) {
    const all = [this.getFeePayer(context), ...this.items.flatMap((x) => x.signers)];
    return all.filter((s, i) => all.findIndex((o) => o.publicKey === s.publicKey) === i);
  }
  getBytesCreatedOnChain() {
    return this.items.reduce((n, x) => n + x.bytesCreatedOnChain, 0);
  }
}
const transactionBuilder = (items = []) => new TransactionBuilder(items);

class TransactionBuilderGroup {
  constructor(builders = [], options = {}) {
    this.builders = builders;
    this.options = options;
  }
  prepend(input) {
    const list = Array.isArray(input) ? input : input instanceof TransactionBuilderGroup ? input.builders : [input];
    return new TransactionBuilderGroup([...list, ...this.builders], this.options);
  }
  append(input) {
    const list = Array.isArray(input) ? input : input instanceof TransactionBuilderGroup ? input.builders : [input];
    return new TransactionBuilderGroup([...this.builders, ...list], this.options);
  }
  add(input) {
    return this.append(input);
  }
  sequential() {
    return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: false });
  }
  parallel() {
    return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: true });
  }
  isParallel() {
    return this.options.parallel ?? false;
  }
  map(fn) {
    return new TransactionBuilderGroup(this.builders.map(fn), this.options);
  }
  filter(fn) {
    return new TransactionBuilderGroup(this.builders.filter(fn), this.options);
  }
  merge() {
    return this.builders.length === 0
      ? new TransactionBuilder()
      : this.builders.reduce((a, b) => a.add(b), this.builders[0].empty());
  }
}
const transactionBuilderGroup = (builders = []) => new TransactionBuilderGroup(builders);

// ---- accounts ----
const deserializeAccount = (raw, serializer) => {
  const { data, publicKey: key, ...rest } = raw;
  let parsed;
  try {
    [parsed] = serializer.deserialize(data);
  } catch (e) {
    if (e instanceof MissingStandIn) throw e;
    throw new Error(`The account at the provided address [${key}] is not of the expected type: ${e.message}`);
  }
  return { publicKey: key, header: rest, ...parsed };
};
const assertAccountExists = (account, name) => {
  if (!account.exists) throw new Error(`The account [${name}] was not found.`);
};

class GpaBuilder {
  constructor(context, program, options = {}) {
    this.context = context;
    this.program = program;
    this.options = options;
  }
  with(more) {
    return new GpaBuilder(this.context, this.program, { ...this.options, ...more });
  }
  registerFields(fields) {
    return this.with({ fields });
  }
  registerFieldsFromStruct() {
    throw new MissingStandIn('registerFieldsFromStruct');
  }
  deserializeUsing(deserializeCallback) {
    return this.with({ deserializeCallback });
  }
  where(offset, data) {
    const bytes = typeof data === 'string' ? base58Decode(data) : typeof data === 'number' || typeof data === 'bigint' || typeof data === 'boolean' ? Uint8Array.of(Number(data)) : Uint8Array.from(data);
    return this.with({ filters: [...(this.options.filters ?? []), { memcmp: { offset, bytes } }] });
  }
  whereField(name, data) {
    const field = this.options.fields?.[name];
    if (!field) throw new Error(`Field [${name}] is not defined in this GpaBuilder.`);
    return this.where(field[0], field[1].serialize(data));
  }
  whereSize(dataSize) {
    return this.with({ filters: [...(this.options.filters ?? []), { dataSize }] });
  }
  slice(offset, length) {
    return this.with({ dataSlice: { offset, length } });
  }
  withoutData() {
    return this.slice(0, 0);
  }
  sliceField(name, offset) {
    const field = this.options.fields[name];
    return this.slice(offset ?? field[0], field[1].fixedSize);
  }
  sortUsing(sortCallback) {
    return this.with({ sortCallback });
  }
  deserialize(accounts) {
    return accounts.map((a) => this.options.deserializeCallback(a));
  }
  async get() {
    const { filters, dataSlice, sortCallback } = this.options;
    const found = await this.context.rpc.getProgramAccounts(this.program, { filters, dataSlice });
    return sortCallback ? found.sort(sortCallback) : found;
  }
  async getAndMap(f) {
    return (await this.get()).map(f);
  }
  async getDeserialized() {
    return this.deserialize(await this.get());
  }
  async getPublicKeys() {
    return this.getAndMap((a) => a.publicKey);
  }
}
const gpaBuilder = (context, program) => new GpaBuilder(context, program);

const uniqueBy = (list, same) => list.reduce((all, x) => (all.some((y) => same(x, y)) ? all : [...all, x]), []);
const uniquePublicKeys = (keys) => uniqueBy(keys, (a, b) => a === b);
const unwrapOptionRecursively = (v, fallback = () => null) => {
  if (!v || typeof v !== 'object' || ArrayBuffer.isView(v)) return v;
  if (isOption(v)) return isSome(v) ? unwrapOptionRecursively(v.value, fallback) : fallback();
  if (Array.isArray(v)) return v.map((x) => unwrapOptionRecursively(x, fallback));
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unwrapOptionRecursively(x, fallback)]));
};

// ---- context ----
let made = 0;
/** A node that knows the given accounts: { address: { owner, data } }. */
const rpc = (accounts) => {
  const known = () => {
    if (!accounts) throw new MissingStandIn('rpc');
    return accounts;
  };
  const one = (key) => {
    const a = known()[key];
    if (!a) return { exists: false, publicKey: key };
    return {
      exists: true, publicKey: key, executable: false, owner: a.owner, rentEpoch: 0n,
      lamports: { basisPoints: 5n, identifier: 'SOL', decimals: 9 }, data: a.data,
    };
  };
  const matches = (data) => (f) => {
    if ('dataSize' in f) return data.length === f.dataSize;
    const want = Buffer.from(f.memcmp.bytes);
    return Buffer.from(data.subarray(f.memcmp.offset, f.memcmp.offset + want.length)).equals(want);
  };
  return {
    getAccount: async (key) => one(key),
    getAccounts: async (keys) => keys.map(one),
    accountExists: async (key) => one(key).exists,
    getProgramAccounts: async (program, { filters = [], dataSlice } = {}) => {
      if (dataSlice) throw new MissingStandIn('dataSlice');
      return Object.keys(known())
        .map(one)
        .filter((a) => a.owner === program && filters.every(matches(a.data)));
    },
  };
};
const generateSigner = (context) => signer(publicKey(context.eddsa.generateKeypair().publicKey, false));
const createSignerFromKeypair = (_context, pair) => signer(publicKey(pair.publicKey, false));
const createNoopSigner = (key) => signer(key);
const context = (identity, payer, programs, accounts) => ({
  identity: signer(identity),
  payer: signer(payer),
  programs: new ProgramRepository([...programs], new Map()),
  eddsa: {
    findPda,
    isOnCurve: (k) => onCurve(base58Decode(publicKey(k, false))),
    generateKeypair: () => {
      made += 1;
      const bytes = createHash('sha256').update(`signer ${made}`).digest();
      return { publicKey: base58Encode(bytes), secretKey: new Uint8Array(64) };
    },
    createKeypairFromFile: () => {
      throw new MissingStandIn('createKeypairFromFile');
    },
  },
  transactions: {
    getTransactionSize: () => {
      throw new MissingStandIn('transactions');
    },
  },
  rpc: rpc(accounts),
});
const restart = () => {
  made = 0;
};

module.exports = complete('umi', {
  TransactionBuilder, TransactionBuilderGroup, GpaBuilder, ProgramError,
  assertAccountExists, createNoopSigner, createSignerFromKeypair, defaultPublicKey, deserializeAccount, generateSigner, gpaBuilder,
  isNone, isOption, isPda, isPublicKey, isSigner, isSome, none, publicKey, publicKeyBytes, samePublicKey, some, transactionBuilder,
  transactionBuilderGroup, uniqueBy, uniquePublicKeys, unwrapOption, unwrapOptionRecursively, wrapNullable,
});
module.exports.internal = { signer, context, packet, restart, findPda };
