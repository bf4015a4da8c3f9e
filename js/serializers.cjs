// Stand-in for '@metaplex-foundation/umi/serializers', written from its documented behaviour.
const { complete } = require('./missing.cjs');

const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';

function base58Encode(bytes) {
  let zeros = 0;
  while (zeros < bytes.length && bytes[zeros] === 0) zeros += 1;
  let n = 0n;
  for (const b of bytes) n = n * 256n + BigInt(b);
  let s = '';
  while (n > 0n) {
    s = ALPHABET[Number(n % 58n)] + s;
    n /= 58n;
  }
  return '1'.repeat(zeros) + s;
}

function base58Decode(text) {
  let zeros = 0;
  while (zeros < text.length && text[zeros] === '1') zeros += 1;
  let n = 0n;
  for (const c of text) {
    const i = ALPHABET.indexOf(c);
    if (i < 0) throw new Error(`Expected a base58 string, got [${text}].`);
    n = n * 58n + BigInt(i);
  }
  const out = [];
  while (n > 0n) {
    out.unshift(Number(n % 256n));
    n /= 256n;
  }
  return Uint8Array.from([...new Array(zeros).fill(0), ...out]);
}

const mergeBytes = (arrays) => {
  const out = new Uint8Array(arrays.reduce((n, a) => n + a.length, 0));
  let at = 0;
  for (const a of arrays) {
    out.set(a, at);
    at += a.length;
  }
  return out;
};
const padBytes = (bytes, length) => {
  if (bytes.length >= length) return bytes;
  const out = new Uint8Array(length);
  out.set(bytes);
  return out;
};
const fixBytes = (bytes, length) => padBytes(bytes.slice(0, length), length);

const notEmpty = (what, buffer, offset) => {
  if (buffer.length <= offset) throw new Error(`Serializer [${what}] cannot deserialize empty buffers.`);
};
const enough = (what, slice, n) => {
  if (slice.length < n) throw new Error(`Serializer [${what}] expected ${n} bytes, got ${slice.length}.`);
};

const mapSerializer = (serializer, unmap, map) => ({
  description: serializer.description,
  fixedSize: serializer.fixedSize,
  maxSize: serializer.maxSize,
  serialize: (value) => serializer.serialize(unmap(value)),
  deserialize: (buffer, offset = 0) => {
    const [value, end] = serializer.deserialize(buffer, offset);
    return map ? [map(value, buffer, offset), end] : [value, end];
  },
});
const reverseSerializer = (serializer) => {
  if (serializer.fixedSize === null) throw new Error('Cannot reverse a serializer of variable size.');
  return {
    ...serializer,
    serialize: (value) => serializer.serialize(value).reverse(),
    deserialize: (bytes, offset = 0) => {
      const end = offset + serializer.fixedSize;
      return serializer.deserialize(mergeBytes([bytes.slice(0, offset), bytes.slice(offset, end).reverse(), bytes.slice(end)]), offset);
    },
  };
};
const fixSerializer = (serializer, size, description) => ({
  description: description ?? `fixed(${size}, ${serializer.description})`,
  fixedSize: size,
  maxSize: size,
  serialize: (value) => fixBytes(serializer.serialize(value), size),
  deserialize: (buffer, offset = 0) => {
    let part = buffer.slice(offset, offset + size);
    enough('fixSerializer', part, size);
    if (serializer.fixedSize !== null) part = fixBytes(part, serializer.fixedSize);
    const [value] = serializer.deserialize(part, 0);
    return [value, offset + size];
  },
});

const number = (name, size, { signed = false, float = false } = {}) => (options = {}) => {
  const little = (options.endian ?? 'le') === 'le';
  const big = size > 4 && !float;
  const bits = BigInt(size * 8);
  const min = signed ? -(1n << (bits - 1n)) : 0n;
  const max = signed ? (1n << (bits - 1n)) - 1n : (1n << bits) - 1n;
  return {
    description: options.description ?? name,
    fixedSize: size,
    maxSize: size,
    serialize: (value) => {
      const out = new Uint8Array(size);
      if (float) {
        const view = new DataView(out.buffer);
        if (size === 4) view.setFloat32(0, Number(value), little);
        else view.setFloat64(0, Number(value), little);
        return out;
      }
      if (typeof value !== 'bigint' && typeof value !== 'number') throw new TypeError(`Serializer [${name}]: ${value} is no number`);
      // as the typed views do
      let n = typeof value === 'bigint' ? value : Number.isFinite(value) ? BigInt(Math.trunc(value)) : 0n;
      if (big && typeof value === 'number' && !Number.isInteger(value)) throw new RangeError(`${value} is no integer`);
      if (value < min || value > max) throw new RangeError(`Serializer [${name}] expected number to be between ${min} and ${max}, got ${value}.`);
      n = BigInt.asUintN(size * 8, n);
      for (let i = 0; i < size; i += 1) {
        out[little ? i : size - 1 - i] = Number(n & 255n);
        n >>= 8n;
      }
      return out;
    },
    deserialize: (buffer, offset = 0) => {
      const part = buffer.slice(offset, offset + size);
      notEmpty(name, part, 0);
      enough(name, part, size);
      if (float) {
        const view = new DataView(part.buffer, part.byteOffset, size);
        return [size === 4 ? view.getFloat32(0, little) : view.getFloat64(0, little), offset + size];
      }
      let n = 0n;
      for (let i = 0; i < size; i += 1) n = n * 256n + BigInt(part[little ? size - 1 - i : i]);
      if (signed) n = BigInt.asIntN(size * 8, n);
      return [big ? n : Number(n), offset + size];
    },
  };
};
const u8 = number('u8', 1);
const u16 = number('u16', 2);
const u32 = number('u32', 4);
const u64 = number('u64', 8);
const u128 = number('u128', 16);
const i8 = number('i8', 1, { signed: true });
const i16 = number('i16', 2, { signed: true });
const i32 = number('i32', 4, { signed: true });
const i64 = number('i64', 8, { signed: true });
const i128 = number('i128', 16, { signed: true });
const f32 = number('f32', 4, { float: true });
const f64 = number('f64', 8, { float: true });

const utf8 = {
  description: 'utf8',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => new TextEncoder().encode(value),
  deserialize: (buffer, offset = 0) => [new TextDecoder().decode(buffer.slice(offset)).replace(/\u0000/g, ''), buffer.length],
};
const base58 = {
  description: 'base58',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => base58Decode(value),
  deserialize: (buffer, offset = 0) => [base58Encode(buffer.slice(offset)), buffer.length],
};
const base16 = {
  description: 'base16',
  fixedSize: null,
  maxSize: null,
  serialize: (value) => Uint8Array.from(Buffer.from(value, 'hex')),
  deserialize: (buffer, offset = 0) => [Buffer.from(buffer.slice(offset)).toString('hex'), buffer.length],
};

const string = (options = {}) => {
  const size = options.size ?? u32();
  const encoding = options.encoding ?? utf8;
  const description = options.description ?? 'string';
  if (size === 'variable') return { ...encoding, description };
  if (typeof size === 'number') return fixSerializer(encoding, size, description);
  return {
    description,
    fixedSize: null,
    maxSize: null,
    serialize: (value) => {
      const content = encoding.serialize(value);
      return mergeBytes([size.serialize(content.length), content]);
    },
    deserialize: (buffer, offset = 0) => {
      notEmpty('string', buffer, offset);
      const [n, start] = size.deserialize(buffer, offset);
      const content = buffer.slice(start, start + Number(n));
      enough('string', content, Number(n));
      const [value, used] = encoding.deserialize(content);
      return [value, start + used];
    },
  };
};

const bytes = (options = {}) => {
  const size = options.size ?? 'variable';
  const description = options.description ?? 'bytes';
  const raw = {
    description,
    fixedSize: null,
    maxSize: null,
    serialize: (value) => new Uint8Array(value),
    deserialize: (buffer, offset = 0) => {
      const part = buffer.slice(offset);
      return [part, offset + part.length];
    },
  };
  if (size === 'variable') return raw;
  if (typeof size === 'number') return fixSerializer(raw, size, description);
  return {
    ...raw,
    serialize: (value) => {
      const content = raw.serialize(value);
      return mergeBytes([size.serialize(content.length), content]);
    },
    deserialize: (buffer, offset = 0) => {
      notEmpty('bytes', buffer, offset);
      const [n, start] = size.deserialize(buffer, offset);
      const content = buffer.slice(start, start + Number(n));
      enough('bytes', content, Number(n));
      return [content, start + content.length];
    },
  };
};

const bool = (options = {}) => {
  const size = options.size ?? u8();
  return {
    description: options.description ?? 'bool',
    fixedSize: size.fixedSize,
    maxSize: size.fixedSize,
    serialize: (value) => size.serialize(value ? 1 : 0),
    deserialize: (buffer, offset = 0) => {
      notEmpty('bool', buffer, offset);
      const [value, end] = size.deserialize(buffer, offset);
      return [Number(value) === 1, end];
    },
  };
};

const unit = (options = {}) => ({
  description: options.description ?? 'unit',
  fixedSize: 0,
  maxSize: 0,
  serialize: () => new Uint8Array(),
  deserialize: (_b, offset = 0) => [undefined, offset],
});

const publicKey = (options = {}) => ({
  description: options.description ?? 'publicKey',
  fixedSize: 32,
  maxSize: 32,
  serialize: (value) => {
    const key =
      typeof value === 'string' ? value
      : Array.isArray(value) ? value[0]
      : value && value.publicKey ? value.publicKey
      : value && value.toBase58 ? value.toBase58()
      : value instanceof Uint8Array ? base58Encode(value)
      : null;
    if (key === null) throw new TypeError(`no public key: ${value}`);
    const out = base58Decode(key);
    if (out.length !== 32) throw new Error(`The provided public key is invalid: ${key}`);
    return out;
  },
  deserialize: (buffer, offset = 0) => {
    notEmpty('publicKey', buffer, offset);
    const part = buffer.slice(offset, offset + 32);
    enough('publicKey', part, 32);
    return [base58Encode(part), offset + 32];
  },
});

const some = (value) => ({ __option: 'Some', value });
const none = () => ({ __option: 'None' });
const isOption = (v) => !!v && typeof v === 'object' && (v.__option === 'None' || (v.__option === 'Some' && 'value' in v));

const option = (item, options = {}) => {
  const prefix = options.prefix ?? u8();
  return {
    description: options.description ?? `option(${item.description})`,
    fixedSize: item.fixedSize === 0 ? prefix.fixedSize : null,
    maxSize: null,
    serialize: (value) => {
      const o = isOption(value) ? value : value === null || value === undefined ? none() : some(value);
      const head = prefix.serialize(o.__option === 'Some' ? 1 : 0);
      if (o.__option === 'Some') return mergeBytes([head, item.serialize(o.value)]);
      return options.fixed ? mergeBytes([head, new Uint8Array(item.fixedSize)]) : head;
    },
    deserialize: (buffer, offset = 0) => {
      if (buffer.length <= offset) return [none(), offset];
      const [flag, start] = prefix.deserialize(buffer, offset);
      if (Number(flag) === 0) return [none(), options.fixed ? start + item.fixedSize : start];
      const [value, end] = item.deserialize(buffer, start);
      return [some(value), end];
    },
  };
};
const nullable = (item, options = {}) => {
  const inner = option(item, options);
  return mapSerializer(
    inner,
    (v) => (v === null || v === undefined ? none() : some(v)),
    (o) => (o.__option === 'Some' ? o.value : null)
  );
};

const sum = (sizes) => sizes.reduce((a, b) => (a === null || b === null ? null : a + b), 0);

const array = (item, options = {}) => {
  const size = options.size ?? u32();
  return {
    description: options.description ?? `array(${item.description})`,
    fixedSize: typeof size === 'number' && item.fixedSize !== null ? size * item.fixedSize : null,
    maxSize: null,
    serialize: (value) => {
      if (typeof size === 'number' && value.length !== size) throw new Error(`Expected [array] to have ${size} items, got ${value.length}.`);
      const head = typeof size === 'object' ? [size.serialize(value.length)] : [];
      return mergeBytes([...head, ...Array.from(value, (v) => item.serialize(v))]);
    },
    deserialize: (buffer, offset = 0) => {
      if (typeof size === 'object' && buffer.length <= offset) return [[], offset];
      const values = [];
      let at = offset;
      if (size === 'remainder') {
        while (at < buffer.length) {
          const [value, end] = item.deserialize(buffer, at);
          if (end <= at) throw new Error('no progress');
          values.push(value);
          at = end;
        }
        return [values, at];
      }
      let n = size;
      if (typeof size === 'object') [n, at] = size.deserialize(buffer, offset);
      for (let i = 0; i < Number(n); i += 1) {
        const [value, end] = item.deserialize(buffer, at);
        values.push(value);
        at = end;
      }
      return [values, at];
    },
  };
};
const set = (item, options = {}) => mapSerializer(array(item, options), (v) => [...v], (v) => new Set(v));
const tuple = (items, options = {}) => ({
  description: options.description ?? 'tuple',
  fixedSize: sum(items.map((i) => i.fixedSize)),
  maxSize: sum(items.map((i) => i.maxSize)),
  serialize: (value) => {
    if (value.length !== items.length) throw new Error(`Expected [tuple] to have ${items.length} items, got ${value.length}.`);
    return mergeBytes(items.map((item, i) => item.serialize(value[i])));
  },
  deserialize: (buffer, offset = 0) => {
    let at = offset;
    const values = items.map((item) => {
      const [value, end] = item.deserialize(buffer, at);
      at = end;
      return value;
    });
    return [values, at];
  },
});
const map = (key, value, options = {}) => mapSerializer(array(tuple([key, value]), options), (m) => [...m.entries()], (m) => new Map(m));

const struct = (fields, options = {}) => ({
  description: options.description ?? 'struct',
  fixedSize: sum(fields.map(([, s]) => s.fixedSize)),
  maxSize: sum(fields.map(([, s]) => s.maxSize)),
  serialize: (value) => mergeBytes(fields.map(([key, s]) => s.serialize(value[key]))),
  deserialize: (buffer, offset = 0) => {
    const out = {};
    let at = offset;
    for (const [key, s] of fields) {
      const [value, end] = s.deserialize(buffer, at);
      out[key] = value;
      at = end;
    }
    return [out, at];
  },
});

const dataEnum = (variants, options = {}) => {
  const prefix = options.size ?? u8();
  return {
    description: options.description ?? 'dataEnum',
    fixedSize: null,
    maxSize: null,
    serialize: (variant) => {
      const i = variants.findIndex(([key]) => variant.__kind === key);
      if (i < 0) throw new Error(`Invalid data enum variant: ${variant.__kind}`);
      return mergeBytes([prefix.serialize(i), variants[i][1].serialize(variant)]);
    },
    deserialize: (buffer, offset = 0) => {
      notEmpty('dataEnum', buffer, offset);
      const [n, start] = prefix.deserialize(buffer, offset);
      const found = variants[Number(n)];
      if (!found) throw new Error(`Enum discriminator out of range: ${n}`);
      const [value, end] = found[1].deserialize(buffer, start);
      return [{ __kind: found[0], ...(value ?? {}) }, end];
    },
  };
};

const scalarEnum = (constructor, options = {}) => {
  const prefix = options.size ?? u8();
  const keys = Object.keys(constructor);
  const values = Object.values(constructor);
  const numeric = values.some((v) => typeof v === 'number');
  const max = numeric ? values.length / 2 - 1 : values.length - 1;
  const strings = numeric ? keys : [...new Set([...keys, ...values])];
  return {
    description: options.description ?? 'scalarEnum',
    fixedSize: prefix.fixedSize,
    maxSize: prefix.maxSize,
    serialize: (value) => {
      if ((typeof value === 'number' && (value < 0 || value > max)) || (typeof value === 'string' && !strings.includes(value)))
        throw new Error(`Invalid scalar enum variant: ${value}`);
      if (typeof value === 'number') return prefix.serialize(value);
      const i = values.indexOf(value);
      if (i >= 0) return prefix.serialize(i);
      const k = keys.indexOf(value);
      if (k < 0) throw new Error(`Invalid scalar enum variant: ${String(value)}`);
      return prefix.serialize(k);
    },
    deserialize: (buffer, offset = 0) => {
      notEmpty('enum', buffer, offset);
      const [n, end] = prefix.deserialize(buffer, offset);
      const i = Number(n);
      if (i < 0 || i > max) throw new Error(`Enum discriminator out of range: ${i}`);
      return [numeric ? i : values[i], end];
    },
  };
};

module.exports = complete('umi/serializers', {
  array, base16, base58, bool, bytes, dataEnum, f32, f64, fixBytes, fixSerializer, i128, i16, i32, i64, i8, map, mapSerializer,
  mergeBytes, nullable, option, padBytes, publicKey, reverseSerializer, scalarEnum, set, string, struct, tuple, u128, u16, u32, u64,
  u8, unit, utf8,
});
module.exports.internal = { base58Encode, base58Decode, some, none, isOption };
