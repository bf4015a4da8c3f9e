// Names that the stand-ins do not provide. Using one makes a case undecided, never a violation.
class MissingStandIn extends Error {
  constructor(name) {
    super(name);
    this.name = 'MissingStandIn';
  }
}
function missing(name) {
  const fail = () => {
    throw new MissingStandIn(name);
  };
  return new Proxy(function () {}, {
    apply: fail,
    construct: fail,
    get: (t, k) => (k === 'prototype' || typeof k === 'symbol' ? t[k] : missing(`${name}.${String(k)}`)),
  });
}
/** Gives `exports` a prototype on which every other name is a stand-in that is missing. */
function complete(module, exports) {
  const any = new Proxy(
    {},
    {
      get: (_, k) => (typeof k === 'symbol' || k === '__esModule' || k === 'then' ? undefined : missing(`${module}: ${k}`)),
    }
  );
  return Object.assign(Object.create(any), exports);
}
module.exports = { MissingStandIn, missing, complete };
