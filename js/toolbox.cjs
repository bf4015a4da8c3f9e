// Stand-in for '@metaplex-foundation/mpl-toolbox'.
const { complete } = require('./missing.cjs');
const serializers = require('./serializers.cjs');

const key = (k) => serializers.publicKey().serialize(k);
module.exports = complete('mpl-toolbox', {
  findAssociatedTokenPda: (context, { mint, owner, tokenProgramId }) =>
    context.eddsa.findPda(context.programs.getPublicKey('splAssociatedToken', 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL'), [
      key(owner),
      key(tokenProgramId ?? context.programs.getPublicKey('splToken', 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA')),
      key(mint),
    ]),
});
