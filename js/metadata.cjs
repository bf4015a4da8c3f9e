// Stand-in for '@metaplex-foundation/mpl-token-metadata'.
const { complete } = require('./missing.cjs');
const serializers = require('./serializers.cjs');

const ID = 'metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s';
const TokenStandard = {};
['NonFungible', 'FungibleAsset', 'Fungible', 'NonFungibleEdition', 'ProgrammableNonFungible', 'ProgrammableNonFungibleEdition'].forEach(
  (name, i) => {
    TokenStandard[name] = i;
    TokenStandard[i] = name;
  }
);
const text = (s) => new TextEncoder().encode(s);
const key = (k) => serializers.publicKey().serialize(k);
const program = (context) => context.programs.getPublicKey('mplTokenMetadata', ID);
const find = (context, seeds) => context.eddsa.findPda(program(context), [text('metadata'), key(program(context)), ...seeds]);

module.exports = complete('mpl-token-metadata', {
  TokenStandard,
  MPL_TOKEN_METADATA_PROGRAM_ID: ID,
  findMetadataPda: (context, { mint }) => find(context, [key(mint)]),
  findMasterEditionPda: (context, { mint }) => find(context, [key(mint), text('edition')]),
  findTokenRecordPda: (context, { mint, token }) => find(context, [key(mint), text('token_record'), key(token)]),
});
