import json
P=[]
A='programs/asset/program/src/processor/'
T='programs/asset/types/src/'
def p(id,title,stmt,over,qt,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
RT="The repository's unit tests only build and parse single in-memory values; no test in the offline suite executes an instruction, and the JavaScript scenarios sample one hand-written history each."
p('P01','Ownership changes only by an authorised transfer',
 "The recorded owner of an existing asset changes only through a transfer that is signed by the current owner, or by the current delegate or the manager while that party holds the transfer role, and the new owner is exactly the recipient named in it. Soulbound assets never change owner. A transfer to a different owner clears the delegate, a transfer to the current owner changes nothing at all, and every transfer that meets these rules (and the lock and royalty rules) succeeds.",
 ['histories','inputs'],"every sequence of instructions by any set of signers, for every standard, delegate and role combination, over any account arrangement",RT,
 [A+'transfer.rs','programs/asset/program/src/utils.rs',T+'state/delegate.rs'],
 [('signer must be owner or role-holding delegate/manager',A+'transfer.rs:process_transfer'),('delegate and role matching','programs/asset/program/src/utils.rs:assert_delegate')],
 ['owner and delegate fields of the asset account after each instruction'],None,[('owner','holder of the asset',T+'state/asset.rs'),('delegate','address + role mask',T+'state/delegate.rs')])
p('P02','A locked asset cannot be moved, burned or re-delegated until unlocked',
 "While an asset is locked, no instruction changes its owner or its delegate, locks it again or burns it, whoever signs; the lock disappears only through an unlock. Locking and unlocking need the signature of the delegate holding the lock role when a delegate is set, of the owner when none is set, or of the manager holding the lock role; nobody else can change the lock state, and these parties always can.",
 ['histories','inputs'],"every instruction sequence with every signer from every lock/delegate/manager state",RT,
 [A+'mod.rs',A+'lock.rs',A+'unlock.rs','programs/asset/program/src/utils.rs'],
 [('locked accounts veto approve/burn/lock/revoke/transfer',A+'mod.rs:validate_access'),('lock role check',A+'lock.rs, '+A+'unlock.rs')],['state byte, owner, delegate and existence of the asset account'])
p('P03','Delegation follows the owner: grant, extend, replace, revoke, expire',
 "Only the owner's signature can set a delegate or give it roles: approving the current delegate again adds the named roles, approving another address replaces it, and the roles recorded are exactly the ones granted. Only the owner or the delegate itself can revoke; revoking named roles removes exactly those and clears the delegate when none is left, and revoking everything clears it. A delegate's (or manager's) power is exactly the actions of its roles, on any standard, and ends when it is revoked, replaced or the asset changes owner.",
 ['histories','inputs'],"every sequence of approve/revoke/transfer/lock/burn with every role subset and signer",RT,
 [A+'approve.rs',A+'revoke.rs',A+'transfer.rs',A+'burn.rs','programs/asset/program/src/utils.rs',T+'state/delegate.rs'],
 [('roles mask arithmetic',T+'state/delegate.rs'),('approve/revoke',A+'approve.rs, '+A+'revoke.rs'),('role check of each action','programs/asset/program/src/utils.rs:assert_delegate')],['delegate address and role mask','which actions the delegate can perform'])
p('P04','Only the authority edits an asset, and an immutable asset is frozen',
 "An asset's name, mutability flag, extensions, account size and authority change only in an instruction signed by the current authority, with two exceptions that have their own signers: a creator's verified flag and group membership counts. Once an asset is marked immutable none of these can be changed by anyone again, including the flag itself and the authority. A handover needs both the old and the new authority's signature and afterwards only the new one has these powers; an authorised edit of a mutable asset takes effect exactly as requested.",
 ['histories','inputs'],"every instruction sequence by every signer set, including after handover and after freezing",RT,
 [A+'update.rs',A+'remove.rs',A+'resize.rs',A+'handover.rs'],
 [('authority signature and mutability check',A+'update.rs, remove.rs, resize.rs, handover.rs')],['name, mutable, authority, extension bytes and length of the asset account'])
p('P05','Extension storage stays well-formed and edits touch only their target',
 "After any history of creating, adding, growing, shrinking, replacing, removing and resizing, the extension area of an asset is a gap-free, 8-byte aligned chain of distinct extensions that ends inside the account, and every extension is readable under its type. Adding, updating or removing one extension, or trimming or extending the account, gives that extension the requested content and leaves the content and presence of every other extension byte for byte unchanged, wherever it sits and whatever spare room the account has. A failed edit leaves everything unchanged.",
 ['histories','inputs'],"every order, size (all alignments) and mix of extension edits, through instruction data or a buffer, with any spare space at the end",
 RT+" Offsets depend on the whole edit history, so sampled layouts cannot settle it.",
 [A+'update.rs',A+'remove.rs',A+'resize.rs',A+'allocate.rs',A+'create.rs',T+'state/asset.rs',T+'extensions/mod.rs'],
 [('move bytes and rewrite boundaries',A+'update.rs, '+A+'remove.rs'),('chain walk',T+'state/asset.rs')],['decoded chain of (type, content) from raw account bytes'],None,[('extension header','type, length, boundary',T+'extensions/mod.rs')])
p('P06','A group counts exactly its members, within its limit',
 "At every moment a group's recorded size equals the number of existing assets that name it as their group and, when a maximum is set, never exceeds it; the limit can never be lowered below the size and the size can never be set directly. An asset joins a group only while in no group, when both share the same authority and the group's authority or its grouping delegate signs, and leaves only with such a signature or by being burned. A group that has members cannot be burned, nor lose its grouping data.",
 ['histories','inputs'],"every sequence of group, ungroup, create-in-group, burn, update, remove and handover over several groups and assets and every signer",RT,
 [A+'group.rs',A+'ungroup.rs',A+'create.rs',A+'burn.rs',A+'remove.rs',T+'extensions/grouping.rs'],
 [('size increment/decrement',A+'group.rs, ungroup.rs, burn.rs'),('size preserved and max >= size',T+'extensions/grouping.rs:on_update')],['size/max/delegate of every group and group field of every asset'])
p('P07','Creators: verification needs the creator, and shares add up to 100',
 "A creator's verified flag becomes true only when that creator signs a verification, or when it is the authority under which the creator list is created or the creator is added, and becomes false only when the creator signs; data supplied by others can never set or clear it. Replacing the list keeps each remaining creator's flag and can never drop a verified creator. In every list ever stored on an asset the shares add up to exactly 100.",
 ['histories','inputs'],"every sequence of create, update (inline, from a buffer or empty), verify and unverify over all lists of up to three creators, all share splits and all claimed flags",RT,
 [T+'extensions/creators.rs',A+'verify.rs',A+'unverify.rs',A+'update.rs',A+'create.rs'],
 [('creation/update callbacks',T+'extensions/creators.rs:Lifecycle'),('signature check',A+'verify.rs, '+A+'unverify.rs')],['creator entries on the asset account'])
p('P08','Royalty rules decide every transfer that is not wallet-to-wallet',
 "A transfer of an asset that carries royalty rules succeeds only if its rule accepts the asset, signer and recipient involved, unless it is issued directly (not from another program) and both signer and recipient are plain wallets; without rules of its own, a grouped asset obeys those of its group, and the true group account must be supplied. The rule never blocks a transfer it accepts. Royalty rates above 100% are never stored.",
 ['inputs','histories'],"every rule built from the constraint language up to a depth, every kind of signer and recipient account, direct or cross-program, own or group rules, any group account supplied",RT,
 [A+'transfer.rs','programs/asset/program/src/utils.rs',T+'extensions/royalties.rs',T+'constraints/mod.rs'],
 [('process_royalties','programs/asset/program/src/utils.rs'),('group lookup',A+'transfer.rs')],['success or failure of the transfer and the resulting owner'])
p('P09','Constraint rules mean what their builders say',
 "Every rule composed from the constraint builders (ownership, key match, and, or, not, empty) is stored as bytes that read back as the same rule, occupy exactly the declared size at any nesting, and re-encode to the same bytes. Evaluating the stored rule gives the logical value of the composed rule for every asset, signer and recipient: all members for 'and', at least one for 'or', negation for 'not', always true for 'empty', membership in the listed keys for the other two (ownership only counting accounts that hold data). A rule that refers to an account that is not available is an error, not a pass.",
 ['inputs'],"every rule tree up to depth and width bounds over every assignment of accounts",RT,
 [T+'constraints/and.rs',T+'constraints/or.rs',T+'constraints/not.rs',T+'constraints/owned_by.rs',T+'constraints/pubkey_match.rs',T+'constraints/mod.rs',T+'constraints/empty.rs'],
 [('parse',T+'constraints/mod.rs:Constraint::from_bytes'),('evaluate','Assertable::assert of each type'),('build','ConstraintBuilder of each type')],['verdict of the stored rule; round-trip bytes'])
p('P10','A standard and its special extensions always go together',
 "A managed asset always carries a manager and no other standard ever does; a proxied asset always carries proxy data whose program, seeds and bump derive the asset's own address, and no other standard ever does. The standard never changes after creation, the derivation data never changes, and no instruction can add or remove these two extensions after creation.",
 ['histories','inputs'],"every creation request (all standards by all extension sets, inline or pre-allocated) followed by any edits",RT,
 [A+'create.rs',A+'update.rs',A+'remove.rs',T+'extensions/proxy.rs',T+'extensions/manager.rs'],
 [('creation requirements',A+'create.rs'),('add/remove refusals',A+'update.rs:validate, '+A+'remove.rs'),('immutable derivation',T+'extensions/proxy.rs:on_update')],['standard byte and manager/proxy extensions of every asset'])
p('P11','A proxied asset acts only through its program',
 "Once a proxied asset exists, no instruction that acts on it succeeds unless the asset's own address signs, which only the program that derives it can do. The forwarding interface passes every instruction on with the same meaning, accounts and signers, adding only the asset's signature in the asset position; it never lets the asset's signature stand in for an owner, delegate, authority or creator that did not sign.",
 ['histories','inputs'],"every instruction, direct or forwarded through a proxy program, with every signer set and every placement of the asset among the accounts",RT,
 [A+'mod.rs','programs/asset/interface/src/interface.rs','programs/asset/interface/src/processor.rs'],
 [('first account must sign when proxied',A+'mod.rs:validate_access'),('signature forwarding','programs/asset/interface/src/interface.rs')],['outcome and state of direct and forwarded instructions'],'call the proxy program natively')
p('P12','Lamports are never lost, and nobody pays without signing',
 "Every instruction conserves the total lamports, leaves every asset or buffer account it keeps rent-exempt, and never takes lamports from an account that did not sign as payer, other than releasing what an asset or buffer account itself holds. Released lamports go to the recipient or payer named in the instruction and nowhere else, a payer is charged no more than the missing rent, and shrinking an account returns the rent no longer needed.",
 ['histories','inputs'],"every instruction from every reachable state, every choice of payer/recipient (including aliases of other accounts) and every over- or under-funded account",RT,
 [A+'mod.rs','programs/asset/program/src/utils.rs',A+'create.rs',A+'allocate.rs'],
 [('resize funding/refund',A+'mod.rs:resize'),('close','programs/asset/program/src/utils.rs:close_program_account')],['lamports of every account before and after'])
p('P13','Building in pieces equals building at once',
 "An asset built through any sequence of allocations and chunked writes into a buffer has exactly the extension contents it would have if created in a single instruction, whatever the chunk sizes, rewrites and alignment. Writes never exceed the declared length of the extension being written, never alter any other extension and only work on uninitialised buffers signed by their key; an incomplete extension can be neither followed by another nor turned into an asset. An update taken from a buffer has the same effect and the same refusals as one with inline data.",
 ['histories','inputs'],"every split of every small extension list into allocate/append/overwrite steps, with any interruption point",RT,
 [A+'allocate.rs',A+'write.rs',A+'create.rs',A+'update.rs'],
 [('offset/expected/boundary arithmetic',A+'write.rs, '+A+'allocate.rs'),('validation on completion',A+'create.rs')],['decoded buffer and created asset'])
p('P14','Burning and closing destroy exactly one account, for those entitled',
 "An asset is destroyed only by a burn signed by its owner, or its delegate or manager holding the burn role, and a buffer only by a close signed by the buffer key; an initialised asset can never be closed as a buffer. Destruction empties the account completely, so that nothing of the old asset survives even if the address is funded again in the same transaction, and pays the whole balance to the named recipient (the signer if none). Every entitled burn of an unlocked asset that is no populated group succeeds.",
 ['histories','inputs'],"every burn/close attempt by every signer in every state, including refunding within the same transaction and re-creating afterwards",RT,
 [A+'burn.rs',A+'close.rs','programs/asset/program/src/utils.rs'],
 [('close_program_account','programs/asset/program/src/utils.rs'),('burn authority',A+'burn.rs')],['account existence, data, owner and lamports'])
p('P15','Bridge custody: token and asset are never both free',
 "For every bridged mint, the original token and its bridged asset are never both free: the bridge releases the asset to a user only in the same step that places that user's token in the vault, and releases the token only in the same step that takes the asset back from its holder into the vault. The recorded vault state always agrees with where the token and the asset are: an idle vault holds the asset, an active vault holds the token. Each direction works whenever its preconditions hold, returns the token to whoever gives up the asset, and neither direction works without the signature of the holder (or of the asset's transfer delegate) or with accounts of another mint.",
 ['histories','inputs'],"every sequence of bridge operations, transfers of tokens and assets between users, and account substitutions over two mints",RT,
 ['programs/bridge/src/processor/bridge.rs','programs/bridge/src/state/vault.rs'],
 [('vault state toggle','programs/bridge/src/processor/bridge.rs')],['token accounts, asset owner and vault state'],'call the bridge program natively')
p('P16','Bridge creation is authorised and faithful',
 "A bridged asset is created only for a non-fungible mint with matching metadata, once per mint, for an item of a verified collection only after that collection has been bridged, and for any other token only with the signature of the metadata's update authority. The created asset repeats the original's name, symbol and uri (null padding aside) and its creators with their shares, verifies no creator that was not verified other than the update authority, keeps the update authority, and is owned by the vault, which starts out idle. A collection becomes a group without members, and a programmable collection carries its royalty rate with a rule that lets every transfer pass; whenever these conditions hold, creation succeeds.",
 ['inputs','histories'],"every combination of metadata fields, standards, collection links and signers",RT,
 ['programs/bridge/src/processor/create.rs'],[('metadata validation and extension building','programs/bridge/src/processor/create.rs')],['created asset and vault accounts'],'call the bridge program natively')
p('P17','The example proxy counts transfers and guards its updates',
 "An asset made by the example proxy program shows, after any history, exactly the number of transfers completed through the proxy and the time of the last one. Its metadata changes only with the signature of the proxy authority chosen at creation, and every instruction it forwards behaves as the same instruction on an ordinary asset with the same signers.",
 ['histories','inputs'],"every instruction sequence through the proxy program by every signer",RT,
 ['programs/proxy/src/processor/create.rs','programs/proxy/src/processor/transfer.rs','programs/proxy/src/processor/update.rs','programs/proxy/src/processor/mod.rs'],
 [('counter update','programs/proxy/src/processor/transfer.rs'),('authority check','programs/proxy/src/processor/update.rs')],['attributes/properties of the proxied asset'],'call the proxy program natively')
p('P18','A client mint plan always executes and fits the wire',
 "For every list of extensions the client mint helper produces a sequence of instructions that, executed in order, creates exactly the requested asset with the requested extensions and contents. Each instruction of the plan fits, with its signatures and accounts, into one transaction packet. Helper calls that write extension data in chunks from inside another program likewise deliver exactly the given bytes, within the growth of an account that one instruction may cause.",
 ['inputs'],"every extension count and data size around every chunk boundary, with and without optional accounts",RT,
 ['clients/rust/asset/src/mint.rs','programs/asset/interface/src/lib.rs','clients/rust/asset/src/impls.rs'],
 [('chunking arithmetic','clients/rust/asset/src/mint.rs')],['resulting asset account; serialized transaction size'])
p('P19','Extension values read back exactly as built',
 "For every extension type, whatever values within the limits of its format (strings of up to 255 bytes) are put in through its builder are returned unchanged by its reader, at any position inside an account and beside extensions of types unknown to the library, through every lookup it offers, and modifying values in place through the mutable view changes exactly those values. Building with a reused buffer, building twice and reporting the length agree with the bytes produced.",
 ['inputs'],"every combination of field values drawn from boundary domains (lengths, counts, option presence, types), for every extension, and every position in an extension list",RT,
 [T+'extensions/'+x for x in ['attributes.rs','blob.rs','bucket.rs','creators.rs','grouping.rs','links.rs','manager.rs','metadata.rs','properties.rs','proxy.rs','royalties.rs']]+[T+'state/asset.rs'],
 [('builders and zero-copy readers',T+'extensions/'),('lookups',T+'state/asset.rs')],['builder/reader API'])
p('P20','Program, interface and Rust client speak the same instructions',
 "Every instruction and argument value encodes to the same bytes in the client and the interface library and is decoded by the program as that instruction with those arguments; account order, signer and writable flags, and the placeholder for an omitted optional account are what the program needs. The bridge client and the bridge program likewise agree, and the numbers of states, standards, roles, extension types and errors mean the same in all of them. Accounts written by the programs are decoded by the clients into the same field values, and bytes that are not a valid instruction are rejected without effect.",
 ['inputs'],"every instruction with every presence pattern of optional accounts and every argument shape; every one-byte prefix/corruption of instruction data",RT,
 ['clients/rust/asset/src/generated','programs/asset/interface/src/generated','programs/asset/program/src/instruction.rs','clients/rust/asset/src/impls.rs','clients/rust/asset/src/hooked'],
 [('codegen builders','clients/rust/asset/src/generated/instructions'),('Shank instruction enum','programs/asset/program/src/instruction.rs')],['instruction bytes, account metas and program effects'])
p('P21','Substituted accounts are refused',
 "No instruction takes effect when an account it relies on is not the genuine one: an account of another program that imitates an asset, group or buffer, an uninitialised buffer or empty account in place of an asset or group, an asset in place of a buffer, a different group than the recorded one, or a missing signature. Repeating the same account in several positions never grants more than supplying distinct ones. In all these cases the instruction fails and nothing changes.",
 ['inputs','configurations'],"every instruction times every substitution of each account position by every account of a world, with every signer/writable flag pattern",RT,
 ['programs/asset/program/src/processor/'+x for x in ['mod.rs','group.rs','ungroup.rs','burn.rs','transfer.rs','update.rs','verify.rs','write.rs','allocate.rs','close.rs','create.rs']],
 [('owner/discriminator/signature requirements','first lines of every processor')],['all accounts before and after'])
p('P22','Creation records exactly what was asked, once per address',
 "A created asset has exactly the requested name, standard, mutability, owner, authority, group and extension contents, is unlocked, and has no delegate; creation needs the signature of the new address and never succeeds on an address that already holds an asset, nor ever alters one. Two extensions of the same type, unknown types, incomplete data and data breaking the rules of its type are refused.",
 ['inputs','histories'],"every creation request shape (standards, names of every length class, extension lists and orders, optional accounts) on fresh, funded, pre-allocated and occupied addresses",RT,
 [A+'create.rs',A+'allocate.rs',A+'group.rs',T+'state/asset.rs'],
 [('initialisation',A+'create.rs')],['decoded asset account after creation'])
p('P23','The JavaScript clients speak the format of the programs',
 "Every instruction builder of the JavaScript clients, for every choice of arguments, of given and left out accounts and of a proxy, produces the program address, accounts with signer and writable flags, and data which the program reads as that instruction with those arguments. Extension and constraint values, whole asset and vault accounts (with legacy extensions, unknown extensions and spare bytes at the end), enumeration numbers, error codes, derived addresses and account filters mean in the JavaScript clients exactly what they mean in the programs. What the programs accept as an asset is read, what is not an asset is refused.",
 ['inputs'],"every builder with every subset of accounts and argument shape; every extension value of a boundary domain alone, in pairs and all together; every header field combination",RT,
 ['clients/js/asset/src','clients/js/bridge/src','clients/js/proxy/src'],
 [('hand-written serializers and wrappers','clients/js/asset/src/hooked, extensions, constraints'),('generated builders','clients/js/*/src/generated')],['instructions built, bytes written and values read by the JavaScript clients'])
p('P24','Plans of the JavaScript client arrive whole',
 "Whatever the extensions and their sizes, the transactions which the JavaScript client's mint, initialize, write and updateWithBuffer produce, executed in order, leave the target with exactly the requested contents and nothing else changed. Each transaction fits a packet of 1232 bytes with its signatures, each is signed only by the parties the caller named, and no buffer account or lamports stay behind. This holds for direct and proxied assets, with every chunk size, payer and replaced value.",
 ['inputs'],"every extension type and sizes around every chunk and packet boundary, alone and in pairs, with every choice of optional inputs",RT,
 ['clients/js/asset/src/mint.ts','clients/js/asset/src/initialize.ts','clients/js/asset/src/write.ts','clients/js/asset/src/updateWithBuffer.ts'],
 [('chunking and ordering','clients/js/asset/src/write.ts')],['accounts after executing the plan on the real program'])
p('P25','The published interface descriptions describe the programs',
 "Instruction data put together from any of the published IDL files (Shank and Codama dialect, and the Codama IDL embedded in the asset program), for every instruction and argument value, is what the program reads as that instruction with those arguments, including arguments left to their documented default. The account lists in them have the order, names, signer, writable and optional marks, and stand-in for an absent account, that the programs use; enumeration numbers, error codes, names and texts, and program addresses are those of the programs. The layouts they give for the asset account, the extension headers and the stored extensions are the bytes which the program and its library write.",
 ['inputs'],"every instruction and argument shape, every described type with boundary values, every account list, every error and number, of every description",RT,
 ['idls','programs/asset/program/src/instruction.rs','programs/asset/program/src/error.rs','programs/asset/types/src','programs/asset/interface/src','programs/bridge/src/instruction.rs','programs/proxy/src/instruction.rs'],
 [('IDL files','idls/*.json'),('Shank annotations','programs/*/src/instruction.rs')],['instruction bytes and account bytes a reader of the IDL derives'])
p('P26','The IDL embedded in a program binary is read back',
 "Whatever JSON document is compressed with the IDL library and embedded under either IDL type, parsing the program binary returns exactly that document and type, wherever in the file and in whatever order of sections it lies, and whatever other sections are there. A binary that lacks the type or the data section gives an error, and a binary that is cut off, or with a damaged byte in its IDL data, never gives another document. The IDL statics of the asset program hold its Codama IDL, readable that way.",
 ['inputs'],"every order and placement of the sections, document sizes from two bytes to megabytes, every truncation point and damaged data byte of small binaries, both types in every spelling",RT,
 ['include-idl/src/lib.rs','include-idl/src/parse.rs','include-idl/src/shrink.rs','programs/asset/program/build.rs','programs/asset/program/src/lib.rs'],
 [('section lookup','include-idl/src/parse.rs'),('compression','include-idl/src/shrink.rs')],['document and type returned for a binary'])
p('P27','The JSON forms of the Rust clients keep every value',
 "Every account, instruction argument and extension value of the Rust clients that is written as JSON (fields and variants under their names, keys in base58, optional keys as bytes) and read back is the same value with the same bytes. An asset file in JSON is read as exactly the name, standard, mutability, owner and extensions it states, whichever kinds of extension values it holds and in whatever order, and each value turns into the bytes of its extension. JSON that describes none of the kinds (a field missing or of another type, a number out of range, an invalid key, a list mixing kinds) is refused.",
 ['inputs'],"every type with every variant and boundary field values; asset files with every extension value of a domain alone, in pairs and all together, and every file damaged or shortened in any one place",RT,
 ['clients/rust/asset/src/mint.rs','clients/rust/asset/src/generated/types','clients/rust/asset/src/generated/accounts','clients/rust/asset/src/generated/instructions','clients/rust/asset/src/hooked','clients/rust/bridge/src/generated'],
 [('asset file types','clients/rust/asset/src/mint.rs')],['JSON written and values read'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import re
for x in P:
    n=len(re.findall(r'\.(?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)
