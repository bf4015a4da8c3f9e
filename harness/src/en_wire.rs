//! What the Rust client and the interface library put on the wire, and what they read back.

use crate::{
    bridge::BRIDGE,
    keys::*,
    op::*,
    pure::{enumerate, Tally},
    explore::{Found, Stats},
    spec::*,
    view::*,
    vm::{capture, Captured, Ix, Meta},
};
use solana_program::{account_info::AccountInfo, instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
use std::{cell::RefCell, collections::HashMap};

thread_local! {
    static INFOS: RefCell<HashMap<Pubkey, &'static AccountInfo<'static>>> = Default::default();
}

/// An account info for a key (kept for the life of the thread).
fn info(k: &Pubkey) -> &'static AccountInfo<'static> {
    INFOS.with(|m| {
        *m.borrow_mut().entry(*k).or_insert_with(|| {
            let key: &'static Pubkey = Box::leak(Box::new(*k));
            let lamports: &'static mut u64 = Box::leak(Box::new(1));
            let data: &'static mut [u8] = Box::leak(vec![0u8; 8].into_boxed_slice());
            Box::leak(Box::new(AccountInfo::new(key, false, true, lamports, data, key, false, 0)))
        })
    })
}

/// How the library is asked for the instruction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Struct,
    StructMore,
    Builder,
    BuilderMore,
    Cpi,
    CpiSigned,
    CpiMore,
    CpiBuilder,
    CpiBuilderSigned,
    CpiBuilderMore,
}
use Form::*;
const FORMS: [Form; 10] =
    [Struct, StructMore, Builder, BuilderMore, Cpi, CpiSigned, CpiMore, CpiBuilder, CpiBuilderSigned, CpiBuilderMore];

impl Form {
    fn cpi(self) -> bool {
        !matches!(self, Struct | StructMore | Builder | BuilderMore)
    }
    fn more(self) -> bool {
        matches!(self, StructMore | BuilderMore | CpiMore | CpiBuilderMore)
    }
    fn signed(self) -> bool {
        matches!(self, CpiSigned | CpiBuilderSigned)
    }
}

#[derive(Clone, Debug)]
pub struct Ask {
    ins: std::sync::Arc<Ins>,
    accs: Vec<Option<Pubkey>>,
    /// whether an account that may or may not sign does
    sign: bool,
    form: Form,
    /// flags (signer, writable) of the additional accounts
    more: (bool, bool),
}

fn program() -> &'static AccountInfo<'static> {
    info(&ASSET)
}

const SEEDS: &[&[&[u8]]] = &[&[b"seed", &[3]], &[b"x"]];

fn text(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}

/// The instruction as it leaves the library.
enum Sent {
    Plain(Instruction),
    Cpi(Result<(), String>, Vec<Captured>),
}

macro_rules! pk {
    (r, $a:expr, $i:expr) => { $a.accs[$i].unwrap() };
    (o, $a:expr, $i:expr) => { $a.accs[$i] };
    (e, $a:expr, $i:expr) => { ($a.accs[$i].unwrap(), $a.sign) };
}
macro_rules! ai {
    (r, $a:expr, $i:expr) => { info(&$a.accs[$i].unwrap()) };
    (o, $a:expr, $i:expr) => { $a.accs[$i].as_ref().map(|k| info(k)) };
    (e, $a:expr, $i:expr) => { (info(&$a.accs[$i].unwrap()), $a.sign) };
}
macro_rules! set {
    (r, $b:ident, $f:ident, $v:ident, $a:expr, $i:expr) => { $b.$f($v!(r, $a, $i)); };
    (o, $b:ident, $f:ident, $v:ident, $a:expr, $i:expr) => { if $a.accs[$i].is_some() { $b.$f($v!(o, $a, $i)); } };
    (e, $b:ident, $f:ident, $v:ident, $a:expr, $i:expr) => {{ let x = $v!(e, $a, $i); $b.$f(x.0, x.1); }};
}

/// All ways to ask for one instruction.
macro_rules! all_forms {
    ($a:expr, $x:ident, $b:ident, $cb:ident, $c:ident, $ca:ident, [$($k:ident $f:ident $i:expr),*], ($($arg:expr)?), |$q:ident| $fill:expr) => {{
        let a: &Ask = $a;
        let meta = |k: Pubkey| AccountMeta { pubkey: k, is_signer: a.more.0, is_writable: a.more.1 };
        let (m1, m2) = (meta(BOB), meta(DEL2));
        // as documented: writable, then signer
        let (i1, i2) = ((info(&BOB), a.more.1, a.more.0), (info(&DEL2), a.more.1, a.more.0));
        match a.form {
            Struct | StructMore => {
                let s = I::$x { $($f: pk!($k, a, $i)),* };
                Sent::Plain(if a.form == Struct {
                    s.instruction($($arg)?)
                } else {
                    s.instruction_with_remaining_accounts($($arg,)? &[m1, m2])
                })
            }
            Builder | BuilderMore => {
                #[allow(unused_mut)]
                let mut $q = I::$b::new();
                $(set!($k, $q, $f, pk, a, $i);)*
                $fill;
                if a.form == BuilderMore {
                    $q.add_remaining_account(m1);
                    $q.add_remaining_accounts(&[m2]);
                }
                Sent::Plain($q.instruction())
            }
            Cpi | CpiSigned | CpiMore => {
                let c = I::$c::new(program(), I::$ca { $($f: ai!($k, a, $i)),* } $(, $arg)?);
                let (r, v) = capture(|| match a.form {
                    Cpi => c.invoke(),
                    CpiSigned => c.invoke_signed(SEEDS),
                    _ => c.invoke_with_remaining_accounts(&[i1, i2]),
                });
                Sent::Cpi(r.map_err(|e| format!("{e:?}")), v)
            }
            CpiBuilder | CpiBuilderSigned | CpiBuilderMore => {
                let (r, v) = capture(|| {
                    let mut $q = I::$cb::new(program());
                    $(set!($k, $q, $f, ai, a, $i);)*
                    $fill;
                    if a.form == CpiBuilderMore {
                        $q.add_remaining_account(i1.0, i1.1, i1.2);
                        $q.add_remaining_accounts(&[i2]);
                    }
                    if a.form == CpiBuilderSigned {
                        $q.invoke_signed(SEEDS)
                    } else {
                        $q.invoke()
                    }
                });
                Sent::Cpi(r.map_err(|e| format!("{e:?}")), v)
            }
        }
    }};
}

macro_rules! library {
    ($m:ident, $i:path, $t:path) => {
        mod $m {
            use super::*;
            use $i as I;
            use $t as T;

            fn ext(e: &ExtIn) -> T::ExtensionInput {
                use T::ExtensionType::*;
                let all = [
                    None, Attributes, Blob, Creators, Links, Metadata, Grouping, Royalties, Manager, Proxy, Properties, Bucket,
                ];
                T::ExtensionInput { extension_type: all[e.ty as usize], length: e.len, data: e.data.clone() }
            }
            fn standard(s: u8) -> T::Standard {
                use T::Standard::*;
                [NonFungible, Managed, Soulbound, Proxied][s as usize]
            }
            fn deleg(d: &Deleg) -> T::DelegateInput {
                use T::DelegateRole::*;
                let all = [None, Transfer, Lock, Burn];
                match d {
                    Deleg::All => T::DelegateInput::All,
                    Deleg::Some(r) => T::DelegateInput::Some { roles: r.iter().map(|x| all[*x as usize]).collect() },
                }
            }

            pub fn ask(a: &Ask) -> Sent {
                match &*a.ins {
                    Ins::Close => all_forms!(a, Close, CloseBuilder, CloseCpiBuilder, CloseCpi, CloseCpiAccounts,
                        [r buffer 0, r recipient 1], (), |q| ()),
                    Ins::Burn => all_forms!(a, Burn, BurnBuilder, BurnCpiBuilder, BurnCpi, BurnCpiAccounts,
                        [r asset 0, r signer 1, o recipient 2, o group 3], (), |q| ()),
                    Ins::Create(c) => all_forms!(a, Create, CreateBuilder, CreateCpiBuilder, CreateCpi, CreateCpiAccounts,
                        [r asset 0, e authority 1, r owner 2, o group 3, o group_authority 4, o payer 5, o system_program 6],
                        (I::CreateInstructionArgs {
                            name: text(&c.name),
                            standard: standard(c.standard),
                            mutable: c.mutable,
                            extensions: c.exts.as_ref().map(|v| v.iter().map(ext).collect()),
                        }), |q| {
                            q.name(text(&c.name));
                            // the documented defaults are a mutable non-fungible
                            if c.standard != 0 {
                                q.standard(standard(c.standard));
                            }
                            if !c.mutable {
                                q.mutable(false);
                            }
                            if let Some(v) = &c.exts {
                                q.extensions(v.iter().map(ext).collect());
                            }
                        }),
                    Ins::Approve(d) => all_forms!(a, Approve, ApproveBuilder, ApproveCpiBuilder, ApproveCpi, ApproveCpiAccounts,
                        [r asset 0, r owner 1, r delegate 2], (I::ApproveInstructionArgs { delegate_input: deleg(d) }),
                        |q| { q.delegate_input(deleg(d)); }),
                    Ins::Allocate(e) => all_forms!(a, Allocate, AllocateBuilder, AllocateCpiBuilder, AllocateCpi, AllocateCpiAccounts,
                        [r asset 0, o payer 1, o system_program 2], (I::AllocateInstructionArgs { extension: ext(e) }),
                        |q| { q.extension(ext(e)); }),
                    Ins::Lock => all_forms!(a, Lock, LockBuilder, LockCpiBuilder, LockCpi, LockCpiAccounts,
                        [r asset 0, r signer 1], (), |q| ()),
                    Ins::Unlock => all_forms!(a, Unlock, UnlockBuilder, UnlockCpiBuilder, UnlockCpi, UnlockCpiAccounts,
                        [r asset 0, r signer 1], (), |q| ()),
                    Ins::Revoke(d) => all_forms!(a, Revoke, RevokeBuilder, RevokeCpiBuilder, RevokeCpi, RevokeCpiAccounts,
                        [r asset 0, r signer 1], (I::RevokeInstructionArgs { delegate_input: deleg(d) }),
                        |q| { q.delegate_input(deleg(d)); }),
                    Ins::Transfer => all_forms!(a, Transfer, TransferBuilder, TransferCpiBuilder, TransferCpi, TransferCpiAccounts,
                        [r asset 0, r signer 1, r recipient 2, o group 3], (), |q| ()),
                    Ins::Verify => all_forms!(a, Verify, VerifyBuilder, VerifyCpiBuilder, VerifyCpi, VerifyCpiAccounts,
                        [r asset 0, r creator 1], (), |q| ()),
                    Ins::Unverify => all_forms!(a, Unverify, UnverifyBuilder, UnverifyCpiBuilder, UnverifyCpi, UnverifyCpiAccounts,
                        [r asset 0, r creator 1], (), |q| ()),
                    Ins::Update(u) => all_forms!(a, Update, UpdateBuilder, UpdateCpiBuilder, UpdateCpi, UpdateCpiAccounts,
                        [r asset 0, r authority 1, o buffer 2, o group 3, o payer 4, o system_program 5],
                        (I::UpdateInstructionArgs {
                            name: u.name.as_ref().map(|n| text(n)),
                            mutable: u.mutable,
                            extension: u.ext.as_ref().map(ext),
                        }), |q| {
                            if let Some(n) = &u.name {
                                q.name(text(n));
                            }
                            if let Some(m) = u.mutable {
                                q.mutable(m);
                            }
                            if let Some(e) = &u.ext {
                                q.extension(ext(e));
                            }
                        }),
                    Ins::Write { overwrite, bytes } => all_forms!(a, Write, WriteBuilder, WriteCpiBuilder, WriteCpi, WriteCpiAccounts,
                        [r asset 0, r payer 1, r system_program 2],
                        (I::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }),
                        |q| { q.overwrite(*overwrite).bytes(bytes.clone()); }),
                    Ins::Group => all_forms!(a, Group, GroupBuilder, GroupCpiBuilder, GroupCpi, GroupCpiAccounts,
                        [r asset 0, r group 1, r authority 2], (), |q| ()),
                    Ins::Ungroup => all_forms!(a, Ungroup, UngroupBuilder, UngroupCpiBuilder, UngroupCpi, UngroupCpiAccounts,
                        [r asset 0, r group 1, r authority 2], (), |q| ()),
                    Ins::Handover => all_forms!(a, Handover, HandoverBuilder, HandoverCpiBuilder, HandoverCpi, HandoverCpiAccounts,
                        [r asset 0, r authority 1, r new_authority 2], (), |q| ()),
                    Ins::Remove(t) => {
                        let t = ext(&ExtIn { ty: *t, len: 0, data: Option::None }).extension_type;
                        all_forms!(a, Remove, RemoveBuilder, RemoveCpiBuilder, RemoveCpi, RemoveCpiAccounts,
                            [r asset 0, r authority 1, o group 2, r recipient 3],
                            (I::RemoveInstructionArgs { extension_type: t }), |q| { q.extension_type(t); })
                    }
                    Ins::Trim | Ins::Extend(_) => {
                        let st = || match &*a.ins {
                            Ins::Extend(v) => T::Strategy::Extend { value: *v },
                            _ => T::Strategy::Trim,
                        };
                        all_forms!(a, Resize, ResizeBuilder, ResizeCpiBuilder, ResizeCpi, ResizeCpiAccounts,
                            [r asset 0, r authority 1, e payer 2, o system_program 3],
                            (I::ResizeInstructionArgs { strategy: st() }), |q| { q.strategy(st()); })
                    }
                    Ins::ProxyCreate(_) | Ins::Raw(..) => unreachable!(),
                }
            }
        }
    };
}

library!(client, nifty_asset::instructions, nifty_asset::types);
library!(iface, nifty_asset_interface::instructions, nifty_asset_interface::types);

/// The client of the bridge program. `accs` has 20 (bridge) or 9 (create) entries; `sign` also
/// stands for the argument of create.
mod bridge_client {
    use super::*;
    use nifty_bridge::instructions as I;

    fn program() -> &'static AccountInfo<'static> {
        info(&BRIDGE)
    }

    pub fn ask(a: &Ask, is_collection: bool) -> Sent {
        if a.accs.len() == 20 {
            all_forms!(a, Bridge, BridgeBuilder, BridgeCpiBuilder, BridgeCpi, BridgeCpiAccounts,
                [r asset 0, r vault 1, r owner 2, r token 3, r mint 4, r metadata 5, r master_edition 6, o token_record 7,
                 r vault_token 8, o vault_token_record 9, r payer 10, r nifty_asset_program 11, r token_metadata_program 12,
                 r system_program 13, r sysvar_instructions 14, r spl_token_program 15, r spl_ata_program 16,
                 o authorization_rules_program 17, o authorization_rules 18, o group_asset 19], (), |q| ())
        } else {
            all_forms!(a, Create, CreateBuilder, CreateCpiBuilder, CreateCpi, CreateCpiAccounts,
                [r asset 0, r vault 1, r mint 2, r metadata 3, e update_authority 4, o collection 5, r payer 6,
                 r system_program 7, r nifty_asset_program 8],
                (I::CreateInstructionArgs { is_collection }), |q| { q.is_collection(is_collection); })
        }
    }

    /// The builders' defaults.
    pub fn defaults(a: &Ask, is_collection: bool) -> Instruction {
        if a.accs.len() == 20 {
            let mut q = I::BridgeBuilder::new();
            let k = |i: usize| a.accs[i].unwrap();
            q.asset(k(0)).vault(k(1)).owner(k(2)).token(k(3)).mint(k(4)).metadata(k(5)).master_edition(k(6)).vault_token(k(8)).payer(k(10));
            q.token_record(a.accs[7]).vault_token_record(a.accs[9]).group_asset(a.accs[19]);
            q.authorization_rules_program(a.accs[17]).authorization_rules(a.accs[18]);
            q.instruction()
        } else {
            let mut q = I::CreateBuilder::new();
            let k = |i: usize| a.accs[i].unwrap();
            q.asset(k(0)).vault(k(1)).mint(k(2)).metadata(k(3)).update_authority(k(4), a.sign).collection(a.accs[5]).payer(k(6));
            q.is_collection(is_collection);
            q.instruction()
        }
    }
}

/// The instructions of the bridge, and its vault account.
pub fn bridge(mask: Tags) -> (Stats, Vec<Found>) {
    use crate::bridge::{B_SLOTS, C_SLOTS, PROGRAMS};
    let mut items: Vec<(Ask, bool)> = vec![];
    for (n, opts) in [(20usize, vec![7usize, 9, 17, 18, 19]), (9, vec![5])] {
        for bits in 0..1u32 << opts.len() {
            let accs: Vec<Option<Pubkey>> = (0..n)
                .map(|i| {
                    let mut b = [0x31; 32];
                    b[7] = i as u8;
                    let absent = opts.iter().position(|o| *o == i).is_some_and(|j| bits >> j & 1 == 0);
                    (!absent).then(|| Pubkey::new_from_array(b))
                })
                .collect();
            for form in FORMS {
                for sign in [true, false] {
                    for arg in [true, false] {
                        if n == 20 && !(sign && arg) {
                            continue;
                        }
                        for both in [false, true] {
                            if both && !form.more() {
                                continue;
                            }
                            let ask = Ask { ins: std::sync::Arc::new(Ins::Close), accs: accs.clone(), sign, form, more: (both, both) };
                            items.push((ask, arg));
                        }
                    }
                }
            }
        }
    }
    enumerate("bridge-client", P20, mask, &items, |(a, arg), t| {
        let n = a.accs.len();
        let slots: &[(&str, bool, bool)] = if n == 20 { &B_SLOTS } else { &C_SLOTS };
        let mut want = Ix {
            program: BRIDGE,
            metas: slots
                .iter()
                .zip(&a.accs)
                .map(|(s, k)| Meta { key: k.unwrap_or(BRIDGE), signer: s.1 && k.is_some(), writable: s.2 && k.is_some() })
                .collect(),
            data: if n == 20 { vec![0] } else { vec![1, *arg as u8] },
        };
        if n == 9 {
            want.metas[4].signer = a.sign;
        }
        let plain = want.clone();
        if a.form.more() {
            for k in [BOB, DEL2] {
                want.metas.push(Meta { key: k, signer: a.more.0, writable: a.more.1 });
            }
        }
        t.state(format!("{want:?}").as_bytes());
        let what = format!("bridge client {} accounts ({:?})", n, a.form);
        match bridge_client::ask(a, *arg) {
            Sent::Plain(ix) => same(t, &what, &Ix::from(&ix), &want)?,
            Sent::Cpi(r, v) => {
                t.eq(&format!("{what}: result"), r, Ok(()))?;
                t.eq(&format!("{what}: number of calls"), v.len(), 1)?;
                same(t, &what, &v[0].ix, &want)?;
                for m in &want.metas {
                    t.check(&format!("{what}: {} is not handed over", name(&m.key)), v[0].infos.contains(&m.key))?;
                }
                let seeds: Vec<Vec<Vec<u8>>> =
                    if a.form.signed() { SEEDS.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect() } else { vec![] };
                t.eq(&format!("{what}: signer seeds"), &v[0].seeds, &seeds)?;
            }
        }
        // without the program accounts the builder fills in the real ones
        let mut d = plain;
        for (i, k) in PROGRAMS.iter().enumerate() {
            if n == 20 {
                d.metas[11 + i].key = *k;
            }
        }
        if n == 9 {
            d.metas[7].key = solana_program::system_program::ID;
            d.metas[8].key = ASSET;
        }
        same(t, &format!("{what}: defaults"), &Ix::from(&bridge_client::defaults(a, *arg)), &d)?;
        // the vault account
        use nifty_bridge::{accounts::Vault, types::*};
        let (mint, x) = (a.accs[0].unwrap(), n as u8);
        for (disc, state) in [(0u8, 0u8), (0, 1), (1, 0), (1, 1), (2, 0), (1, 2)] {
            let mut b = vec![disc, state, x];
            b.extend(mint.as_ref());
            b.push(x + 1);
            let got = Vault::from_bytes(&b).ok();
            let want = (disc < 2 && state < 2).then(|| Vault {
                discriminator: [Discriminator::Uninitialized, Discriminator::Vault][disc as usize],
                state: [State::Idle, State::Active][state as usize],
                bump: x,
                mint,
                asset_bump: x + 1,
            });
            t.eq("vault account", got, want)?;
        }
        let pda = Pubkey::find_program_address(&[b"vault", mint.as_ref()], &BRIDGE);
        t.eq("vault address", Vault::find_pda(&mint), pda)?;
        t.eq("vault address", Vault::create_pda(mint, pda.1).ok(), Some(pda.0))
    })
}

/// Argument domain of every instruction.
pub fn instructions(thorough: bool) -> Vec<Ins> {
    let mut v = vec![
        Ins::Close,
        Ins::Burn,
        Ins::Lock,
        Ins::Transfer,
        Ins::Unlock,
        Ins::Unverify,
        Ins::Verify,
        Ins::Group,
        Ins::Ungroup,
        Ins::Handover,
        Ins::Trim,
    ];
    for x in [0u16, 1, 8, 255, 256, 10240, u16::MAX] {
        v.push(Ins::Extend(x));
    }
    let mut delegs = vec![Deleg::All, Deleg::Some(vec![])];
    for a in 0..4u8 {
        delegs.push(Deleg::Some(vec![a]));
        for b in 0..4u8 {
            delegs.push(Deleg::Some(vec![a, b]));
            for c in 0..4u8 {
                delegs.push(Deleg::Some(vec![a, b, c]));
            }
        }
    }
    for d in delegs {
        v.push(Ins::Approve(d.clone()));
        v.push(Ins::Revoke(d));
    }
    let datas: Vec<Option<Vec<u8>>> =
        vec![None, Some(vec![]), Some(vec![7]), Some((0..=255u8).collect()), Some(vec![0xff; 900])];
    let mut exts = vec![];
    for ty in 0..12u8 {
        v.push(Ins::Remove(ty));
        for len in [0u32, 1, 0x0102_0304, u32::MAX] {
            for d in &datas {
                exts.push(ExtIn { ty, len, data: d.clone() });
            }
        }
    }
    for e in &exts {
        v.push(Ins::Allocate(e.clone()));
    }
    let names: Vec<Vec<u8>> = vec![
        vec![],
        b"a".to_vec(),
        vec![b'n'; 35],
        vec![b'n'; 36],
        "\u{00e9}\u{4e2d}\u{1f600}".as_bytes().to_vec(),
        vec![b'z'; 300],
    ];
    let some_exts: Vec<ExtIn> = if thorough { exts.clone() } else { exts.iter().step_by(7).cloned().collect() };
    for n in std::iter::once(None).chain(names.iter().map(Some)) {
        for m in [None, Some(false), Some(true)] {
            v.push(Ins::Update(UpdateIn { name: n.cloned(), mutable: m, ext: None }));
            for e in &some_exts {
                v.push(Ins::Update(UpdateIn { name: n.cloned(), mutable: m, ext: Some(e.clone()) }));
            }
        }
    }
    for n in &names {
        for st in 0..4u8 {
            for m in [true, false] {
                let mut c = |exts| v.push(Ins::Create(CreateIn { name: n.clone(), standard: st, mutable: m, exts }));
                c(None);
                c(Some(vec![]));
                for (i, e) in some_exts.iter().enumerate() {
                    c(Some(vec![e.clone()]));
                    c(Some(vec![e.clone(), some_exts[(i * 5 + 3) % some_exts.len()].clone()]));
                }
            }
        }
    }
    for o in [true, false] {
        for d in datas.iter().flatten() {
            v.push(Ins::Write { overwrite: o, bytes: d.clone() });
        }
    }
    v
}

/// Which of the documented flags an account "may or may not sign" has.
fn optional_signer(ins: &Ins) -> Option<usize> {
    match ins {
        Ins::Create(_) => Some(1),
        Ins::Trim | Ins::Extend(_) => Some(2),
        _ => None,
    }
}

const KEYS: [Pubkey; 7] = [A1, AUTH, OWNER, G1, GDEL, PAYER, SINK];

/// Every subset of the optional accounts.
fn presences(ins: &Ins) -> Vec<Vec<Option<Pubkey>>> {
    let slots = ins.slots();
    let opt: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].1 & O != 0).collect();
    (0..1u32 << opt.len())
        .map(|m| {
            (0..slots.len())
                .map(|i| match opt.iter().position(|x| *x == i) {
                    Some(p) if m >> p & 1 == 0 => None,
                    _ => Some(KEYS[i]),
                })
                .collect()
        })
        .collect()
}

fn show(ix: &Ix) -> String {
    let m: Vec<String> = ix
        .metas
        .iter()
        .map(|m| format!("{}{}{}", name(&m.key), if m.signer { "+s" } else { "" }, if m.writable { "+w" } else { "" }))
        .collect();
    let n = ix.data.len().min(64);
    format!("program {} accounts [{}] data({}) {:?}", name(&ix.program), m.join(" "), ix.data.len(), &ix.data[..n])
}

fn same(t: &mut Tally, what: &str, got: &Ix, want: &Ix) -> Result<(), String> {
    t.steps += 1;
    if got != want {
        return Err(format!("{what}: {} instead of {}", show(got), show(want)));
    }
    Ok(())
}

pub fn run(mask: Tags, thorough: bool) -> (Stats, Vec<Found>) {
    let mut items: Vec<Ask> = vec![];
    let all = instructions(thorough);
    let mut shapes: Vec<&'static str> = vec![];
    for ins in all {
        let ins = std::sync::Arc::new(ins);
        // every presence pattern for a few argument values, the arguments for two patterns
        let n = shapes.iter().filter(|x| **x == ins.name()).count();
        shapes.push(ins.name());
        let p = presences(&ins);
        let pick: Vec<&Vec<Option<Pubkey>>> =
            if n < if thorough { 20 } else { 2 } { p.iter().collect() } else { vec![&p[0], &p[p.len() - 1]] };
        for accs in pick {
            for sign in [true, false] {
                if !sign && optional_signer(&ins).is_none() {
                    continue;
                }
                for form in FORMS {
                    for more in [(false, false), (true, true), (true, false), (false, true)] {
                        if !form.more() && more.0 != more.1 || !form.more() && more.0 {
                            continue;
                        }
                        // these have an enumeration of their own
                        if form.cpi() && more.0 != more.1 {
                            continue;
                        }
                        items.push(Ask { ins: ins.clone(), accs: accs.clone(), sign, form, more });
                    }
                }
            }
        }
    }
    enumerate("client-instructions", P20, mask, &items, |a, t| {
        for (lib, sent) in [("client", client::ask(a)), ("interface", iface::ask(a))] {
            let mut want = Call::new((*a.ins).clone(), &a.accs);
            if let Some(i) = optional_signer(&a.ins) {
                want = want.sign(i, a.sign);
            }
            if lib == "interface" {
                // the interface speaks to assets that sign through their program
                want.metas[0].signer = true;
            }
            let mut want = want.ix();
            if a.form.more() {
                for k in [BOB, DEL2] {
                    want.metas.push(Meta { key: k, signer: a.more.0, writable: a.more.1 });
                }
            }
            t.state(&want.data);
            let what = format!("{lib} {} ({:?})", a.ins.name(), a.form);
            match sent {
                Sent::Plain(ix) => same(t, &what, &Ix::from(&ix), &want)?,
                Sent::Cpi(r, v) => {
                    t.eq(&format!("{what}: result"), r, Ok(()))?;
                    t.eq(&format!("{what}: number of calls"), v.len(), 1)?;
                    same(t, &what, &v[0].ix, &want)?;
                    for m in &want.metas {
                        t.check(&format!("{what}: {} is not handed over", name(&m.key)), v[0].infos.contains(&m.key))?;
                    }
                    t.check(&format!("{what}: the program is not handed over"), v[0].infos.contains(&ASSET))?;
                    let seeds: Vec<Vec<Vec<u8>>> =
                        if a.form.signed() { SEEDS.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect() } else { vec![] };
                    t.eq(&format!("{what}: signer seeds"), &v[0].seeds, &seeds)?;
                }
            }
        }
        Ok(())
    })
}

/// Additional accounts of a cross-program call with different signer and writable flags.
pub fn remaining(mask: Tags) -> (Stats, Vec<Found>) {
    let mut kinds: Vec<Ins> = vec![];
    for i in instructions(false) {
        if !kinds.iter().any(|k| k.name() == i.name()) {
            kinds.push(i);
        }
    }
    enumerate("cpi-remaining-accounts", P20, mask, &[kinds], |kinds, t| {
        let (mut right, mut swapped) = (vec![], vec![]);
        for n in [20, 9] {
            for form in [CpiMore, CpiBuilderMore] {
                for more in [(true, false), (false, true)] {
                    let a = Ask { ins: std::sync::Arc::new(Ins::Close), accs: vec![Some(OWNER); n], sign: true, form, more };
                    t.steps += 1;
                    let Sent::Cpi(Ok(()), v) = bridge_client::ask(&a, true) else { return Err("bridge client: refused".into()) };
                    let last = &v[0].ix.metas[v[0].ix.metas.len() - 2..];
                    let is = |s, w| last.iter().zip([BOB, DEL2]).all(|(m, k)| m.key == k && m.signer == s && m.writable == w);
                    let what = format!("bridge client {n} {form:?}");
                    if is(more.0, more.1) {
                        right.push(what);
                    } else if is(more.1, more.0) {
                        swapped.push(what);
                    } else {
                        return Err(format!("{what}: remaining accounts {last:?}"));
                    }
                }
            }
        }
        for ins in kinds {
            for form in [CpiMore, CpiBuilderMore] {
                for more in [(true, false), (false, true)] {
                    let accs = presences(ins)[0].clone();
                    let a = Ask { ins: std::sync::Arc::new(ins.clone()), accs, sign: true, form, more };
                    for (lib, sent) in [("client", client::ask(&a)), ("interface", iface::ask(&a))] {
                        t.steps += 1;
                        let what = format!("{lib} {} {form:?}", ins.name());
                        let Sent::Cpi(Ok(()), v) = sent else { return Err(format!("{what}: refused")) };
                        if v.len() != 1 || v[0].ix.metas.len() < 2 {
                            return Err(format!("{what}: unexpected calls {v:?}"));
                        }
                        t.state(&v[0].ix.data);
                        let last = &v[0].ix.metas[v[0].ix.metas.len() - 2..];
                        let is = |s, w| last.iter().zip([BOB, DEL2]).all(|(m, k)| m.key == k && m.signer == s && m.writable == w);
                        if is(more.0, more.1) {
                            right.push(what);
                        } else if is(more.1, more.0) {
                            swapped.push(what);
                        } else {
                            return Err(format!("{what}: remaining accounts {last:?}"));
                        }
                    }
                }
            }
        }
        if swapped.is_empty() {
            Ok(())
        } else if right.is_empty() {
            Err("the CPI types of every instruction exchange the signer and writable flags of remaining accounts".into())
        } else {
            Err(format!("signer and writable flags of remaining accounts exchanged in {swapped:?} but not in {right:?}"))
        }
    })
}

// ---- the interface's own instruction type ------------------------------------------------------

fn from_interface(i: nifty_asset_interface::Interface) -> Ins {
    use nifty_asset_interface::{DelegateInput, ExtensionInput, Interface as F, Strategy};
    fn ext(e: ExtensionInput) -> ExtIn {
        ExtIn { ty: e.extension_type as u8, len: e.length, data: e.data }
    }
    fn deleg(d: DelegateInput) -> Deleg {
        match d {
            DelegateInput::All => Deleg::All,
            DelegateInput::Some { roles } => Deleg::Some(roles.into_iter().map(|r| r as u8).collect()),
        }
    }
    match i {
        F::Close => Ins::Close,
        F::Burn => Ins::Burn,
        F::Create(m) => Ins::Create(CreateIn {
            name: m.name.into_bytes(),
            standard: m.standard as u8,
            mutable: m.mutable,
            exts: m.extensions.map(|v| v.into_iter().map(ext).collect()),
        }),
        F::Approve(d) => Ins::Approve(deleg(d)),
        F::Allocate(e) => Ins::Allocate(ext(e.extension)),
        F::Lock => Ins::Lock,
        F::Revoke(d) => Ins::Revoke(deleg(d)),
        F::Transfer => Ins::Transfer,
        F::Unlock => Ins::Unlock,
        F::Unverify => Ins::Unverify,
        F::Update(u) => Ins::Update(UpdateIn { name: u.name.map(|n| n.into_bytes()), mutable: u.mutable, ext: u.extension.map(ext) }),
        F::Verify => Ins::Verify,
        F::Write(d) => Ins::Write { overwrite: d.overwrite, bytes: d.bytes },
        F::Group => Ins::Group,
        F::Ungroup => Ins::Ungroup,
        F::Handover => Ins::Handover,
        F::Remove(t) => Ins::Remove(t as u8),
        F::Resize(Strategy::Trim) => Ins::Trim,
        F::Resize(Strategy::Extend { value }) => Ins::Extend(value),
    }
}

/// The real instruction type reads the data as that instruction.
pub fn understood(ins: &Ins, data: &[u8], t: &mut Tally) -> Result<(), String> {
    use borsh::BorshDeserialize;
    let got = nifty_asset_interface::Interface::try_from_slice(data).ok().map(from_interface);
    t.eq(&format!("{}: decoded", ins.name()), got, Some(ins.clone()))
}

macro_rules! slot {
    (r, $x:expr) => { Some(*$x.key) };
    (o, $x:expr) => { $x.map(|a| *a.key) };
}
macro_rules! context {
    ($infos:expr, $ty:ident, [$($k:ident $f:ident),*]) => {{
        nifty_asset_interface::accounts::$ty::context($infos).map_err(|e| format!("{e:?}")).map(|c| {
            (vec![$(slot!($k, c.accounts.$f)),*], c.remaining_accounts.iter().map(|a| *a.key).collect::<Vec<_>>())
        })
    }};
}

/// The accounts of an instruction as a program behind the interface sees them.
fn contexts(ins: &Ins, infos: &'static [AccountInfo<'static>]) -> Result<(Vec<Option<Pubkey>>, Vec<Pubkey>), String> {
    match ins {
        Ins::Close => context!(infos, CloseAccounts, [r buffer, r recipient]),
        Ins::Burn => context!(infos, BurnAccounts, [r asset, r signer, o recipient, o group]),
        Ins::Create(_) => context!(infos, CreateAccounts, [r asset, r authority, r owner, o group, o group_authority, o payer, o system_program]),
        Ins::Approve(_) => context!(infos, ApproveAccounts, [r asset, r owner, r delegate]),
        Ins::Allocate(_) => context!(infos, AllocateAccounts, [r asset, o payer, o system_program]),
        Ins::Lock => context!(infos, LockAccounts, [r asset, r signer]),
        Ins::Unlock => context!(infos, UnlockAccounts, [r asset, r signer]),
        Ins::Revoke(_) => context!(infos, RevokeAccounts, [r asset, r signer]),
        Ins::Transfer => context!(infos, TransferAccounts, [r asset, r signer, r recipient, o group]),
        Ins::Verify => context!(infos, VerifyAccounts, [r asset, r creator]),
        Ins::Unverify => context!(infos, UnverifyAccounts, [r asset, r creator]),
        Ins::Update(_) => context!(infos, UpdateAccounts, [r asset, r authority, o buffer, o group, o payer, o system_program]),
        Ins::Write { .. } => context!(infos, WriteAccounts, [r asset, r payer, r system_program]),
        Ins::Group => context!(infos, GroupAccounts, [r asset, r group, r authority]),
        Ins::Ungroup => context!(infos, UngroupAccounts, [r asset, r group, r authority]),
        Ins::Handover => context!(infos, HandoverAccounts, [r asset, r authority, r new_authority]),
        Ins::Remove(_) => context!(infos, RemoveAccounts, [r asset, r authority, o group, r recipient]),
        Ins::Trim | Ins::Extend(_) => context!(infos, ResizeAccounts, [r asset, r authority, r payer, o system_program]),
        Ins::ProxyCreate(_) | Ins::Raw(..) => unreachable!(),
    }
}

/// Decoding of instructions and accounts behind the interface.
pub fn interface(mask: Tags, thorough: bool) -> (Stats, Vec<Found>) {
    use borsh::{BorshDeserialize, BorshSerialize};
    use nifty_asset_interface::Interface;
    let mut seen: HashMap<&'static str, usize> = HashMap::new();
    let items: Vec<(Ins, bool)> = instructions(thorough)
        .into_iter()
        .map(|i| {
            let n = seen.entry(i.name()).or_default();
            *n += 1;
            let all = thorough || *n <= 40;
            (i, all)
        })
        .collect();
    enumerate("interface-instructions", P20, mask, &items, |(ins, all), t| {
        let d = ins.encode();
        t.state(&d);
        let what = ins.name();
        let i = Interface::try_from_slice(&d).map_err(|e| format!("{what}: not decoded: {e}"))?;
        t.eq(&format!("{what}: encoded again"), i.try_to_vec().map_err(|e| e.to_string())?, d.clone())?;
        t.eq(&format!("{what}: decoded"), from_interface(i), ins.clone())?;
        // cut off, one byte too many
        for n in 0..d.len().min(64) {
            t.check(&format!("{what}: accepts data cut off at {n}"), Interface::try_from_slice(&d[..n]).is_err())?;
        }
        let mut e = d.clone();
        e.push(0);
        t.check(&format!("{what}: accepts left-over data"), Interface::try_from_slice(&e).is_err())?;
        // single bytes changed
        if *all && d.len() <= 64 {
            for i in 0..d.len() {
                for x in 0..=255u8 {
                    let mut e = d.clone();
                    e[i] = x;
                    t.eq(&format!("{what}: byte {i} = {x}"), Interface::try_from_slice(&e).ok().map(from_interface), decode(&e))?;
                }
            }
        }
        for accs in presences(ins) {
            for more in 0..2usize {
                let mut keys: Vec<Pubkey> = accs.iter().map(|a| a.unwrap_or(ASSET)).collect();
                keys.extend([BOB].iter().take(more));
                let infos: &'static [AccountInfo<'static>] = {
                    let v: Vec<AccountInfo<'static>> = keys.iter().map(|k| info(k).clone()).collect();
                    Box::leak(v.into_boxed_slice())
                };
                let (got, rest) = contexts(ins, infos)?;
                t.eq(&format!("{what}: accounts"), got, accs.clone())?;
                t.eq(&format!("{what}: remaining accounts"), rest, [BOB][..more].to_vec())?;
            }
        }
        Ok(())
    })
}

// ---- hand-written helpers of the client ---------------------------------------------------------

#[derive(Clone, Debug)]
struct Alloc {
    ty: u8,
    len: usize,
    give: usize,
    payer: bool,
    system: bool,
    seeds: bool,
}

/// `allocate_instruction_data!`, `allocate_update_data_length!` and `AllocateCpiAccounts`.
pub fn helpers(mask: Tags) -> (Stats, Vec<Found>) {
    use nifty_asset::types::ExtensionType as X;
    let all = [
        X::None, X::Attributes, X::Blob, X::Creators, X::Links, X::Metadata, X::Grouping, X::Royalties, X::Manager, X::Proxy,
        X::Properties, X::Bucket,
    ];
    let mut items = vec![];
    for ty in 0..12u8 {
        for len in [0usize, 1, 2, 7, 255, 256, 900, 70_000] {
            for give in [0usize, 1, 2, 7, 255, 256, 900, 70_000] {
                for b in 0..8u8 {
                    items.push(Alloc { ty, len, give, payer: b & 1 == 1, system: b & 2 == 2, seeds: b & 4 == 4 });
                }
            }
        }
    }
    enumerate("client-helpers", P20 | P18, mask, &items, |a, t| {
        let x = all[a.ty as usize];
        let data: Vec<u8> = (0..a.give).map(|i| (i * 7 + 1) as u8).collect();
        let want = Ins::Allocate(ExtIn { ty: a.ty, len: a.len as u32, data: Some(data.clone()) }).encode();
        let full = Ins::Allocate(ExtIn::full(a.ty, data.clone())).encode();
        t.state(&want);
        #[allow(unused_mut)]
        let one = nifty_asset::allocate_instruction_data!(x, a.len, &data[..]);
        t.eq("allocate_instruction_data! with data", &one, &want)?;
        // room first, data after
        let mut two = nifty_asset::allocate_instruction_data!(x, data.len());
        two.extend(&data);
        t.eq("allocate_instruction_data! with a length", &two, &full)?;
        // wrong length first, corrected after
        let mut three = nifty_asset::allocate_instruction_data!(x, a.len);
        three.extend(&data);
        nifty_asset::allocate_update_data_length!(data.len(), three);
        t.eq("allocate_update_data_length!", &three, &full)?;
        let accs = nifty_asset::instructions::AllocateCpiAccounts {
            asset: info(&A1),
            payer: a.payer.then(|| info(&PAYER)),
            system_program: a.system.then(|| info(&SINK)),
        };
        let (r, v) = capture(|| {
            if a.seeds {
                accs.invoke_signed(program(), one.clone(), SEEDS)
            } else {
                accs.invoke(program(), one.clone())
            }
        });
        t.check("AllocateCpiAccounts: refused", r.is_ok())?;
        t.eq("AllocateCpiAccounts: calls", v.len(), 1)?;
        let mut ix = Call::new(Ins::Lock, &[Some(A1), None]).ix();
        ix.metas = vec![
            Meta { key: A1, signer: true, writable: true },
            if a.payer { Meta { key: PAYER, signer: true, writable: true } } else { Meta { key: ASSET, signer: false, writable: false } },
            Meta { key: if a.system { SINK } else { ASSET }, signer: false, writable: false },
        ];
        ix.data = one;
        same(t, "AllocateCpiAccounts", &v[0].ix, &ix)?;
        for m in &ix.metas {
            t.check("AllocateCpiAccounts: account not handed over", v[0].infos.contains(&m.key))?;
        }
        t.eq("AllocateCpiAccounts: seeds", v[0].seeds.len(), if a.seeds { SEEDS.len() } else { 0 })
    })
}

// ---- accounts read by the client ----------------------------------------------------------------

/// Account headers as the client decodes them.
pub fn accounts(mask: Tags) -> (Stats, Vec<Found>) {
    let mut items: Vec<Vec<u8>> = vec![];
    let keys = [Pubkey::default(), OWNER, AUTH, ASSET];
    for disc in 0..2u8 {
        for state in 0..2u8 {
            for std in 0..4u8 {
                for mutable in 0..2u8 {
                    for roles in 0..8u8 {
                        for a in 0..4usize {
                            for b in 0..4usize {
                                for n in [&b""[..], b"x", b"01234567890123456789012345678901234"] {
                                    let mut d = vec![disc, state, std, mutable];
                                    d.extend(keys[(a + 1) % 4].as_ref());
                                    d.extend(keys[a].as_ref());
                                    d.extend(keys[(a + b) % 4].as_ref());
                                    d.extend(keys[b].as_ref());
                                    d.push(roles);
                                    d.extend(n);
                                    d.resize(HDR, 0);
                                    d.extend(b"tail");
                                    items.push(d);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    enumerate("client-accounts", P20, mask, &items, |d, t| {
        use nifty_asset::types::{Discriminator, Standard, State};
        use nifty_asset_types::state::DelegateRole as R;
        t.state(d);
        let x = nifty_asset::Asset::from_bytes(d).map_err(|e| format!("client cannot decode an account: {e}"))?;
        let key = |o: usize| Pubkey::try_from(&d[o..o + 32]).unwrap();
        let null = |k: Pubkey| if k == Pubkey::default() { None } else { Some(k) };
        t.eq("discriminator", x.discriminator, [Discriminator::Uninitialized, Discriminator::Asset][d[0] as usize])?;
        t.eq("state", x.state, [State::Unlocked, State::Locked][d[1] as usize])?;
        t.eq("standard", x.standard, [Standard::NonFungible, Standard::Managed, Standard::Soulbound, Standard::Proxied][d[2] as usize])?;
        t.eq("mutable", x.mutable, d[3] == 1)?;
        t.eq("owner", x.owner, key(4))?;
        t.eq("group", x.group.to_option(), null(key(36)))?;
        t.eq("authority", x.authority, key(68))?;
        t.eq("delegate", x.delegate.address.to_option(), null(key(100)))?;
        let mut roles: Vec<u32> = x.delegate.roles.to_vec().into_iter().map(|r| r as u32).collect();
        roles.sort();
        let mut want: Vec<u32> =
            [R::Transfer, R::Lock, R::Burn].into_iter().enumerate().filter(|(i, _)| d[132] >> i & 1 == 1).map(|x| x.1 as u32).collect();
        if want.is_empty() {
            want.push(R::None as u32);
        }
        want.sort();
        t.eq("roles", roles, want)?;
        t.eq("name", &x.name[..], &d[133..168])?;
        Ok(())
    })
}

/// The numbers that stand for states, standards, roles, types and errors.
pub fn codes(mask: Tags) -> (Stats, Vec<Found>) {
    let items: Vec<u32> = (0..=300).chain([0x1_0000, 0x100_0000, 0x100_0001, u32::MAX]).collect();
    enumerate("codes", P20 | P19 | P09, mask, &items, |&n, t| {
        use nifty_asset::types as c;
        use nifty_asset_types::{constraints as k, extensions as x, podded::ZeroCopy, state as s};
        use num_traits::FromPrimitive;
        t.state(&n.to_le_bytes());
        macro_rules! byte {
            ($what:literal, $($own:path),+; $client:ty) => {{
                let own = [$($own),+];
                if (n as usize) < own.len() {
                    let v = own[n as usize];
                    t.eq(concat!("number of a ", $what), u8::from(v), n as u8)?;
                    let back = (n as u8).into();
                    let _ = [v, back];
                    t.eq(concat!($what, " of a number"), u8::from(back), n as u8)?;
                    t.eq(concat!($what, " of a number, by variant"), std::mem::discriminant(&back), std::mem::discriminant(&v))?;
                    let seen = <$client>::from_u32(n).map(|x| format!("{x:?}"));
                    let names = [$(stringify!($own)),+];
                    t.eq(concat!($what, " in the client"), seen.as_deref(), names[n as usize].rsplit("::").next().map(|x| x.trim()))?;
                } else {
                    t.eq(concat!("unknown ", $what, " in the client"), <$client>::from_u32(n).is_none(), true)?;
                }
            }};
        }
        byte!("discriminator", s::Discriminator::Uninitialized, s::Discriminator::Asset; c::Discriminator);
        byte!("standard", s::Standard::NonFungible, s::Standard::Managed, s::Standard::Soulbound, s::Standard::Proxied; c::Standard);
        byte!("state", s::State::Unlocked, s::State::Locked; c::State);
        byte!("role", s::DelegateRole::None, s::DelegateRole::Transfer, s::DelegateRole::Lock, s::DelegateRole::Burn; c::DelegateRole);
        byte!("value type", x::Type::Text, x::Type::Number, x::Type::Boolean; c::Type);
        use x::ExtensionType as E;
        let types = [
            E::None, E::Attributes, E::Blob, E::Creators, E::Links, E::Metadata, E::Grouping, E::Royalties, E::Manager, E::Proxy,
            E::Properties, E::Bucket,
        ];
        let want = types.get(n as usize).copied();
        t.eq("extension type", E::try_from(n).ok(), want)?;
        t.eq("extension type in the client", c::ExtensionType::from_u32(n).map(|x| format!("{x:?}")), want.map(|x| format!("{x:?}")))?;
        if let Some(w) = want {
            t.eq("number of an extension type", u32::from(w), n)?;
            t.eq("extension type on the wire", borsh::to_vec(&w).ok(), Some(vec![n as u8]))?;
            t.eq("client extension type on the wire", c::ExtensionType::from_u32(n).map(|x| borsh::to_vec(&x).unwrap()), Some(vec![n as u8]))?;
            let (mut h, l, b) = (x::Extension::default(), 1000 + n * 7, 3000 + n * 8);
            h.set_boundary(b);
            h.set_length(l);
            h.set_extension_type(w);
            let by: Vec<u8> = [n, l, b, 0].iter().flat_map(|v| v.to_le_bytes()).collect();
            let raw = |h: &x::Extension| unsafe { std::slice::from_raw_parts(h as *const _ as *const u8, std::mem::size_of_val(h)) }.to_vec();
            t.eq("extension header", raw(&h), by.clone())?;
            t.eq("extension header at once", raw(&x::Extension::new(w, l, b)), by)?;
            t.eq("extension header, read", (h.extension_type(), h.try_extension_type(), h.length(), h.boundary()), (w, Ok(w), l, b))?;
        }
        let ops = [
            k::OperatorType::And, k::OperatorType::Not, k::OperatorType::Or, k::OperatorType::OwnedBy, k::OperatorType::PubkeyMatch,
            k::OperatorType::Empty,
        ];
        if let Some(&w) = ops.get(n as usize) {
            t.eq("operator", k::OperatorType::from(n), w)?;
            t.eq("number of an operator", u32::from(w), n)?;
            let mut raw = [0u64; 1];
            let by = unsafe { std::slice::from_raw_parts_mut(raw.as_mut_ptr() as *mut u8, 8) };
            let o = k::Operator::load_mut(by);
            o.set_size(n * 40 + 3);
            o.set_operator_type(w);
            t.eq("operator header, read", (o.operator_type(), o.size()), (w, n * 40 + 3))?;
            t.eq("operator header", raw[0].to_le_bytes().to_vec(), [n, n * 40 + 3].iter().flat_map(|v| v.to_le_bytes()).collect::<Vec<_>>())?;
        }
        if n < 3 {
            let name = ["asset", "authority", "recipient"][n as usize];
            let a = k::Account::from(name);
            t.eq("account of a rule", (a.into_bytes(), a.to_string()), ((n as u64).to_le_bytes(), name.to_string()))?;
        }
        if n < 8 {
            let roles: Vec<_> = [s::DelegateRole::Transfer, s::DelegateRole::Lock, s::DelegateRole::Burn]
                .into_iter().enumerate().filter(|(i, _)| n >> i & 1 == 1).map(|x| x.1).collect();
            let shown = if n == 0 { vec![s::DelegateRole::None] } else { roles.clone() };
            t.eq("roles of a mask", s::Delegate::decode_roles(n as u8), shown)?;
            t.eq("mask of the roles", roles.iter().fold(0, |m, r| m | r.mask()), n as u8)?;
            t.eq("mask of no role", s::DelegateRole::None.mask(), 0)?;
            let mut d = s::Delegate::default();
            for r in &roles {
                d.enable(*r);
            }
            t.eq("roles enabled", d.roles, n as u8)?;
            t.eq("any role", d.has_active_roles(), n != 0)?;
            for (i, r) in [s::DelegateRole::Transfer, s::DelegateRole::Lock, s::DelegateRole::Burn].into_iter().enumerate() {
                t.eq("role active", d.is_active(r), n >> i & 1 == 1)?;
                let mut e = d;
                e.disable(r);
                t.eq("role disabled", e.roles, n as u8 & !(1 << i))?;
            }
            t.eq("no role is never active", d.is_active(s::DelegateRole::None), false)?;
        }
        if n < 4 {
            use nifty_asset_types::podded::pod::Nullable;
            let key = [Pubkey::default(), OWNER, ASSET, Pubkey::new_from_array([255; 32])][n as usize];
            let v = [s::NullablePubkey::new(key), key.into(), (&key).into()];
            for v in v {
                t.eq("optional key", (*v, v.is_some(), v.is_none()), (key, n != 0, n == 0))?;
            }
        }
        let (own, seen) = (asset_program::error::AssetError::from_u32(n), nifty_asset::errors::AssetError::from_u32(n));
        t.eq("error in the client", seen.map(|e| format!("{e:?}")), own.as_ref().map(|e| format!("{e:?}")))?;
        if let Some(e) = own {
            t.eq("number of an error", e.into(), solana_program::program_error::ProgramError::Custom(n))?;
        }
        let bridge = nifty_bridge::errors::BridgeError::from_u32(n).map(|e| format!("{e:?}"));
        let names = ["InvalidMint", "InvalidAuthority"];
        t.eq("bridge error in the client", bridge.as_deref(), names.get(n as usize).copied())?;
        Ok(())
    })
}
