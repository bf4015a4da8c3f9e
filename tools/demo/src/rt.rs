//! Helpers of the demonstrations: a world of funded wallets and calls through the Rust client.
#![allow(dead_code, unused_imports)]

use crate::vm::{exec, Acct, Ix, Prog, World};
pub use nifty_asset::{instructions as ix, types as ty};
pub use nifty_asset_types::{constraints, extensions, extensions::ExtensionBuilder};
pub use solana_program::instruction::Instruction;
pub use solana_program::{pubkey::Pubkey, system_program};

pub fn key(n: u8) -> Pubkey {
    Pubkey::new_from_array([n; 32])
}

pub const ASSET: Pubkey = asset_program::ID;

pub struct Bench {
    pub w: World,
}

impl Bench {
    /// Wallets 1..=30 hold 10 SOL each.
    pub fn new() -> Self {
        crate::vm::init();
        crate::vm::register(
            proxy_program::ID,
            Prog::Sol(proxy_program::entrypoint::verif_process_instruction),
        );
        let mut w = World::default();
        for n in 1..=30 {
            w.set(key(n), Acct::wallet(10_000_000_000));
        }
        for p in [ASSET, system_program::ID, proxy_program::ID] {
            w.program(p);
        }
        Bench { w }
    }

    /// Runs a transaction at top level.
    pub fn run(&mut self, ixs: &[Instruction]) -> Result<(), String> {
        self.at(ixs, 1)
    }

    /// Runs the instructions at a given stack height (2 = called by another program).
    pub fn at(&mut self, ixs: &[Instruction], height: u64) -> Result<(), String> {
        let ixs: Vec<Ix> = ixs.iter().map(Ix::from).collect();
        self.w = exec(&self.w, &ixs, height)?;
        Ok(())
    }

    pub fn must(&mut self, ixs: &[Instruction]) {
        if let Err(e) = self.run(ixs) {
            panic!("set-up failed: {e}");
        }
    }

    pub fn data(&self, k: &Pubkey) -> Vec<u8> {
        self.w.data(k).to_vec()
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.w.lamports(k)
    }
    pub fn asset<'a>(&self, d: &'a [u8]) -> &'a nifty_asset_types::state::Asset {
        nifty_asset_types::podded::ZeroCopy::load(&d[..nifty_asset_types::state::Asset::LEN])
    }
}

pub fn ext(t: ty::ExtensionType, data: Vec<u8>) -> ty::ExtensionInput {
    ty::ExtensionInput { extension_type: t, length: data.len() as u32, data: Some(data) }
}

/// Creates an asset; `group` is (group, its signing authority).
pub fn create(
    asset: Pubkey,
    owner: Pubkey,
    authority: (Pubkey, bool),
    standard: ty::Standard,
    exts: Vec<ty::ExtensionInput>,
    group: Option<(Pubkey, Pubkey)>,
) -> Instruction {
    ix::Create {
        asset,
        authority,
        owner,
        group: group.map(|g| g.0),
        group_authority: group.map(|g| g.1),
        payer: Some(key(30)),
        system_program: Some(system_program::ID),
    }
    .instruction(ix::CreateInstructionArgs {
        name: "demo".into(),
        standard,
        mutable: true,
        extensions: Some(exts),
    })
}

pub fn transfer(asset: Pubkey, signer: Pubkey, recipient: Pubkey, group: Option<Pubkey>) -> Instruction {
    ix::Transfer { asset, signer, recipient, group }.instruction()
}

/// Reports the outcome of the demonstration.
pub fn verdict(holds: bool, what: &str) {
    println!("{}: {what}", if holds { "holds" } else { "BROKEN" });
    std::process::exit(if holds { 0 } else { 1 });
}
