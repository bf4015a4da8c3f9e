//! Tokens for the demonstrations of the bridge, with a stand-in for the token metadata program.
#![allow(dead_code)]

use crate::rt::*;
use crate::vm::{register, rent, Acct, Meta, Prog, World};
use borsh::BorshSerialize;
use mpl_token_metadata::{
    accounts::Metadata,
    types::{Collection, Key, TokenStandard},
    ID as TM,
};
use solana_program::{instruction::AccountMeta, pubkey};

pub const BRIDGE: Pubkey = bridge_program::ID;
const SPL: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
const SYSVAR: Pubkey = pubkey!("Sysvar1nstructions1111111111111111111111111");

fn owned(w: &mut World, k: Pubkey, data: Vec<u8>, owner: Pubkey) {
    let mut a = Acct::wallet(rent(data.len()));
    a.data = data;
    a.owner = owner;
    w.set(k, a);
}

pub fn account(mint: &Pubkey, holder: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[holder.as_ref(), SPL.as_ref(), mint.as_ref()], &ATA).0
}

fn token_bytes(mint: &Pubkey, holder: &Pubkey, n: u64) -> Vec<u8> {
    let mut d = vec![0; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(holder.as_ref());
    d[64..72].copy_from_slice(&n.to_le_bytes());
    d
}

/// Moves one token from account 0 (of 1) to account 2 (of 3), signed by account 9.
fn metadata_program(w: &mut World, m: &[Meta], _d: &[u8]) -> Result<(), String> {
    let mint = m[4].key;
    if !m[9].signer || m[9].key != m[1].key {
        return Err("authority".into());
    }
    let mut a = w.get(&m[0].key);
    if a.data.len() != 165 || a.data[..32] != *mint.as_ref() || a.data[32..64] != *m[1].key.as_ref() || a.data[64] != 1 {
        return Err("source".into());
    }
    if w.data(&m[2].key).is_empty() {
        if m[2].key != account(&mint, &m[3].key) {
            return Err("destination".into());
        }
        owned(w, m[2].key, token_bytes(&mint, &m[3].key, 0), SPL);
        let mut p = w.get(&m[10].key);
        p.lamports -= rent(165);
        w.set(m[10].key, p);
    }
    let mut b = w.get(&m[2].key);
    if b.data[..32] != *mint.as_ref() || b.data[32..64] != *m[3].key.as_ref() {
        return Err("destination".into());
    }
    a.data[64] = 0;
    b.data[64] = 1;
    w.set(m[0].key, a);
    w.set(m[2].key, b);
    Ok(())
}

pub struct Token {
    pub mint: Pubkey,
    pub metadata: Pubkey,
    pub edition: Pubkey,
    pub vault: Pubkey,
    pub asset: Pubkey,
}

/// A token held by key(1), whose update authority is key(2).
pub fn token(b: &mut Bench, n: u8, collection: Option<(Pubkey, bool)>) -> Token {
    register(BRIDGE, Prog::Sol(bridge_program::entrypoint::verif_process_instruction));
    register(TM, Prog::Native(metadata_program));
    for p in [BRIDGE, TM, SPL, ATA, SYSVAR] {
        b.w.program(p);
    }
    let mint = key(n);
    let t = Token {
        mint,
        metadata: Metadata::find_pda(&mint).0,
        edition: key(n + 1),
        vault: Pubkey::find_program_address(&[b"vault", mint.as_ref()], &BRIDGE).0,
        asset: Pubkey::find_program_address(&[b"asset", mint.as_ref()], &BRIDGE).0,
    };
    let mut d = Metadata {
        key: Key::MetadataV1,
        update_authority: key(2),
        mint,
        name: "Token".into(),
        symbol: "TKN".into(),
        uri: "uri".into(),
        seller_fee_basis_points: 500,
        creators: None,
        primary_sale_happened: true,
        is_mutable: true,
        edition_nonce: Some(254),
        token_standard: Some(TokenStandard::NonFungible),
        collection: collection.map(|(key, verified)| Collection { key, verified }),
        uses: None,
        collection_details: None,
        programmable_config: None,
    }
    .try_to_vec()
    .unwrap();
    d.resize(679, 0);
    owned(&mut b.w, t.metadata, d, TM);
    owned(&mut b.w, t.edition, vec![6; 282], TM);
    owned(&mut b.w, mint, vec![1; 82], SPL);
    owned(&mut b.w, account(&mint, &key(1)), token_bytes(&mint, &key(1), 1), SPL);
    t
}

impl Token {
    pub fn create(&self, signs: bool, collection: Option<Pubkey>) -> Instruction {
        let ro = |k: Pubkey| AccountMeta::new_readonly(k, false);
        Instruction {
            program_id: BRIDGE,
            accounts: vec![
                AccountMeta::new(self.asset, false),
                AccountMeta::new(self.vault, false),
                ro(self.mint),
                ro(self.metadata),
                AccountMeta::new_readonly(key(2), signs),
                ro(collection.unwrap_or(BRIDGE)),
                AccountMeta::new(key(30), true),
                ro(system_program::ID),
                ro(ASSET),
            ],
            data: vec![1, 0],
        }
    }

    pub fn bridge(&self, by: Pubkey) -> Instruction {
        let ro = |k: Pubkey| AccountMeta::new_readonly(k, false);
        let rw = |k: Pubkey| AccountMeta::new(k, false);
        Instruction {
            program_id: BRIDGE,
            accounts: vec![
                rw(self.asset),
                rw(self.vault),
                AccountMeta::new_readonly(by, true),
                rw(account(&self.mint, &by)),
                ro(self.mint),
                rw(self.metadata),
                ro(self.edition),
                ro(BRIDGE),
                rw(account(&self.mint, &self.vault)),
                ro(BRIDGE),
                AccountMeta::new(key(30), true),
                ro(ASSET),
                ro(TM),
                ro(system_program::ID),
                ro(SYSVAR),
                ro(SPL),
                ro(ATA),
                ro(BRIDGE),
                ro(BRIDGE),
                ro(BRIDGE),
            ],
            data: vec![0],
        }
    }

    pub fn held_by(&self, b: &Bench, who: &Pubkey) -> bool {
        b.data(&account(&self.mint, who)).get(64) == Some(&1)
    }
}
