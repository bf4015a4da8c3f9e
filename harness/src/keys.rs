//! Fixed addresses. They differ in the last byte only (one differs in the first byte only).

use solana_program::pubkey::Pubkey;

const fn k(n: u8) -> Pubkey {
    let mut b = [0x5a; 32];
    b[31] = n;
    Pubkey::new_from_array(b)
}
const fn first(n: u8) -> Pubkey {
    let mut b = [0x5a; 32];
    b[0] = 0x5b;
    b[31] = n;
    Pubkey::new_from_array(b)
}

macro_rules! keys {
    ($($n:ident = $e:expr;)*) => {
        $(pub const $n: Pubkey = $e;)*
        pub fn name(x: &Pubkey) -> String {
            $(if *x == $n { return stringify!($n).into(); })*
            if *x == Pubkey::default() { return "null".into(); }
            if *x == crate::op::ASSET { return "asset-program".into(); }
            x.to_string()
        }
    };
}

keys! {
    OWNER = k(1);
    BOB = k(2);
    DEL = k(3);
    DEL2 = k(4);
    MGR = k(5);
    AUTH = k(6);
    AUTH2 = k(7);
    GDEL = k(8);
    C1 = k(9);
    C2 = k(10);
    C3 = k(11);
    PAYER = k(12);
    SINK = k(13);
    POOR = k(14);
    OWNER_TWIN = first(1);
    AUTH_TWIN = first(6);
    A1 = k(32);
    A2 = k(33);
    A3 = k(34);
    A4 = k(35);
    G1 = k(40);
    G2 = k(41);
    BUF = k(48);
    BUF2 = k(49);
    BUF3 = k(50);
    BUF4 = k(51);
    FAKE = k(56);
    FAKEG = k(57);
    FAKEB = k(58);
    FRESH = k(64);
    FRESH2 = k(65);
    VAULT = k(72);
    VAULT2 = k(73);
    EMPTYV = k(74);
    PROG1 = k(80);
    PROG2 = k(81);
    WRITER = k(90);
    FUNDER = k(99);
    RAW10 = k(100);
    RAW168 = k(101);
    RAW200 = k(102);
}
