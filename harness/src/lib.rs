pub mod bridge;
pub mod explore;
pub mod js;
pub mod judge;
pub mod keys;
pub mod op;
pub mod proxy;
pub mod en_rules;
pub mod en_mint;
pub mod en_idl;
pub mod en_json;
pub mod en_wire;
pub mod en_ext;
pub mod pure;
pub mod registry;
pub mod report;
pub mod rules;
pub mod sc_big;
pub mod sc_ext;
pub mod sc_group;
pub mod sc_kinds;
pub mod sc_same;
pub mod sc_std;
pub mod scenarios;
pub mod spec;
pub mod view;
pub mod vm;
