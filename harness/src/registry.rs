//! Which explorations decide which property, at which tier.

use crate::{
    bridge,
    explore::{explore, Found, Scenario, Stats},
    sc_big::*,
    sc_ext::*,
    sc_group::*,
    sc_kinds::{big_kinds, kinds},
    sc_same::*,
    sc_std::*,
    scenarios::{custody, edits, role_lists},
    en_ext, en_idl, en_json, en_mint, en_rules, en_wire, js,
    spec::*,
    view::ty,
};

pub const ALL: Tags = u32::MAX;

pub enum Job {
    Search(Box<dyn Fn() -> Scenario>),
    Enumerate(&'static str, Tags, Box<dyn Fn(Tags) -> (Stats, Vec<Found>)>),
}

pub struct Entry {
    pub quick: bool,
    pub thorough: bool,
    /// so cheap that every check runs it
    pub cheap: bool,
    pub job: Job,
}

const MAX: usize = usize::MAX;

pub fn registry() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    // q: in the quick tier, t: in the thorough tier
    let mut add = |q: bool, t: bool, cheap: bool, f: Box<dyn Fn() -> Scenario>| {
        v.push(Entry { quick: q, thorough: t, cheap, job: Job::Search(f) })
    };
    add(true, true, true, Box::new(edits));
    add(true, false, false, Box::new(|| kinds(false)));
    add(false, true, false, Box::new(|| kinds(true)));
    add(true, false, false, Box::new(|| big_kinds(false)));
    add(false, true, false, Box::new(|| big_kinds(true)));
    add(true, false, true, Box::new(|| role_lists(3)));
    add(false, true, true, Box::new(|| role_lists(5)));
    for (s, m) in [(0u8, 0u8), (1, 0), (1, 1), (1, 2), (1, 4), (1, 7), (2, 0)] {
        add(true, false, true, Box::new(move || custody(s, m, false)));
        add(false, true, true, Box::new(move || custody(s, m, true)));
    }
    for (s, m) in [(0u8, 0u8), (1, 1), (1, 2), (1, 4), (1, 7), (2, 0)] {
        add(true, false, false, Box::new(move || same_custody(s, m, false)));
        add(false, true, false, Box::new(move || same_custody(s, m, true)));
    }
    for k in 0..3 {
        add(true, false, false, Box::new(move || same_groups(k, 3)));
        add(false, true, false, Box::new(move || same_groups(k, 6)));
    }
    add(true, false, false, Box::new(|| same_edits(4)));
    add(false, true, false, Box::new(|| same_edits(MAX)));
    add(true, false, false, Box::new(|| same_creators(2)));
    add(false, true, false, Box::new(|| same_creators(3)));
    add(true, false, false, Box::new(|| same_rates(3)));
    add(false, true, false, Box::new(|| same_rates(6)));
    add(true, false, false, Box::new(|| same_standards(2)));
    add(false, true, false, Box::new(|| same_standards(3)));
    add(true, false, false, Box::new(|| same_buffers(5)));
    add(false, true, false, Box::new(|| same_buffers(8)));
    add(true, false, false, Box::new(|| same_royalties(false)));
    add(false, true, false, Box::new(|| same_royalties(true)));
    add(true, false, false, Box::new(|| same_example(3)));
    add(false, true, false, Box::new(|| same_example(5)));
    add(true, false, false, Box::new(|| same_proxied(1)));
    add(false, true, false, Box::new(|| same_proxied(2)));
    add(true, false, false, Box::new(|| layouts(&[ty::BUCKET, ty::ATTRIBUTES, ty::LINKS], &[0, 3, 16], 8, &[1, 8], true)));
    add(false, true, false, Box::new(|| layouts(&[ty::BUCKET, ty::ATTRIBUTES, ty::LINKS], &[0, 2, 9, 16], 24, &[1, 8, 16], true)));
    add(false, true, false, Box::new(|| layouts(&[ty::BUCKET, ty::ATTRIBUTES, ty::LINKS, ty::BLOB], &[2, 9, 16], 8, &[8], false)));
    add(true, false, false, Box::new(|| big_layouts(2)));
    add(false, true, false, Box::new(|| big_layouts(3)));
    add(true, false, false, Box::new(|| big_buffers(2)));
    add(false, true, false, Box::new(|| big_buffers(3)));
    add(true, true, false, Box::new(big_groups));
    add(true, false, false, Box::new(|| big_creators(2)));
    add(false, true, false, Box::new(|| big_creators(3)));
    add(true, true, false, Box::new(names));
    add(true, true, false, Box::new(|| typed(3, 1, false)));
    add(true, true, false, Box::new(|| typed(2, 2, false)));
    add(true, true, false, Box::new(|| typed(3, 1, true)));
    add(true, false, false, Box::new(|| creators_scenario(false)));
    add(false, true, false, Box::new(|| creators_scenario(true)));
    add(true, true, true, Box::new(|| {
        buffers(
            "buffers",
            BufferDomain { types: vec![(ty::BUCKET, vec![0, 1, 7, 8, 9]), (ty::BLOB, vec![1, 6])], chunks: vec![1, 3], max_exts: 2 },
            MAX,
        )
    }));
    add(true, true, true, Box::new(|| {
        buffers(
            "buffers-types",
            BufferDomain {
                types: vec![(ty::CREATORS, vec![34, 68]), (ty::MANAGER, vec![33]), (ty::GROUPING, vec![16, 48])],
                chunks: vec![16, 33],
                max_exts: 3,
            },
            MAX,
        )
    }));
    for k in 0..3 {
        add(true, true, false, Box::new(move || groups(k, MAX)));
    }
    add(true, false, false, Box::new(|| royalties(false)));
    add(false, true, false, Box::new(|| royalties(true)));
    add(true, true, true, Box::new(royalty_rates));
    add(true, false, true, Box::new(|| creations(false)));
    add(false, true, false, Box::new(|| creations(true)));
    add(true, true, false, Box::new(|| standards(MAX)));
    add(true, true, true, Box::new(proxy_data));
    add(true, false, true, Box::new(|| proxied(0, 2)));
    add(false, true, false, Box::new(|| proxied(0, 3)));
    add(true, false, false, Box::new(|| proxied(1, 3)));
    add(false, true, false, Box::new(|| proxied(1, MAX)));
    add(true, true, false, Box::new(|| example(0, 2, MAX)));
    add(true, true, false, Box::new(|| example(1, 12, MAX)));
    add(true, true, true, Box::new(|| substitutions(false)));
    add(true, true, false, Box::new(account_lists));
    add(true, true, false, Box::new(|| substitutions(true)));
    add(true, true, false, Box::new(wire));
    add(true, true, true, Box::new(|| money(1)));
    add(false, true, false, Box::new(|| money(2)));
    let mut add = |q: bool, t: bool, name: &'static str, tags: Tags, f: Box<dyn Fn(Tags) -> (Stats, Vec<Found>)>| {
        v.push(Entry { quick: q, thorough: t, cheap: false, job: Job::Enumerate(name, tags, f) })
    };
    add(true, false, "rules", P08 | P09, Box::new(|m| en_rules::run(m, false)));
    add(false, true, "rules", P08 | P09, Box::new(|m| en_rules::run(m, true)));
    add(true, false, "extension-values", P19, Box::new(|m| en_ext::run(m, false)));
    add(false, true, "extension-values", P19, Box::new(|m| en_ext::run(m, true)));
    add(true, true, "library-details", P19, Box::new(en_ext::details));
    add(true, true, "account-headers", P19 | P20 | P03, Box::new(en_ext::headers));
    add(true, false, "client-instructions", P20, Box::new(|m| en_wire::run(m, false)));
    add(false, true, "client-instructions", P20, Box::new(|m| en_wire::run(m, true)));
    add(true, false, "interface-instructions", P20, Box::new(|m| en_wire::interface(m, false)));
    add(false, true, "interface-instructions", P20, Box::new(|m| en_wire::interface(m, true)));
    add(true, true, "cpi-remaining-accounts", P20, Box::new(en_wire::remaining));
    add(true, true, "client-helpers", P20 | P18, Box::new(en_wire::helpers));
    add(true, false, "mint-plans", P18, Box::new(|m| en_mint::mint(m, false)));
    add(false, true, "mint-plans", P18, Box::new(|m| en_mint::mint(m, true)));
    add(true, false, "chunked-writes", P18, Box::new(|m| en_mint::chunks(m, false)));
    add(false, true, "chunked-writes", P18, Box::new(|m| en_mint::chunks(m, true)));
    add(true, true, "json-values", P18, Box::new(en_mint::values));
    add(true, true, "bridge-histories", P15 | P16, Box::new(bridge::histories));
    add(true, true, "bridge-members", P15 | P16, Box::new(bridge::members));
    add(true, false, "bridge-pairs", P15, Box::new(|m| bridge::pairs(m, false)));
    add(false, true, "bridge-pairs", P15, Box::new(|m| bridge::pairs(m, true)));
    add(true, false, "bridge-substitutions", P15, Box::new(|m| bridge::swaps(m, false)));
    add(false, true, "bridge-substitutions", P15, Box::new(|m| bridge::swaps(m, true)));
    add(true, false, "bridge-creation", P16, Box::new(|m| bridge::creation(m, false)));
    add(false, true, "bridge-creation", P16, Box::new(|m| bridge::creation(m, true)));
    add(true, true, "bridge-client", P20, Box::new(en_wire::bridge));
    add(true, true, "client-accounts", P20, Box::new(en_wire::accounts));
    add(true, false, "js-values", P23, Box::new(|m| js::values(m, false)));
    add(false, true, "js-values", P23, Box::new(|m| js::values(m, true)));
    add(true, false, "js-instructions", P23, Box::new(|m| js::instructions(m, false)));
    add(false, true, "js-instructions", P23, Box::new(|m| js::instructions(m, true)));
    add(true, false, "js-accounts", P23, Box::new(|m| js::accounts(m, false)));
    add(false, true, "js-accounts", P23, Box::new(|m| js::accounts(m, true)));
    add(true, true, "js-numbers", P23, Box::new(js::numbers));
    add(true, true, "js-fetches", P23, Box::new(js::fetches));
    add(true, true, "js-programs", P23, Box::new(js::programs));
    add(true, false, "js-plans", P24, Box::new(|m| js::plans(m, false)));
    add(false, true, "js-plans", P24, Box::new(|m| js::plans(m, true)));
    add(true, false, "idl-descriptions", P25, Box::new(|m| en_idl::descriptions(m, false)));
    add(false, true, "idl-descriptions", P25, Box::new(|m| en_idl::descriptions(m, true)));
    add(true, false, "idl-binaries", P26, Box::new(|m| en_idl::binaries(m, false)));
    add(false, true, "idl-binaries", P26, Box::new(|m| en_idl::binaries(m, true)));
    add(true, true, "idl-statics", P26, Box::new(en_idl::statics));
    add(true, true, "json-forms", P27, Box::new(en_json::run));
    add(true, true, "json-files", P27, Box::new(en_json::files));
    add(true, true, "codes", P20 | P19 | P09, Box::new(en_wire::codes));
    v
}

pub struct Outcome {
    pub name: String,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub bound: String,
}

impl Entry {
    /// Runs it if it concerns one of the wanted properties.
    pub fn run(&self, mask: Tags) -> Option<Outcome> {
        match &self.job {
            Job::Search(f) => {
                let sc = f();
                if !self.cheap && sc.tags & mask == 0 {
                    return None;
                }
                let (stats, found) = explore(&sc, mask);
                let bound = if sc.depth == MAX {
                    "all call sequences over the alphabet, until no new state appears".to_string()
                } else {
                    format!("all call sequences over the alphabet of length up to {}", sc.depth)
                };
                Some(Outcome { name: sc.name.clone(), stats, found, bound })
            }
            Job::Enumerate(name, tags, f) => {
                if !self.cheap && tags & mask == 0 {
                    return None;
                }
                let (stats, found) = f(mask);
                Some(Outcome { name: name.to_string(), stats, found, bound: "complete enumeration of the input domain".into() })
            }
        }
    }
}
