//! The scenarios of each property.
use crate::explore::Scenario;
use crate::Tier;

mod builder;
mod caches;
mod codec;
mod e2e;
mod faults;
mod files;
mod imports;
mod memory;
mod resolve;
mod robust;
mod threads;
mod walks;

pub const ALL: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29",
];

pub fn scenarios(prop: &str, tier: Tier) -> Vec<Scenario> {
    match prop {
        "C01" => imports::c01(tier),
        "C02" => imports::c02(tier),
        "C03" => imports::c03(tier),
        "C04" => files::c04(tier),
        "C05" => files::c05(tier),
        "C06" => files::c06(tier),
        "C07" => robust::c07(tier),
        "C08" => robust::c08(tier),
        "C09" => walks::c09(tier),
        "C10" => walks::c10(tier),
        "C11" => walks::c11_walks(tier).into_iter().chain(files::c11_visits(tier)).chain(resolve::c11_lookups(tier)).collect(),
        "C12" => walks::c12(tier),
        "C13" => builder::c13(tier),
        "C14" => builder::c14(tier),
        "C15" => builder::c15(tier),
        "C16" => builder::c16(tier),
        "C26" => builder::c26(tier),
        "C17" => resolve::c17(tier),
        "C18" => resolve::c18(tier),
        "C19" => caches::c19(tier),
        "C20" => walks::c20(tier),
        "C21" => codec::c21(tier),
        "C22" => codec::c22(tier),
        "C23" => codec::c23(tier),
        "C24" => e2e::c24(tier),
        "C25" => faults::c25(tier),
        "C27" => memory::c27(tier),
        "C29" => imports::c29_imports(tier).into_iter().chain(builder::c29_builder(tier)).chain(files::c29_visits(tier)).collect(),
        "C28" => threads::c28(tier),
        _ => vec![],
    }
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let _ = prop;
    vec!["quick-protobuf, libipld (CIDs, multihashes) and the Rust standard library behave as documented".into()]
}
