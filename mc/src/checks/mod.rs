use crate::common::*;

pub mod all;
pub mod chains;
pub mod contend;
pub mod decode;
pub mod families;
pub mod framing;
pub mod kinds;
pub mod names;
pub mod params;
pub mod responses;
pub mod routing;
pub mod sched;
pub mod slots;
pub mod slow;
pub mod state;
pub mod statics;
pub mod streams;
pub mod surround;
pub mod times;

pub const IDS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23"];

pub fn build(id: &str, t: Tier) -> Check {
    let mut c = build_sections(id, t);
    if ["C07", "C11", "C12", "C15", "C18", "C19", "C20", "C21", "C22"].contains(&c.id) {
        c.sections.extend(slow::sections(c.id, t));
    }
    if let Some(id) = ["C10", "C11", "C17", "C20"].iter().find(|x| **x == c.id) {
        c.sections.push(streams::section_for(id));
    }
    if ["C19", "C20"].contains(&c.id) {
        c.sections.push(contend::section_for(c.id));
    }
    if kinds::IDS.contains(&c.id) {
        c.sections.push(kinds::section_for(t, c.id));
    }
    if c.id == "C12" {
        c.sections.extend(framing::sections(t));
    }
    if ["C21", "C23"].contains(&c.id) {
        c.sections.push(framing::announced());
    }
    if c.id == "C21" {
        c.sections.push(contend::panics());
    }
    if !["C05", "C22", "C23"].contains(&c.id) {
        c.sections.push(times::section_for(c.id));
    }
    c
}

fn build_sections(id: &str, t: Tier) -> Check {
    match id {
        "C01" => routing::c01(t),
        "C02" => routing::c02(t),
        "C03" => routing::c03(t),
        "C04" => routing::c04(t),
        "C05" => routing::c05(t),
        "C06" => routing::c06(t),
        "C07" => chains::c07(t),
        "C10" => responses::c10(t),
        "C11" => chains::c11(t),
        "C12" => decode::c12(t),
        "C13" => decode::c13(t),
        "C14" => decode::c14(t),
        "C15" => chains::c15(t),
        "C18" => chains::c18(t),
        "C19" => sched::c19(t),
        "C21" => sched::c21(t),
        "C23" => sched::c23(t),
        "C20" => chains::c20(t),
        "C22" => chains::c22(t),
        "C08" => routing::c08(t),
        "C09" => routing::c09(t),
        "C16" => statics::c16(t),
        "C17" => statics::c17(t),
        _ => {
            out(&format!("unknown property {}", id));
            std::process::exit(2);
        }
    }
}

pub fn cleanup() {
    statics::cleanup();
    responses::cleanup();
}
