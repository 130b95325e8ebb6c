use crate::report::*;

pub mod delivery;
pub mod protocol;
pub mod conf;
pub mod robust;
pub mod crash;
pub mod overlap;
pub mod resource;
pub mod long;

pub fn run(p: &str) -> Report {
    match p {
        "C01" => robust::c01(),
        "C02" => robust::c02(),
        "C03" => robust::c03(),
        "C15" => robust::c15(),
        "C16" => robust::c16(),
        "C21" => crash::c21(),
        "C23" => resource::c23(),
        "C24" => resource::c24(),
        "C25" => resource::c25(),
        "C04" => delivery::c04(),
        "C05" => delivery::c05(),
        "C06" => delivery::c06(),
        "C07" => delivery::c07(),
        "C08" => delivery::c08(),
        "C09" => protocol::c09(),
        "C10" => protocol::c10(),
        "C11" => conf::c11(),
        "C12" => protocol::c12(),
        "C13" => protocol::c13(),
        "C14" => protocol::c14(),
        "C17" => delivery::c17(),
        "C18" => conf::c18(),
        "C19" => conf::c19(),
        "C20" => conf::c20(),
        "C26" => overlap::c26(),
        _ => panic!("no property {}", p),
    }
}
