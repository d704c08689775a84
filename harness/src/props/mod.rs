pub mod bootp;
pub mod calcp;
pub mod crashp;
pub mod detp;
pub mod drvp;
pub mod filep;
pub mod genp;
pub mod langp;
pub mod lexp;
pub mod manyp;
pub mod opp;
pub mod repp;
pub mod runp;
pub mod specp;
pub mod warnp;

use crate::run::Prop;

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => lexp::c01(),
        "C02" => lexp::c02(),
        "C03" => lexp::c03(),
        "C04" => lexp::c04(),
        "C05" => lexp::c05(),
        "C06" => drvp::c06(),
        "C07" => drvp::c07(),
        "C08" => drvp::c08(),
        "C09" => drvp::c09(),
        "C10" => genp::c10(),
        "C11" => genp::c11(),
        "C12" => genp::c12(),
        "C13" => genp::c13(),
        "C14" => genp::c14(),
        "C15" => runp::c15(),
        "C16" => runp::c16(),
        "C17" => genp::c17(),
        "C18" => detp::c18(),
        "C19" => specp::c19(),
        "C20" => crashp::c20(),
        "C21" => specp::c21(),
        "C22" => bootp::c22(),
        "C23" => filep::c23(),
        "C24" => specp::c24(),
        "C25" => specp::c25(),
        "C26" => repp::c26(),
        "C27" => warnp::c27(),
        "C28" => manyp::c28(),
        "C29" => calcp::c29(),
        "C30" => langp::c30(),
        _ => return None,
    })
}
