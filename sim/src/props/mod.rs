//! One module per property.
use crate::run::Prop;
pub mod arcs;
pub mod batch;
pub mod draws;
pub mod files;
pub mod links;
pub mod mc;
pub mod mission;
pub mod motion;
pub mod od;
pub mod odsol;
pub mod simtrk;
pub mod target;
pub mod tdm;
pub mod track;
pub mod traj;

pub static ALL: &[&Prop] = &[&mc::P01, &mc::P02, &mc::P03, &traj::P04, &traj::P05, &traj::P06, &files::P07, &files::P08, &track::P09, &track::P10, &od::P11, &od::P12, &od::P13, &traj::P14, &simtrk::P15, &simtrk::P16, &odsol::P17, &odsol::P18, &odsol::P19, &mission::P20, &mission::P21, &arcs::P22, &batch::P23, &target::P24, &tdm::P25, &motion::P26, &motion::P27, &draws::P28, &links::P29, &odsol::P30];

pub fn find(id: &str) -> &'static Prop {
    ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
