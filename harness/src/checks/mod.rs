mod common;
mod import;
mod metamorph;
mod model;
mod reference;
#[cfg(feature = "scene")]
mod scene;
mod trim;

use crate::run::Check;

pub const ALL: &[&Check] = &[
    &import::P01, &import::P19, &import::P20, &import::P27,
    &metamorph::P02, &metamorph::P03, &metamorph::P21,
    #[cfg(feature = "scene")]
    &scene::P22,
    &metamorph::P23, &metamorph::P24, &metamorph::P25, &model::P26, &model::P28, &reference::P04,
    &reference::P05, &reference::P06, &reference::P07, &reference::P08, &reference::P09, &reference::P10, &reference::P11,
    &reference::P12, &reference::P13, &trim::P14, &reference::P15, &reference::P16, &reference::P17, &reference::P18,
];
