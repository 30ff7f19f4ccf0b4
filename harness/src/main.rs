//! Property checks for sequential-storage. Usage: `checks <P01..P22> [replay FILE]`.
mod combos;
mod mapx;
mod p_buffered;
mod p_codec;
mod p_config;
mod p_cost;
mod p_corrupt;
mod p_flash;
mod p_format;
mod p_map;
mod p_queue;
mod p_small;
mod p_user;
mod queuex;
mod runner;
mod wide;
use hcore::{bufsut, format, sim, sut};

fn main() {
    runner::main_with(|id| {
        Some(match id {
            "P01" => p_map::p01(),
            "P02" => p_map::p02(),
            "P03" => p_map::p03(),
            "P04" => p_map::p04(),
            "P05" => p_queue::p05(),
            "P06" => p_queue::p06(),
            "P07" => p_queue::p07(),
            "P08" => p_queue::p08(),
            "P09" => p_flash::p09(),
            "P10" => p_flash::p10(),
            "P11" => p_flash::p11(),
            "P12" => p_corrupt::p12(),
            "P13" => p_corrupt::p13(),
            "P14" => p_format::p14(),
            "P15" => p_codec::p15(),
            "P16" => p_buffered::p16(),
            "P17" => p_buffered::p17(),
            "P18" => p_config::p18(),
            "P19" => p_corrupt::p19(),
            "P20" => p_small::p20(),
            "P21" => p_user::p21(),
            "P22" => p_cost::p22(),
            _ => return None,
        })
    })
}
