extern crate cres as _;
extern crate noisy_float as _;
extern crate particle_id as _;
extern crate rand as _;
extern crate rayon as _;
extern crate jetty as _;
extern crate clap as _;
extern crate anyhow as _;
extern crate argfile as _;
extern crate audec as _;
extern crate itertools as _;
extern crate env_logger as _;
extern crate log as _;
extern crate rand_xoshiro as _;
extern crate regex as _;
extern crate serde as _;
extern crate serde_yaml as _;
extern crate strum as _;
extern crate thiserror as _;

// the programs are included at the root of the crate: that is where they expect their modules
#[cfg(feature = "bin_cres")]
include!("/repo/src/bin/main.rs");
#[cfg(feature = "bin_part")]
include!("/repo/src/bin/partition.rs");
#[cfg(feature = "bin_class")]
include!("/repo/src/bin/classify-events.rs");

/// stand-in: logging is not part of any property
#[cfg(any(feature = "bin_cres", feature = "bin_part", feature = "bin_class"))]
mod env_logger {
    pub struct Env;
    impl Default for Env {
        fn default() -> Self {
            Env
        }
    }
    impl Env {
        pub fn filter_or<A, B>(self, _: A, _: B) -> Self {
            self
        }
    }
    pub fn init_from_env(_: Env) {}
}
/// stand-in: the arguments come from the harness
#[cfg(any(feature = "bin_cres", feature = "bin_part", feature = "bin_class"))]
mod argfile {
    use std::ffi::OsString;
    pub static ARGS: std::sync::Mutex<Vec<OsString>> = std::sync::Mutex::new(Vec::new());
    pub const PREFIX: char = '@';
    pub fn parse_fromfile() {}
    pub fn expand_args_from<A, B, C>(_: A, _: B, _: C) -> std::io::Result<Vec<OsString>> {
        Ok(ARGS.lock().unwrap().clone())
    }
    /// run the program
    pub fn run<S: Into<OsString>>(a: impl IntoIterator<Item = S>) -> anyhow::Result<()> {
        *ARGS.lock().unwrap() = a.into_iter().map(Into::into).collect();
        crate::main()
    }
}
/// stand-in: the harness sets up a pool with a single thread
#[cfg(any(feature = "bin_cres", feature = "bin_part"))]
mod rayon {
    pub use ::rayon::*;
    pub struct ThreadPoolBuilder;
    impl ThreadPoolBuilder {
        pub fn new() -> Self {
            ThreadPoolBuilder
        }
        pub fn num_threads(self, _: usize) -> Self {
            self
        }
        pub fn build_global(self) -> Result<(), std::io::Error> {
            Ok(())
        }
    }
}

pub mod util;
pub mod vx;

type Entry = extern "C" fn(u64, u64, u64, u64);

macro_rules! areas {
    ($($feat:literal $m:ident: $($f:ident)*;)*) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        /// all harnesses of the enabled features
        pub static ENTRIES: &[(&str, Entry)] = &[
            $($(#[cfg(feature = $feat)] (stringify!($f), $m::$f),)*)*
        ];
    };
}
areas! {
    "cell" cell: h_cell;
    "resample" resample: h_resample h_resample_big h_grow h_grow_big h_nonneg_seed h_seed_turn h_builder;
    "par" par: h_par;
    "capi" capi: h_capi_view h_capi_run h_capi_err;
    "search" search: h_search h_search_big;
    "dist" dist: h_metric h_formula h_pairing h_mixed h_many h_types h_crowd;
    "event" event: h_event h_event_big h_fourvec;
    "seeds" seeds: h_seeds h_seeds_big;
    "unweight" unweight: h_unweight h_unweight_seq;
    "run" run: h_run h_run_err h_run_big;
    "part" part: h_partition h_region h_partition_big;
    "coll" coll: h_collect h_combine;
    "clus" clus: h_route h_merge h_photon h_noclus h_route_big h_photon_big;
    "hepmc" hepmc: h_hepmc_update h_hepmc_read h_hepmc_named h_hepmc_missing h_hepmc_big;
    "lhef" lhef: h_lhef_read h_lhef_update h_lhef_big;
    "xml" xml: h_xml_read h_xml_update h_xml_scale h_xml_missing h_xml_big;
    "fio" fio: h_bad_file h_removed h_announced h_long h_nan h_detect h_open h_multi h_multi_big h_write_fail h_rewind h_overwrite h_overwrite_path;
    "e2e" e2e: h_e2e;
    "bin_part" parti: h_parti h_parti_opts;
    "bin_class" classify: h_classify h_classify_fail h_classify_many;
    "bin_cres" cli: h_cli h_cli_groups h_cli_compr h_cli_values h_cli_numbers;
}
