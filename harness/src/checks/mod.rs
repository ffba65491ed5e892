use crate::ctx::Ctx;

#[cfg(feature = "analysis")]
mod analysis;
#[cfg(feature = "extension")]
mod extension;
#[cfg(feature = "files")]
mod files;
#[cfg(feature = "helpers")]
pub mod helpers;
#[cfg(feature = "sanitized")]
mod interpreted;
#[cfg(feature = "parsing")]
mod parsing;
#[cfg(feature = "project")]
pub mod project;
mod scratch;
#[cfg(feature = "server")]
pub mod server;
#[cfg(feature = "session")]
mod session;
#[cfg(feature = "text")]
mod text;
#[cfg(feature = "typed")]
mod typed;
#[cfg(feature = "wire")]
mod wire;

#[cfg(feature = "sanitized")]
pub use interpreted::miri;

pub const KNOWN_FINDINGS: &str = "/verif/known-findings.txt";

pub struct Spec {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// seconds, (quick, thorough)
    pub budget: (u64, u64),
    pub max_shards: u64,
    /// distinct non-trivial cases below which a run decides nothing
    pub at_least: u64,
}

pub const ALL: &[Spec] = &[
    #[cfg(feature = "parsing")]
    parsing::P01,
    #[cfg(feature = "parsing")]
    parsing::P02,
    #[cfg(feature = "parsing")]
    parsing::P03,
    #[cfg(feature = "parsing")]
    parsing::P04,
    #[cfg(feature = "parsing")]
    parsing::P05,
    #[cfg(feature = "parsing")]
    parsing::P06,
    #[cfg(feature = "text")]
    text::P07,
    #[cfg(feature = "server")]
    server::P08,
    #[cfg(feature = "server")]
    server::P09,
    #[cfg(feature = "server")]
    server::P10,
    #[cfg(feature = "server")]
    server::P11,
    #[cfg(feature = "server")]
    server::P12,
    #[cfg(feature = "server")]
    server::P13,
    #[cfg(feature = "wire")]
    wire::P14,
    #[cfg(feature = "files")]
    files::P15,
    #[cfg(feature = "files")]
    files::P16,
    #[cfg(feature = "files")]
    files::P17,
    #[cfg(feature = "files")]
    files::P18,
    #[cfg(feature = "analysis")]
    analysis::P19,
    #[cfg(feature = "analysis")]
    analysis::P20,
    #[cfg(feature = "project")]
    project::P21,
    #[cfg(feature = "project")]
    project::P22,
    #[cfg(feature = "sanitized")]
    crate::sanitize::P23,
    #[cfg(feature = "session")]
    session::P24,
    #[cfg(feature = "typed")]
    typed::P25,
    #[cfg(feature = "extension")]
    extension::P26,
    #[cfg(feature = "extension")]
    extension::P27,
    #[cfg(feature = "wire")]
    wire::P28,
    #[cfg(feature = "helpers")]
    helpers::P29,
];
