#[cfg(feature = "elem")]
pub mod elem;
#[cfg(feature = "geo")]
pub mod geo;
#[cfg(feature = "quad")]
pub mod quad;
pub mod fe;
#[cfg(feature = "integ")]
pub mod integ;
#[cfg(feature = "local")]
pub mod local;
#[cfg(feature = "global")]
pub mod global;
#[cfg(feature = "global")]
pub mod history;
#[cfg(feature = "mesh")]
pub mod mesh;
#[cfg(feature = "solid")]
pub mod solid;
#[cfg(feature = "par")]
pub mod par;
#[cfg(feature = "opt")]
pub mod opt;
#[cfg(feature = "space")]
pub mod space;
#[cfg(feature = "io")]
pub mod io;
#[cfg(feature = "misc")]
pub mod misc;
pub mod util;
