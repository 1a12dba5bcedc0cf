use crate::engine::Prop;
pub mod auth;
pub mod roles;
pub mod authvm;
pub mod sessvm;
pub mod scene;
pub mod bundle;
pub mod common;
pub mod limits;
pub mod lists;
pub mod smoke;
pub mod subs;
pub mod party;
pub mod birth;
pub mod closing;
pub mod cost;
pub mod spend;
pub mod replace;
pub mod forge;
pub mod nested;
#[cfg(feature = "client")]
pub mod client;
#[cfg(feature = "client")]
pub mod client_calls;
#[cfg(feature = "sdk")]
pub mod sdkp;
#[cfg(feature = "sdk")]
pub mod walletp;
#[cfg(feature = "cli")]
pub mod clip;
#[cfg(feature = "cli")]
pub mod lip;
pub fn all() -> Vec<Prop> {
    vec![smoke::prop(), limits::p02(), limits::p03(), limits::p04(), lists::p05(), lists::p06(), lists::p14(), bundle::p15(), bundle::p16(), lists::p17(), lists::p19(), roles::p01(), spend::p20(), spend::p21(), spend::p22(), roles::p23(), replace::p24(), forge::p33(), nested::p37(), subs::p25(), subs::p26(), subs::p27(), birth::p30(), birth::p31(), closing::p18(), closing::p28(), closing::p29(), closing::p32(), cost::p40(), auth::p07(), auth::p08(), auth::p09(), auth::p10(), auth::p11(), auth::p12(), auth::p13(), #[cfg(feature = "client")] client::p34(), #[cfg(feature = "sdk")] sdkp::p35(), #[cfg(feature = "sdk")] walletp::p36(), #[cfg(feature = "cli")] clip::p38(), #[cfg(feature = "cli")] lip::p39()]
}
