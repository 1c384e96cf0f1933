pub use tokio_real::*;
pub mod net;
pub mod time;
pub mod world;
