pub mod asm;
pub mod dec;
pub mod entries;
pub mod exc;
pub mod ffi;
pub mod helpers;
pub mod loops;
pub mod misc;
mod oracle;
pub mod rt;
pub mod slices;
pub mod step;
pub mod text;
pub mod times;
