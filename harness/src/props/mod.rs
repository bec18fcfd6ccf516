pub mod load;
pub mod reject;
pub mod deliver;
pub mod write;
pub mod cursor;
pub mod frames;
pub mod joints;
pub mod channels;
pub mod literal;
pub mod value;
pub mod life;
pub mod threads;
pub mod callers;
pub mod equal;
pub mod memory;
pub mod pace;
pub mod errors;
