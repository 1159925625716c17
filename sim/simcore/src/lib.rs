//! Everything of the simulator that does not link the code under test: random
//! numbers, JSON, an independent Ogg writer and strict parser, an independent
//! Vorbis setup/packet codec, the input generator and the reference model.
pub mod bits;
pub mod input;
pub mod json;
pub mod model;
pub mod ogg;
pub mod rng;
pub mod vorbis;
