//! merlin 1.3.0, unchanged except that every absorbed message and every challenge is recorded in a
//! thread-local log while recording is switched on (used by the model-checking harness).
mod constants;
mod strobe;
mod transcript;
pub mod log;
pub use crate::transcript::Transcript;
pub use crate::transcript::TranscriptRng;
pub use crate::transcript::TranscriptRngBuilder;
