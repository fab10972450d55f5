
pub use self::normalize_end_tags::*;
pub use self::transform::*;

mod normalize_end_tags;
mod transform;
