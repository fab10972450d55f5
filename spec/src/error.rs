
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, thiserror::Error)]
pub enum Error {
    #[error("{0}")]
    ParseError(String),
    #[cfg(feature = "serde")]
    #[error(transparent)]
    DeserializationError(#[from] crate::de::DeserializationError),
    #[error(transparent)]
    NormalizationError(#[from] crate::transforms::NormalizationError),
    #[error(transparent)]
    EntityError(#[from] crate::entities::EntityError),
    #[error("invalid marked section keyword: {0}")]
    InvalidMarkedSectionKeyword(String),
}

