//! Targets which are part of scale-decode, and properties of those.
pub mod bomb;
pub mod entries;
pub mod nested;
pub mod props;
