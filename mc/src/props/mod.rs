pub mod authority;
pub mod backing;
pub mod lifecycle;
pub mod move_tokens;
pub mod substitute;
pub mod metadata;
pub mod hooks;
pub mod crossed;
pub mod customizers;
pub mod confidential;
