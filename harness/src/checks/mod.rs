pub mod build;
pub mod codegen;
pub mod history;
pub mod programs;
pub mod repository;
pub mod routers;
pub mod routing;
pub mod texts;
#[cfg(feature = "parts")]
pub mod parts;
