//! Stands in for the crate of this name, which isn't available for wasm: there are no
//! directories to find.
use std::path::PathBuf;

pub trait BaseStrategy {
    fn config_dir(&self) -> PathBuf;
}

pub struct Nowhere;

impl BaseStrategy for Nowhere {
    fn config_dir(&self) -> PathBuf {
        PathBuf::new()
    }
}

pub fn choose_base_strategy() -> Result<Nowhere, String> {
    Ok(Nowhere)
}
