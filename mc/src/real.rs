//! Conformance: the real recordings of the repository, decoded by our decoder, must re-encode byte for
//! byte, and the models run over their decoded histories must agree with the library.
use std::path::PathBuf;

pub fn dir() -> PathBuf {
    PathBuf::from("/repo/tests/files")
}

/// (name, bytes) of every recording, smallest first
pub fn demos() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(dir())
        .map(|d| {
            d.filter_map(|e| e.ok())
                .filter(|e| e.path().extension().is_some_and(|x| x == "mvd"))
                .filter_map(|e| Some((e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).ok()?)))
                .collect()
        })
        .unwrap_or_default();
    v.sort_by_key(|(n, d)| (d.len(), n.clone()));
    v
}
