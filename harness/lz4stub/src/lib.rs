//! Near-identity stand-in for the two entry points of lz4_flex that the repository
//! uses (size-prefixed block).  Compression is a third-party dependency; with
//! this codec memory contents can stay symbolic across a checkpoint.
#[derive(Debug)]
pub struct DecompressError;
impl std::fmt::Display for DecompressError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("bad block") }
}
impl std::error::Error for DecompressError {}

/// Length, length of the stored part, stored part; zeros beyond it are not stored.
const KEEP: usize = 4096;
pub fn compress_prepend_size(input: &[u8]) -> Vec<u8> {
    let mut n = input.len();
    if n % 8 == 0 {
        while n > KEEP && u64::from_le_bytes(input[n - 8..n].try_into().unwrap()) == 0 { n -= 8; }
    }
    let mut v = Vec::with_capacity(n + 8);
    v.extend_from_slice(&(input.len() as u32).to_le_bytes());
    v.extend_from_slice(&(n as u32).to_le_bytes());
    v.extend_from_slice(&input[..n]);
    v
}
pub fn decompress_size_prepended(input: &[u8]) -> Result<Vec<u8>, DecompressError> {
    if input.len() < 8 { return Err(DecompressError); }
    let n = u32::from_le_bytes(input[..4].try_into().unwrap()) as usize;
    let k = u32::from_le_bytes(input[4..8].try_into().unwrap()) as usize;
    if input.len() - 8 != k || k > n { return Err(DecompressError); }
    let mut v = vec![0; n];
    v[..k].copy_from_slice(&input[8..]);
    Ok(v)
}
pub mod block {
    pub use super::{compress_prepend_size, decompress_size_prepended, DecompressError};
}
