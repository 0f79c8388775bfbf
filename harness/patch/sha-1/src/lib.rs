//! Stand-in for the sha-1 crate: collects the message and asks the engine for its digest. The engine
//! computes the real SHA-1 of concrete messages and treats it as collision free on symbolic ones.
use digest::consts::{U20, U64};
pub use digest::{self, Digest};
use digest::{BlockInput, FixedOutputDirty, Reset, Update};

extern "C" {
    fn sx_digest(p: *const u8, n: usize, out: *mut u8);
}

#[derive(Clone, Default)]
pub struct Sha1 {
    data: Vec<u8>,
}
impl BlockInput for Sha1 {
    type BlockSize = U64;
}
impl Update for Sha1 {
    fn update(&mut self, input: impl AsRef<[u8]>) {
        self.data.extend_from_slice(input.as_ref());
    }
}
impl FixedOutputDirty for Sha1 {
    type OutputSize = U20;
    fn finalize_into_dirty(&mut self, out: &mut digest::Output<Self>) {
        unsafe { sx_digest(self.data.as_ptr(), self.data.len(), out.as_mut_ptr()) }
    }
}
impl Reset for Sha1 {
    fn reset(&mut self) {
        self.data.clear();
    }
}
impl core::fmt::Debug for Sha1 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Sha1 { .. }")
    }
}
digest::impl_write!(Sha1);
