pub fn nonce_advance(nonce: &mut [u8]) {
    super::nonce_advance(nonce)
}
