//! Stand-in for `vercre-infosec` (a git dependency that is not available).
//!
//! Symbolic cryptography: a key's "public" half carries its secret and a
//! signature is `SHA-256(secret || message)`, so signatures made with one key
//! never verify under another and any change of the message invalidates them.
//! JWS compact serialisation, headers and key references follow the real crate.
use std::fmt;
use std::future::Future;

use serde::{Deserialize, Serialize};

pub mod cose;
pub mod jose;
pub use jose::jwk::PublicKeyJwk;

#[derive(Clone, Copy, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Algorithm {
    ES256K,
    #[default]
    EdDSA,
}
impl fmt::Display for Algorithm {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Curve {
    #[default]
    Ed25519,
    #[serde(rename = "ES256K", alias = "secp256k1")]
    Es256K,
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum KeyType {
    #[default]
    #[serde(rename = "OKP")]
    Okp,
    #[serde(rename = "EC")]
    Ec,
    #[serde(rename = "oct")]
    Oct,
}

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> anyhow::Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> anyhow::Result<impl Decryptor>;
}
pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send {
        let v = async { self.try_sign(msg).await.expect("should sign") };
        async { v.await }
    }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}
pub trait Encryptor: Send + Sync {
    fn encrypt(
        &self, plaintext: &[u8], recipient_public_key: &[u8],
    ) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}
pub trait Decryptor: Send + Sync {
    fn decrypt(
        &self, ciphertext: &[u8], sender_public_key: &[u8],
    ) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
}

/// Symbolic signature.
pub fn symbolic_sign(secret: &[u8], msg: &[u8]) -> Vec<u8> {
    use sha2::{Digest, Sha256};
    let mut h = Sha256::new();
    h.update((secret.len() as u64).to_le_bytes());
    h.update(secret);
    h.update(msg);
    h.finalize().to_vec()
}
