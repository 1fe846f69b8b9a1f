// What every driver of a protocol needs: a clock it sets, a way to run futures, keys and DIDs, a state store.
#![allow(dead_code)]
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use anyhow::{anyhow, Result};
use base64ct::{Base64UrlUnpadded, Encoding};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;
use vercre_did::{Document, MethodType, VerificationMethod};
use vercre_infosec::jose::jwk::PublicKeyJwk;
use vercre_infosec::{symbolic_sign, Algorithm, Decryptor, Encryptor, Signer};

// ---------------------------------------------------------------- clock
pub const EPOCH: i64 = 1_767_225_600; // 2026-01-01
static NOW: AtomicI64 = AtomicI64::new(EPOCH);
pub fn set_now(t: i64) { NOW.store(EPOCH + t, Ordering::SeqCst); }
pub fn now() -> i64 { NOW.load(Ordering::SeqCst) - EPOCH }

#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
/// Stands in for the C library's: the code under test sees the clock of the specification.
/// # Safety
/// as clock_gettime
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, ts: *mut Timespec) -> i32 {
    (*ts).sec = NOW.load(Ordering::SeqCst);
    (*ts).nsec = 500_000_000;
    0
}

// ---------------------------------------------------------------- futures
struct Idle;
impl Wake for Idle { fn wake(self: Arc<Self>) {} }
pub fn run<F: Future>(f: F) -> F::Output {
    let waker = Waker::from(Arc::new(Idle));
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    for _ in 0..100_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
    }
    panic!("never ready");
}

// ---------------------------------------------------------------- keys
pub fn secret_of(did: &str) -> Vec<u8> { format!("secret of {did}").into_bytes() }
pub fn jwk_of(did: &str) -> PublicKeyJwk {
    PublicKeyJwk { x: Base64UrlUnpadded::encode_string(&secret_of(did)), ..PublicKeyJwk::default() }
}
pub fn kid_of(did: &str) -> String { format!("{did}#key-0") }
pub fn document(did: &str) -> Document {
    Document {
        id: did.into(),
        verification_method: vec![VerificationMethod {
            id: kid_of(did),
            controller: did.into(),
            method_type: MethodType { public_key_jwk: jwk_of(did) },
        }],
    }
}
#[derive(Clone, Debug)]
pub struct Key(pub String);
impl Signer for Key {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> { Ok(symbolic_sign(&secret_of(&self.0), msg)) }
    async fn public_key(&self) -> Result<Vec<u8>> { Ok(secret_of(&self.0)) }
    fn algorithm(&self) -> Algorithm { Algorithm::EdDSA }
    fn verification_method(&self) -> String { kid_of(&self.0) }
}
impl Encryptor for Key {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> { Err(anyhow!("no encryption here")) }
    fn public_key(&self) -> Vec<u8> { secret_of(&self.0) }
}
impl Decryptor for Key {
    async fn decrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> { Err(anyhow!("no encryption here")) }
}
pub fn b64(v: &[u8]) -> String { Base64UrlUnpadded::encode_string(v) }
pub fn unb64(s: &str) -> Option<Vec<u8>> { Base64UrlUnpadded::decode_vec(s).ok() }
/// A JWT with any header and claims, signed with a DID's key.
pub fn token(header: &Value, claims: &Value, did: &str) -> String {
    let payload = format!("{}.{}", b64(header.to_string().as_bytes()), b64(claims.to_string().as_bytes()));
    let sig = symbolic_sign(&secret_of(did), payload.as_bytes());
    format!("{payload}.{}", b64(&sig))
}
/// Header and claims of a JWT, and which of the given DIDs signed it.
pub fn opened(jwt: &str, dids: &[&str]) -> Option<(Value, Value, Option<String>)> {
    let parts: Vec<&str> = jwt.split('.').collect();
    let [h, c, s] = parts.as_slice() else { return None };
    let header = serde_json::from_slice(&unb64(h)?).ok()?;
    let claims = serde_json::from_slice(&unb64(c)?).ok()?;
    let sig = unb64(s)?;
    let by = dids.iter().find(|d| symbolic_sign(&secret_of(d), format!("{h}.{c}").as_bytes()) == sig);
    Some((header, claims, by.map(|d| (*d).to_string())))
}

// ---------------------------------------------------------------- state
#[derive(Clone, Debug, Default)]
pub struct Store {
    pub map: BTreeMap<String, (Value, DateTime<Utc>)>,
    /// forget entries once their expiry has passed, as a store may
    pub expunge: bool,
    pub puts: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Shared(pub Arc<Mutex<Store>>);
impl Shared {
    pub fn put(&self, key: &str, state: impl Serialize, expiry: DateTime<Utc>) -> Result<()> {
        let v = serde_json::to_value(state)?;
        let mut s = self.0.lock().unwrap();
        s.puts += 1;
        s.map.insert(key.to_string(), (v, expiry));
        Ok(())
    }
    pub fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let s = self.0.lock().unwrap();
        let Some((v, expiry)) = s.map.get(key) else { return Err(anyhow!("state not found")) };
        if s.expunge && *expiry < Utc::now() { return Err(anyhow!("state not found")); }
        Ok(serde_json::from_value(v.clone())?)
    }
    pub fn purge(&self, key: &str) -> Result<()> {
        self.0.lock().unwrap().map.remove(key);
        Ok(())
    }
    pub fn save(&self) -> Store { self.0.lock().unwrap().clone() }
    pub fn restore(&self, s: Store) { *self.0.lock().unwrap() = s; }
}
