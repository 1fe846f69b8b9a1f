//! Stand-in for the part of `coset` used in the repository: an (untagged)
//! COSE_Sign1 array `[protected bstr, unprotected map, payload, signature]`.
use ciborium::Value;
pub mod iana {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Algorithm { EdDSA = -8, ES256K = -47 }
}
#[derive(Clone, Debug, PartialEq)]
pub struct CoseError(pub String);
impl std::fmt::Display for CoseError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for CoseError {}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header { pub alg: Option<i64>, pub key_id: Vec<u8> }
#[derive(Default)]
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn algorithm(mut self, a: iana::Algorithm) -> Self { self.0.alg = Some(a as i64); self }
    pub fn key_id(mut self, k: Vec<u8>) -> Self { self.0.key_id = k; self }
    pub fn build(self) -> Header { self.0 }
}
impl Header {
    fn to_value(&self) -> Value {
        let mut m = vec![];
        if let Some(a) = self.alg { m.push((Value::from(1), Value::from(a))); }
        if !self.key_id.is_empty() { m.push((Value::from(4), Value::Bytes(self.key_id.clone()))); }
        Value::Map(m)
    }
    fn from_value(v: &Value) -> Result<Self, CoseError> {
        let Value::Map(m) = v else { return Err(CoseError("header is not a map".into())) };
        let mut h = Self::default();
        for (k, v) in m {
            if k == &Value::from(1) { h.alg = v.as_integer().and_then(|i| i64::try_from(i).ok()); }
            if k == &Value::from(4) { h.key_id = v.as_bytes().cloned().unwrap_or_default(); }
        }
        Ok(h)
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CoseSign1 {
    pub protected: Header,
    pub unprotected: Header,
    pub payload: Option<Vec<u8>>,
    pub signature: Vec<u8>,
}
#[derive(Default)]
pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self { Self::default() }
    pub fn protected(mut self, h: Header) -> Self { self.0.protected = h; self }
    pub fn unprotected(mut self, h: Header) -> Self { self.0.unprotected = h; self }
    pub fn payload(mut self, p: Vec<u8>) -> Self { self.0.payload = Some(p); self }
    pub fn signature(mut self, s: Vec<u8>) -> Self { self.0.signature = s; self }
    pub fn build(self) -> CoseSign1 { self.0 }
}
pub trait AsCborValue: Sized {
    fn from_cbor_value(value: Value) -> Result<Self, CoseError>;
    fn to_cbor_value(self) -> Result<Value, CoseError>;
}
impl AsCborValue for CoseSign1 {
    fn from_cbor_value(value: Value) -> Result<Self, CoseError> {
        let Value::Array(a) = value else { return Err(CoseError("not an array".into())) };
        let [p, u, pl, s] = a.as_slice() else { return Err(CoseError("not 4 items".into())) };
        let pb = p.as_bytes().ok_or_else(|| CoseError("protected".into()))?;
        let protected = if pb.is_empty() { Header::default() } else {
            Header::from_value(&ciborium::from_reader(pb.as_slice()).map_err(|e| CoseError(e.to_string()))?)?
        };
        Ok(Self {
            protected,
            unprotected: Header::from_value(u)?,
            payload: pl.as_bytes().cloned(),
            signature: s.as_bytes().cloned().ok_or_else(|| CoseError("signature".into()))?,
        })
    }
    fn to_cbor_value(self) -> Result<Value, CoseError> {
        let mut pb = vec![];
        if self.protected != Header::default() {
            ciborium::into_writer(&self.protected.to_value(), &mut pb).map_err(|e| CoseError(e.to_string()))?;
        }
        Ok(Value::Array(vec![
            Value::Bytes(pb),
            self.unprotected.to_value(),
            self.payload.map_or(Value::Null, Value::Bytes),
            Value::Bytes(self.signature),
        ]))
    }
}
