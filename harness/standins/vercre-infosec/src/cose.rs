use std::ops::Deref;

use anyhow::anyhow;
use ciborium::Value;
use serde::de::{self, DeserializeOwned};
use serde::{ser, Deserialize, Deserializer, Serialize, Serializer};

use crate::{Curve, KeyType};

pub mod cbor {
    use super::*;
    pub fn to_vec<T: Serialize>(value: &T) -> anyhow::Result<Vec<u8>> {
        let mut buf = Vec::new();
        ciborium::into_writer(value, &mut buf).map_err(|e| anyhow!("cbor: {e}"))?;
        Ok(buf)
    }
    pub fn from_slice<T: DeserializeOwned>(slice: &[u8]) -> anyhow::Result<T> {
        ciborium::from_reader(slice).map_err(|e| anyhow!("cbor: {e}"))
    }
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct CoseKey {
    pub kty: KeyType,
    pub crv: Curve,
    pub x: Vec<u8>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub y: Option<Vec<u8>>,
}

/// CBOR tag 24: a byte string holding the encoding of the inner value.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Tag24<T>(pub T);
impl<T: Serialize> Tag24<T> {
    pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> { cbor::to_vec(self) }
}
impl<T> Deref for Tag24<T> {
    type Target = T;
    fn deref(&self) -> &T { &self.0 }
}
impl<T: Serialize> Serialize for Tag24<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let inner = cbor::to_vec(&self.0).map_err(ser::Error::custom)?;
        Value::Tag(24, Box::new(Value::Bytes(inner))).serialize(s)
    }
}
impl<'de, T: DeserializeOwned> Deserialize<'de> for Tag24<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let Value::Tag(24, b) = Value::deserialize(d)? else { return Err(de::Error::custom("not tag 24")) };
        let Value::Bytes(b) = *b else { return Err(de::Error::custom("tag 24 is not bytes")) };
        cbor::from_slice(&b).map(Self).map_err(de::Error::custom)
    }
}
