pub mod jwa {
    pub use crate::Algorithm;
}
pub mod jwk {
    use serde::{Deserialize, Serialize};

    use crate::{Curve, KeyType};

    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct PublicKeyJwk {
        #[serde(skip_serializing_if = "Option::is_none")]
        pub kid: Option<String>,
        pub kty: KeyType,
        pub crv: Curve,
        pub x: String,
        #[serde(skip_serializing_if = "Option::is_none")]
        pub y: Option<String>,
    }
}
pub mod jwt {
    use serde::{Deserialize, Serialize};

    use super::jws::{KeyType, Type};
    use crate::Algorithm;

    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct Header {
        pub typ: Type,
        pub alg: Algorithm,
        #[serde(flatten)]
        pub key: KeyType,
    }
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub struct Jwt<T> {
        pub header: Header,
        pub claims: T,
    }
}
pub mod jws {
    use std::fmt;
    use std::future::Future;

    use anyhow::{anyhow, bail};
    use base64ct::{Base64UrlUnpadded, Encoding};
    use serde::de::DeserializeOwned;
    use serde::{Deserialize, Serialize};

    use super::jwk::PublicKeyJwk;
    pub use super::jwt::{Header, Jwt};
    use crate::{symbolic_sign, Signer};

    #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
    pub enum KeyType {
        #[serde(rename = "kid")]
        KeyId(String),
        #[serde(rename = "jwk")]
        Jwk(PublicKeyJwk),
    }
    impl Default for KeyType {
        fn default() -> Self { Self::KeyId(String::new()) }
    }
    #[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
    pub enum Type {
        #[default]
        #[serde(rename = "vc+jwt")]
        Credential,
        #[serde(rename = "vp+jwt")]
        Presentation,
        #[serde(rename = "oauth-authz-req+jwt")]
        Request,
        #[serde(rename = "openid4vci-proof+jwt")]
        Proof,
    }
    impl fmt::Display for Type {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(match self {
                Self::Credential => "vc+jwt",
                Self::Presentation => "vp+jwt",
                Self::Request => "oauth-authz-req+jwt",
                Self::Proof => "openid4vci-proof+jwt",
            })
        }
    }

    pub async fn encode<T>(typ: Type, claims: &T, signer: impl Signer) -> anyhow::Result<String>
    where
        T: Serialize + Send + Sync,
    {
        let header = Header {
            typ,
            alg: signer.algorithm(),
            key: KeyType::KeyId(signer.verification_method()),
        };
        let h = Base64UrlUnpadded::encode_string(&serde_json::to_vec(&header)?);
        let c = Base64UrlUnpadded::encode_string(&serde_json::to_vec(claims)?);
        let payload = format!("{h}.{c}");
        let sig = signer.try_sign(payload.as_bytes()).await?;
        Ok(format!("{payload}.{}", Base64UrlUnpadded::encode_string(&sig)))
    }

    pub async fn decode<F, Fut, T>(token: &str, pk_cb: F) -> anyhow::Result<Jwt<T>>
    where
        T: DeserializeOwned + Send,
        F: Fn(String) -> Fut + Send + Sync,
        Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send,
    {
        let parts = token.split('.').collect::<Vec<_>>();
        let [h, c, s] = parts.as_slice() else { bail!("invalid Compact JWS format") };
        let b64 = |p: &str| Base64UrlUnpadded::decode_vec(p).map_err(|e| anyhow!("issue decoding JWT: {e}"));
        let header: Header = serde_json::from_slice(&b64(h)?)?;
        let sig = b64(s)?;
        let jwk = match &header.key {
            KeyType::KeyId(kid) => pk_cb(kid.clone()).await?,
            KeyType::Jwk(jwk) => jwk.clone(),
        };
        let secret = Base64UrlUnpadded::decode_vec(&jwk.x).map_err(|e| anyhow!("invalid key: {e}"))?;
        if symbolic_sign(&secret, format!("{h}.{c}").as_bytes()) != sig {
            bail!("signature verification failed");
        }
        let claims = serde_json::from_slice(&b64(c)?)?;
        Ok(Jwt { header, claims })
    }
}
