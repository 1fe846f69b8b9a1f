//! Stand-in for `vercre-did` (a git dependency that is not available): a DID
//! document is a list of verification methods, dereferenced by exact id.
use std::future::Future;

use serde::{Deserialize, Serialize};
use vercre_infosec::PublicKeyJwk;

pub trait DidResolver: Send + Sync {
    fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send;
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct Document {
    pub id: String,
    pub verification_method: Vec<VerificationMethod>,
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct VerificationMethod {
    pub id: String,
    pub controller: String,
    pub method_type: MethodType,
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub struct MethodType {
    pub public_key_jwk: PublicKeyJwk,
}
impl MethodType {
    pub fn jwk(&self) -> anyhow::Result<PublicKeyJwk> { Ok(self.public_key_jwk.clone()) }
}
#[derive(Clone, Debug, PartialEq, Eq)]
#[allow(clippy::large_enum_variant)]
pub enum Resource {
    Document(Document),
    VerificationMethod(VerificationMethod),
}
#[derive(Clone, Debug, Default)]
pub struct Options;
#[derive(Clone, Debug, Default)]
pub struct Dereferenced {
    pub content_stream: Option<Resource>,
}
pub async fn dereference(
    did_url: &str, _opts: Option<Options>, resolver: &impl DidResolver,
) -> anyhow::Result<Dereferenced> {
    let did = did_url.split('#').next().unwrap_or_default();
    let doc = resolver.resolve(did).await?;
    let vm = doc.verification_method.into_iter().find(|vm| vm.id == did_url);
    Ok(Dereferenced { content_stream: vm.map(Resource::VerificationMethod) })
}
