use proc_macro::TokenStream;
/// `#[instrument]` with no subscriber installed is the identity.
#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream { item }
