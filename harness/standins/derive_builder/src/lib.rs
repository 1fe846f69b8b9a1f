use proc_macro::TokenStream;
/// No code in the repository uses the generated builder.
#[proc_macro_derive(Builder, attributes(builder))]
pub fn builder(_: TokenStream) -> TokenStream { TokenStream::new() }
