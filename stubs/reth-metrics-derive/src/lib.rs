use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};
/// `Metrics` derive whose handles are no-ops.
#[proc_macro_derive(Metrics, attributes(metrics, metric))]
pub fn metrics(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Struct(s) = &input.data else { panic!("struct") };
    let Fields::Named(f) = &s.fields else { panic!("named") };
    let inits = f.named.iter().map(|f| {
        let id = &f.ident;
        let ty = &f.ty;
        let skip = f.attrs.iter().any(|a| {
            use quote::ToTokens;
            a.path().is_ident("metric") && a.to_token_stream().to_string().contains("skip")
        });
        if skip { quote!(#id: ::core::default::Default::default()) } else { quote!(#id: <#ty as ::reth_metrics::Noop>::make()) }
    });
    let inits2: Vec<_> = inits.collect();
    quote! {
        impl ::core::default::Default for #name { fn default() -> Self { Self { #(#inits2),* } } }
        impl ::core::fmt::Debug for #name { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(stringify!(#name)) } }
        impl #name {
            #[allow(dead_code)]
            pub fn new_with_labels(_labels: impl ::reth_metrics::metrics::IntoLabels + Clone) -> Self { Self::default() }
            #[allow(dead_code)]
            pub fn describe() {}
        }
    }.into()
}
