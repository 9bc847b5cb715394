use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};

fn transparent(i: &DeriveInput) -> bool {
    i.attrs.iter().any(|a| {
        a.path().is_ident("ssz")
            && a.parse_args::<syn::Ident>().map(|x| x == "transparent").unwrap_or(false)
    })
}
struct Field {
    acc: proc_macro2::TokenStream,
    name: String,
    ty: syn::Type,
}
fn fields(f: &Fields) -> Vec<Field> {
    f.iter()
        .enumerate()
        .map(|(k, f)| {
            let (acc, name) = match &f.ident {
                Some(i) => (quote!(#i), i.to_string()),
                None => {
                    let i = syn::Index::from(k);
                    (quote!(#i), k.to_string())
                }
            };
            Field { acc, name, ty: f.ty.clone() }
        })
        .collect()
}
/// Single-field tuple structs are transparent wrappers.
fn newtype(i: &DeriveInput) -> bool {
    matches!(&i.data, Data::Struct(s) if matches!(&s.fields, Fields::Unnamed(u) if u.unnamed.len() == 1))
}

fn serializable(i: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let (ser, de, var, size) = match &i.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            let acc: Vec<_> = fs.iter().map(|f| &f.acc).collect();
            let ty: Vec<_> = fs.iter().map(|f| &f.ty).collect();
            if newtype(i) {
                let t = &ty[0];
                (
                    quote!(ssz_rs::Serialize::serialize(&self.0, buffer)),
                    quote!(Ok(Self(<#t as ssz_rs::Deserialize>::deserialize(encoding)?))),
                    quote!(<#t as ssz_rs::Serializable>::is_variable_size()),
                    quote!(<#t as ssz_rs::Serializable>::size_hint()),
                )
            } else {
                let idx: Vec<_> = (0..fs.len()).map(syn::Index::from).collect();
                (
                    quote! {
                        let mut parts = ::std::vec::Vec::new();
                        #( {
                            let mut o = ::std::vec::Vec::new();
                            ssz_rs::Serialize::serialize(&self.#acc, &mut o)?;
                            parts.push((<#ty as ssz_rs::Serializable>::is_variable_size(), o));
                        } )*
                        ssz_rs::__internal::encode_parts(parts, buffer)
                    },
                    quote! {
                        let parts = ssz_rs::__internal::split_fields(&[ #(
                            if <#ty as ssz_rs::Serializable>::is_variable_size() { None }
                            else { Some(<#ty as ssz_rs::Serializable>::size_hint()) }
                        ),* ], encoding)?;
                        Ok(Self { #( #acc: <#ty as ssz_rs::Deserialize>::deserialize(parts[#idx])? ),* })
                    },
                    quote!(false #( || <#ty as ssz_rs::Serializable>::is_variable_size() )*),
                    quote!(if <Self as ssz_rs::Serializable>::is_variable_size() { 0 } else { 0 #( + <#ty as ssz_rs::Serializable>::size_hint() )* }),
                )
            }
        }
        Data::Enum(e) => {
            assert!(transparent(i), "only transparent enums are supported");
            let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let t: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().unwrap().ty.clone()).collect();
            (
                quote!(match self { #( Self::#v(x) => ssz_rs::Serialize::serialize(x, buffer) ),* }),
                quote! {
                    #( if let Ok(x) = <#t as ssz_rs::Deserialize>::deserialize(encoding) { return Ok(Self::#v(x)); } )*
                    Err(ssz_rs::DeserializeError::NoVariant)
                },
                quote!(true),
                quote!(0),
            )
        }
        _ => panic!("unions are not supported"),
    };
    quote! {
        impl #ig ssz_rs::Serialize for #name #tg #wc {
            fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::core::result::Result<usize, ssz_rs::SerializeError> { #ser }
        }
        impl #ig ssz_rs::Deserialize for #name #tg #wc {
            fn deserialize(encoding: &[u8]) -> ::core::result::Result<Self, ssz_rs::DeserializeError> { #de }
        }
        impl #ig ssz_rs::Serializable for #name #tg #wc {
            fn is_variable_size() -> bool { #var }
            fn size_hint() -> usize { #size }
        }
    }
}
fn htr(i: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let body = match &i.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            let acc: Vec<_> = fs.iter().map(|f| &f.acc).collect();
            if newtype(i) {
                let ty = &fs[0].ty;
                return quote! {
                    impl #ig ssz_rs::HashTreeRoot for #name #tg #wc {
                        fn hash_tree_root(&self) -> ::core::result::Result<ssz_rs::Node, ssz_rs::MerkleizationError> {
                            ssz_rs::HashTreeRoot::hash_tree_root(&self.0)
                        }
                        fn is_composite_type() -> bool { <#ty as ssz_rs::HashTreeRoot>::is_composite_type() }
                        fn pack_into(&self, b: &mut ::std::vec::Vec<u8>) { ssz_rs::HashTreeRoot::pack_into(&self.0, b) }
                        fn basic_size() -> usize { <#ty as ssz_rs::HashTreeRoot>::basic_size() }
                    }
                };
            }
            let n = fs.len();
            quote! {
                let chunks = [ #( ssz_rs::HashTreeRoot::hash_tree_root(&self.#acc)? ),* ];
                ssz_rs::merkleize_chunks(&chunks, #n)
            }
        }
        Data::Enum(e) => {
            let v: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            quote!(match self { #( Self::#v(x) => ssz_rs::HashTreeRoot::hash_tree_root(x) ),* })
        }
        _ => panic!(),
    };
    quote! {
        impl #ig ssz_rs::HashTreeRoot for #name #tg #wc {
            fn hash_tree_root(&self) -> ::core::result::Result<ssz_rs::Node, ssz_rs::MerkleizationError> { #body }
        }
    }
}
fn prove(i: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &i.ident;
    let (ig, tg, wc) = i.generics.split_for_impl();
    let (gi, tree, loc) = match &i.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            let ty: Vec<_> = fs.iter().map(|f| &f.ty).collect();
            let acc: Vec<_> = fs.iter().map(|f| &f.acc).collect();
            let nm: Vec<_> = fs.iter().map(|f| &f.name).collect();
            let n = fs.len();
            let k: Vec<_> = (0..n).collect();
            if newtype(i) {
                let t = &ty[0];
                (
                    quote!(<#t as ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent, path)),
                    quote!(ssz_rs::Prove::tree(&self.0)),
                    quote!(ssz_rs::Prove::locate(&self.0, e)),
                )
            } else {
                (
                    quote! {
                        match path.split_first() {
                            None => Ok(parent),
                            #( Some((ssz_rs::PathElement::Field(f), rest)) if f == #nm =>
                                <#ty as ssz_rs::GeneralizedIndexable>::compute_generalized_index(
                                    ssz_rs::__internal::chunk_index(parent, #n, #k, false), rest), )*
                            Some((e, _)) => Err(ssz_rs::MerkleizationError::InvalidPathElement(e.clone())),
                        }
                    },
                    quote!(Ok(ssz_rs::__internal::Tree {
                        chunks: vec![ #( ssz_rs::HashTreeRoot::hash_tree_root(&self.#acc)? ),* ], limit: #n, length: None })),
                    quote! {
                        match e {
                            #( ssz_rs::PathElement::Field(f) if f == #nm => Some((#k, Some(&self.#acc as &dyn ssz_rs::Prove))), )*
                            _ => None,
                        }
                    },
                )
            }
        }
        _ => panic!("SimpleSerialize is derived for structs only"),
    };
    let _ = format_ident!("x");
    let (j, uj) = match &i.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            let acc: Vec<_> = fs.iter().map(|f| &f.acc).collect();
            let nm: Vec<_> = fs.iter().map(|f| &f.name).collect();
            if newtype(i) {
                (quote!(ssz_rs::J::j_wrapped(&self.0)), quote!(Self(ssz_rs::J::uj_wrapped(v))))
            } else {
                (
                    quote!({ let mut m = ssz_rs::__internal::JMap::new(); #( m.insert(#nm.to_string(), ssz_rs::J::j(&self.#acc)); )* ssz_rs::__internal::JValue::Object(m) }),
                    quote!(Self { #( #acc: ssz_rs::J::uj(&v[#nm]) ),* }),
                )
            }
        }
        _ => panic!(),
    };
    quote! {
        impl #ig ssz_rs::J for #name #tg #wc {
            fn j(&self) -> ssz_rs::__internal::JValue { #j }
            fn uj(v: &ssz_rs::__internal::JValue) -> Self { #uj }
        }
        impl #ig ssz_rs::GeneralizedIndexable for #name #tg #wc {
            fn compute_generalized_index(parent: usize, path: ssz_rs::Path) -> ::core::result::Result<usize, ssz_rs::MerkleizationError> { #gi }
        }
        impl #ig ssz_rs::Prove for #name #tg #wc {
            fn tree(&self) -> ::core::result::Result<ssz_rs::__internal::Tree, ssz_rs::MerkleizationError> { #tree }
            fn locate(&self, e: &ssz_rs::PathElement) -> Option<(usize, Option<&dyn ssz_rs::Prove>)> { #loc }
        }
        impl #ig ssz_rs::SimpleSerialize for #name #tg #wc {}
    }
}

#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn d1(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    serializable(&i).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn d2(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    htr(&i).into()
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn d3(t: TokenStream) -> TokenStream {
    let i = parse_macro_input!(t as DeriveInput);
    let (a, b, c) = (serializable(&i), htr(&i), prove(&i));
    quote!(#a #b #c).into()
}
