// Attributes of pyo3 used by /repo/rust/lib.rs: functions stay as they are, the module is left out.
extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn pyo3(_a: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, _item: TokenStream) -> TokenStream { TokenStream::new() }
