#![allow(clippy::all, non_camel_case_types, non_snake_case, non_upper_case_globals, unused, improper_ctypes)]
include!("bindings.rs");
