//! One module per area of the library; every `h_*` function is one harness.
//! Harnesses use the public interface of the library only.

pub mod vk;

macro_rules! harness {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[no_mangle] pub extern "C" fn $name() $body)*
        pub const LIST: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

pub mod chars;
pub mod codes;
pub mod desc;
pub mod es;
pub mod large;
pub mod mplex;
pub mod named;
pub mod psi;
pub mod tables;
pub mod text;
pub mod ts;

pub fn all() -> Vec<(&'static str, extern "C" fn())> {
    let mut v = Vec::new();
    v.extend_from_slice(desc::LIST);
    v.extend_from_slice(es::LIST);
    v.extend_from_slice(large::LIST);
    v.extend_from_slice(mplex::LIST);
    v.extend_from_slice(named::LIST);
    v.extend_from_slice(psi::LIST);
    v.extend_from_slice(tables::LIST);
    v.extend_from_slice(text::LIST);
    v.extend_from_slice(ts::LIST);
    v
}
