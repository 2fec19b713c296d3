//! Prime fields declared with the repository's derive macros, from tiny to the largest allowed.
#![allow(missing_docs)]
use algebra::derive::{DecomposableField, FheField, Field, Prime, NTT};

macro_rules! ntt_field {
    ($($name:ident($t:tt) = $m:literal;)*) => {$(
        #[derive(Field, Prime, DecomposableField, FheField, NTT)]
        #[modulus = $m]
        #[repr(transparent)]
        pub struct $name($t);
    )*};
}
macro_rules! plain_field {
    ($($name:ident($t:tt) = $m:literal;)*) => {$(
        #[derive(Field, Prime, DecomposableField, FheField)]
        #[modulus = $m]
        #[repr(transparent)]
        pub struct $name($t);
    )*};
}
// NTT-friendly
ntt_field! {
    F5b(u8) = 5;
    F13b(u8) = 13;
    F29b(u8) = 29;
    F37b(u8) = 37;
    F53b(u8) = 53;
    F17b(u8) = 17;
    F41b(u8) = 41;
    F61b(u8) = 61;
    F97h(u16) = 97;
    F257h(u16) = 257;
    F7681h(u16) = 7681;
    F16193h(u16) = 16193;
    F17(u32) = 17;
    F97(u32) = 97;
    F193(u32) = 193;
    F257(u32) = 257;
    F12289(u32) = 12289;
    F15361(u32) = 15361;
    F65537(u32) = 65537;
    F132M(u32) = 132120577;
    F998(u32) = 998244353;
    FTop32(u32) = 1073692673;
    F17q(u64) = 17;
    F257q(u64) = 257;
    F6T(u64) = 6597069766657;
    F60(u64) = 1152921504606830593;
    FBig64(u64) = 4179340454199820289;
    FTop64(u64) = 4611686018427322369;
}
// not NTT-friendly beyond length one
plain_field! {
    F2b(u8) = 2;
    F11b(u8) = 11;
    F19b(u8) = 19;
    F23b(u8) = 23;
    F43b(u8) = 43;
    F47b(u8) = 47;
    F3b(u8) = 3;
    F7b(u8) = 7;
    F31b(u8) = 31;
    F59b(u8) = 59;
    F16381h(u16) = 16381;
    FMax32(u32) = 1073741789;
    FMax64(u64) = 4611686018427387847;
}
