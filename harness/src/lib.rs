//! Harnesses: each entry is executed symbolically over the real code; see /verif/DESIGN.md.
#![allow(clippy::all, unused_unsafe, unused_parens, static_mut_refs, dead_code, private_interfaces)]
/// Declares entry points: exported for the engine, listed for the native replay.
#[macro_export]
macro_rules! entries {
    ($list:ident; $($(#[$a:meta])* fn $name:ident() $body:block)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        pub static $list: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name as extern "C-unwind" fn()) ),* ];
    };
}

#[macro_use]
pub mod rt;
#[macro_use]
pub mod model;
#[macro_use]
pub mod shapes;
pub mod hist;
pub mod ids;
pub mod bits;
pub mod uvec;
pub mod locks;
pub mod refuse;
pub mod rel;
pub mod order;
pub mod builder;
pub mod regs;
pub mod big;
pub mod sizes;
pub mod narrow;

pub static ENTRIES: &[&[(&str, extern "C-unwind" fn())]] = &[hist::LIST, ids::LIST, bits::LIST, uvec::LIST, locks::LIST, refuse::LIST, rel::LIST, order::LIST, builder::LIST, regs::LIST, big::LIST, sizes::LIST, narrow::LIST, shapes::LIST];
