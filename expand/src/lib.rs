//! An enumeration of messages, for the expansion of the derive macro. It is expanded, not compiled
#[derive(ipmb_derive::MessageBox)]
pub enum Choice {
    First(TypeA),
    Second(TypeB),
    Third(TypeC),
}
#[derive(ipmb_derive::MessageBox)]
pub enum Single {
    Only(TypeA),
}
