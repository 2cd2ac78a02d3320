// C14: which type a payload is decoded as.
// The derive macro is proved through its expansion for two enumerations (three alternatives and
// one), made from /repo/ipmb-derive on every run (see expand/); the blanket implementation for one
// opaque message type T.
use vstd::prelude::*;
verus! {

//@include prelude.inc

// ---- identifiers of types: constants without meaning beyond equality
pub type Bytes = [u8; 16];
#[verifier::external_body]
pub fn bytes_eq(a: &Bytes, b: &Bytes) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub struct T { x: u8 }
#[verifier::external_body] pub struct TypeA { x: u8 }
#[verifier::external_body] pub struct TypeB { x: u8 }
#[verifier::external_body] pub struct TypeC { x: u8 }
pub uninterp spec fn id_t() -> Bytes;
pub uninterp spec fn id_a() -> Bytes;
pub uninterp spec fn id_b() -> Bytes;
pub uninterp spec fn id_c() -> Bytes;
#[verifier::external_body] pub fn uuid_of_T() -> (r: Bytes) ensures r == id_t() { unimplemented!() }
#[verifier::external_body] pub fn uuid_of_TypeA() -> (r: Bytes) ensures r == id_a() { unimplemented!() }
#[verifier::external_body] pub fn uuid_of_TypeB() -> (r: Bytes) ensures r == id_b() { unimplemented!() }
#[verifier::external_body] pub fn uuid_of_TypeC() -> (r: Bytes) ensures r == id_c() { unimplemented!() }

// ---- errors, as far as this file has to do with them
#[verifier::external_body] pub struct EncodeError { x: u8 }
#[verifier::external_body] pub struct DecodeError { x: u8 }
pub enum Error { Encode(EncodeError), Decode(DecodeError), TypeUuidNotFound, Timeout, Disconnect, TokenMismatch, IdentifierInUse, IdentifierNotInUse, MemoryRegionMapping, PermissionDenied, Unknown }
impl vstd::std_specs::convert::FromSpecImpl<EncodeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: EncodeError) -> Error { Error::Encode(e) }
}
impl From<EncodeError> for Error { fn from(e: EncodeError) -> (r: Error) { Error::Encode(e) } }
impl vstd::std_specs::convert::FromSpecImpl<DecodeError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DecodeError) -> Error { Error::Decode(e) }
}
impl From<DecodeError> for Error { fn from(e: DecodeError) -> (r: Error) { Error::Decode(e) } }

// ---- bincode: a function of the bytes and the type (trusted); a payload is encoded by reference
// or by value alike
pub struct Limited;
pub struct Unlimited;
pub uninterp spec fn parsed<P>(data: Seq<u8>) -> Result<P, DecodeError>;
pub uninterp spec fn printed<P>(v: P) -> Result<Vec<u8>, EncodeError>;
pub trait Settings { spec fn limited(&self) -> bool; }
impl Settings for Limited { open spec fn limited(&self) -> bool { true } }
impl Settings for Unlimited { open spec fn limited(&self) -> bool { false } }
pub fn standard() -> Unlimited { Unlimited }
impl Unlimited { pub fn with_limit(self) -> Limited { Limited } }
#[verifier::external_body]
pub fn borrow_decode_from_slice<P>(data: &[u8], config: Limited) -> (r: Result<(P, usize), DecodeError>)
    ensures
        r is Ok == (parsed::<P>(data@) is Ok),
        r is Ok ==> r->Ok_0.0 == parsed::<P>(data@)->Ok_0,
        r is Err ==> r->Err_0 == parsed::<P>(data@)->Err_0,
{ unimplemented!() }
#[verifier::external_body]
pub fn encode_to_vec<P>(t: P, config: Unlimited) -> (r: Result<Vec<u8>, EncodeError>) ensures r == printed(t) { unimplemented!() }

/// what `decode` gives
pub open spec fn read_as<P>(data: Seq<u8>) -> Result<P, Error> {
    match parsed::<P>(data) { Ok(v) => Ok(v), Err(e) => Err(Error::Decode(e)) }
}
pub open spec fn written<P>(v: P) -> Result<Vec<u8>, Error> {
    match printed(v) { Ok(b) => Ok(b), Err(e) => Err(Error::Encode(e)) }
}

/*@fn file=ipmb/src/lib.rs item=decode
sig: pub fn decode<T>(data: &[u8]) -> (r: Result<T, Error>)
spec:
    ensures r == read_as::<T>(data@)
subst: bincode::config::standard ( ) . with_limit :: < { 1 << 30 } > ( ) ==> standard().with_limit()
subst: bincode::serde::borrow_decode_from_slice ==> borrow_decode_from_slice::<T>
@*/

/*@fn file=ipmb/src/lib.rs item=encode
sig: pub fn encode<P>(t: P) -> (r: Result<Vec<u8>, Error>)
spec:
    ensures r == written(t)
mode try: from
subst: bincode::config::standard ==> standard
subst: bincode::serde::encode_to_vec ==> encode_to_vec
@*/

// ---- a single message type
impl T {
/*@fn file=ipmb/src/message.rs item=T~as~MessageBox::decode
sig: pub fn mb_decode(uuid: Bytes, data: &[u8]) -> (r: Result<T, Error>)
spec:
    ensures r == (if uuid == id_t() { read_as::<T>(data@) } else { Err::<T, Error>(Error::TypeUuidNotFound) })
@*/
/*@fn file=ipmb/src/message.rs item=T~as~MessageBox::encode
sig: pub fn mb_encode(&self) -> (r: Result<Vec<u8>, Error>)
spec:
    ensures r == written(self)
@*/
/*@fn file=ipmb/src/message.rs item=T~as~MessageBox::uuid
sig: pub fn uuid(&self) -> (r: Bytes)
spec:
    ensures r == id_t()
@*/
}

// ---- an enumeration of three
pub enum Choice { First(TypeA), Second(TypeB), Third(TypeC) }
/// each alternative by its own identifier (type identifiers are different: they are UUIDs)
pub open spec fn choice(uuid: Bytes, data: Seq<u8>) -> Result<Choice, Error> {
    if uuid == id_a() { match read_as::<TypeA>(data) { Ok(v) => Ok(Choice::First(v)), Err(e) => Err(e) } }
    else if uuid == id_b() { match read_as::<TypeB>(data) { Ok(v) => Ok(Choice::Second(v)), Err(e) => Err(e) } }
    else if uuid == id_c() { match read_as::<TypeC>(data) { Ok(v) => Ok(Choice::Third(v)), Err(e) => Err(e) } }
    else { Err(Error::TypeUuidNotFound) }
}
pub open spec fn distinct() -> bool { id_a() != id_b() && id_b() != id_c() && id_a() != id_c() }
impl Choice {
/*@fn file=@derive item=Choice~as~MessageBox::decode
sig: pub fn decode(uuid: Bytes, data: &[u8]) -> (r: Result<Choice, Error>)
spec:
    requires distinct(),
    ensures r == choice(uuid, data@)
subst opt: :: ipmb :: ==> 
@*/
/*@fn file=@derive item=Choice~as~MessageBox::encode
sig: pub fn encode(&self) -> (r: Result<Vec<u8>, Error>)
spec:
    ensures r == (match *self { Choice::First(v) => written(&v), Choice::Second(v) => written(&v), Choice::Third(v) => written(&v) })
subst opt: :: ipmb :: ==> 
@*/
/*@fn file=@derive item=Choice~as~MessageBox::uuid
sig: pub fn uuid(&self) -> (r: Bytes)
spec:
    ensures r == (match *self { Choice::First(_) => id_a(), Choice::Second(_) => id_b(), Choice::Third(_) => id_c() })
subst opt: :: ipmb :: ==> 
@*/
}

// ---- an enumeration of one
pub enum Single { Only(TypeA) }
impl Single {
/*@fn file=@derive item=Single~as~MessageBox::decode
sig: pub fn decode(uuid: Bytes, data: &[u8]) -> (r: Result<Single, Error>)
spec:
    ensures
        uuid == id_a() && parsed::<TypeA>(data@) is Ok ==> r == Ok::<Single, Error>(Single::Only(parsed::<TypeA>(data@)->Ok_0)),
        uuid == id_a() && parsed::<TypeA>(data@) is Err ==> r == Err::<Single, Error>(Error::Decode(parsed::<TypeA>(data@)->Err_0)),
        uuid != id_a() ==> r == Err::<Single, Error>(Error::TypeUuidNotFound),
subst opt: :: ipmb :: ==> 
@*/
/*@fn file=@derive item=Single~as~MessageBox::encode
sig: pub fn encode(&self) -> (r: Result<Vec<u8>, Error>)
spec:
    ensures r == written(&self->Only_0)
subst opt: :: ipmb :: ==> 
@*/
/*@fn file=@derive item=Single~as~MessageBox::uuid
sig: pub fn uuid(&self) -> (r: Bytes)
spec:
    ensures r == id_a()
subst opt: :: ipmb :: ==> 
@*/
}

// ---- what a sender announces is what a receiver of the same enumeration reads: exactly one
// alternative, that of the payload
pub proof fn announced_is_read(a: Choice, data: Seq<u8>)
    requires distinct(),
    ensures
        a is First ==> (choice(id_a(), data) is Ok ==> choice(id_a(), data)->Ok_0 is First),
        a is Second ==> (choice(id_b(), data) is Ok ==> choice(id_b(), data)->Ok_0 is Second),
        a is Third ==> (choice(id_c(), data) is Ok ==> choice(id_c(), data)->Ok_0 is Third),
{}

fn main() {}
}
