// ---- prelude: panics are obligations
fn __assert(b: bool) requires b {}
#[verifier::external_body]
fn __unreachable() -> ! requires false { panic!() }
pub assume_specification<T> [std::mem::replace] (dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
pub assume_specification<T> [std::mem::drop] (x: T);
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -x } else { x as int });
pub assume_specification [u128::div_ceil] (a: u128, b: u128) -> (r: u128) requires b > 0 ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64) requires b > 0 ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (if a as int % b as int == 0 { a as int / b as int } else { a as int / b as int + 1 });
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (x: T)
    where E: std::marker::Destruct, T: std::marker::Destruct
    ensures x == match r { Ok(v) => v, Err(_) => d };
