// Contracts of std/core functions that are added to a unit only when its woven text
// uses them and nothing there specifies them already (vlib/check.py).
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r is Some == o is Some, o matches Some(x) ==> r == Some(*x);
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { b });
pub assume_specification<T, F: FnOnce() -> Option<T>>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(())
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T, F: FnOnce(&T) -> bool>[ Option::<T>::filter ](o: Option<T>, f: F) -> (r: Option<T>)
    requires o matches Some(x) ==> f.requires((&x,))
    ensures match o { None => r is None, Some(x) => exists|b: bool| f.ensures((&x,), b) && r == (if b { o } else { None }) };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,))
    ensures match o { None => !r, Some(x) => f.ensures((x,), r) };
pub assume_specification<T, F: FnOnce(T) -> bool>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,))
    ensures match o { None => r, Some(x) => f.ensures((x,), r) };
pub assume_specification<T, U, F: FnOnce(T) -> U>[ Option::<T>::map_or ](o: Option<T>, d: U, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,))
    ensures match o { None => r == d, Some(x) => f.ensures((x,), r) };
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (match (o, b) { (Some(x), Some(y)) => Some((x, y)), _ => None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>>[ Result::<T, E>::and_then ](o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,))
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification[ i8::min_value ]() -> (r: i8)
    ensures r == i8::MIN;
pub assume_specification[ i8::max_value ]() -> (r: i8)
    ensures r == i8::MAX;
pub assume_specification[ i8::wrapping_neg ](x: i8) -> (r: i8)
    ensures r == (if x == i8::MIN { x as int } else { -(x as int) });
pub assume_specification[ i8::checked_neg ](x: i8) -> (r: Option<i8>)
    ensures r == (if x == i8::MIN { None } else { Some((-(x as int)) as i8) });
pub assume_specification[ i8::unsigned_abs ](x: i8) -> (r: u8)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification[ i8::wrapping_abs ](x: i8) -> (r: i8)
    ensures r == (if x < 0 && x != i8::MIN { -(x as int) } else { x as int });
pub assume_specification[ i8::is_negative ](x: i8) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ i8::is_positive ](x: i8) -> (r: bool)
    ensures r == (x > 0);
pub assume_specification[ i8::signum ](x: i8) -> (r: i8)
    ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ i8::saturating_neg ](x: i8) -> (r: i8)
    ensures r == (if x == i8::MIN { i8::MAX as int } else { -(x as int) });
pub assume_specification[ i8::saturating_add ](x: i8, y: i8) -> (r: i8)
    ensures r == (if x + y > i8::MAX { i8::MAX as int } else if x + y < i8::MIN { i8::MIN as int } else { x + y });
pub assume_specification[ i8::overflowing_add ](x: i8, y: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= x + y <= i8::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ i8::saturating_sub ](x: i8, y: i8) -> (r: i8)
    ensures r == (if x - y > i8::MAX { i8::MAX as int } else if x - y < i8::MIN { i8::MIN as int } else { x - y });
pub assume_specification[ i8::overflowing_sub ](x: i8, y: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= x - y <= i8::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ i8::saturating_mul ](x: i8, y: i8) -> (r: i8)
    ensures r == (if x * y > i8::MAX { i8::MAX as int } else if x * y < i8::MIN { i8::MIN as int } else { x * y });
pub assume_specification[ i8::overflowing_mul ](x: i8, y: i8) -> (r: (i8, bool))
    ensures r.1 == !(i8::MIN <= x * y <= i8::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ i16::min_value ]() -> (r: i16)
    ensures r == i16::MIN;
pub assume_specification[ i16::max_value ]() -> (r: i16)
    ensures r == i16::MAX;
pub assume_specification[ i16::wrapping_neg ](x: i16) -> (r: i16)
    ensures r == (if x == i16::MIN { x as int } else { -(x as int) });
pub assume_specification[ i16::checked_neg ](x: i16) -> (r: Option<i16>)
    ensures r == (if x == i16::MIN { None } else { Some((-(x as int)) as i16) });
pub assume_specification[ i16::unsigned_abs ](x: i16) -> (r: u16)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification[ i16::wrapping_abs ](x: i16) -> (r: i16)
    ensures r == (if x < 0 && x != i16::MIN { -(x as int) } else { x as int });
pub assume_specification[ i16::is_negative ](x: i16) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ i16::is_positive ](x: i16) -> (r: bool)
    ensures r == (x > 0);
pub assume_specification[ i16::signum ](x: i16) -> (r: i16)
    ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ i16::saturating_neg ](x: i16) -> (r: i16)
    ensures r == (if x == i16::MIN { i16::MAX as int } else { -(x as int) });
pub assume_specification[ i16::saturating_add ](x: i16, y: i16) -> (r: i16)
    ensures r == (if x + y > i16::MAX { i16::MAX as int } else if x + y < i16::MIN { i16::MIN as int } else { x + y });
pub assume_specification[ i16::overflowing_add ](x: i16, y: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= x + y <= i16::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ i16::saturating_sub ](x: i16, y: i16) -> (r: i16)
    ensures r == (if x - y > i16::MAX { i16::MAX as int } else if x - y < i16::MIN { i16::MIN as int } else { x - y });
pub assume_specification[ i16::overflowing_sub ](x: i16, y: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= x - y <= i16::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ i16::saturating_mul ](x: i16, y: i16) -> (r: i16)
    ensures r == (if x * y > i16::MAX { i16::MAX as int } else if x * y < i16::MIN { i16::MIN as int } else { x * y });
pub assume_specification[ i16::overflowing_mul ](x: i16, y: i16) -> (r: (i16, bool))
    ensures r.1 == !(i16::MIN <= x * y <= i16::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ i32::min_value ]() -> (r: i32)
    ensures r == i32::MIN;
pub assume_specification[ i32::max_value ]() -> (r: i32)
    ensures r == i32::MAX;
pub assume_specification[ i32::wrapping_neg ](x: i32) -> (r: i32)
    ensures r == (if x == i32::MIN { x as int } else { -(x as int) });
pub assume_specification[ i32::checked_neg ](x: i32) -> (r: Option<i32>)
    ensures r == (if x == i32::MIN { None } else { Some((-(x as int)) as i32) });
pub assume_specification[ i32::unsigned_abs ](x: i32) -> (r: u32)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification[ i32::wrapping_abs ](x: i32) -> (r: i32)
    ensures r == (if x < 0 && x != i32::MIN { -(x as int) } else { x as int });
pub assume_specification[ i32::is_negative ](x: i32) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ i32::is_positive ](x: i32) -> (r: bool)
    ensures r == (x > 0);
pub assume_specification[ i32::signum ](x: i32) -> (r: i32)
    ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ i32::saturating_neg ](x: i32) -> (r: i32)
    ensures r == (if x == i32::MIN { i32::MAX as int } else { -(x as int) });
pub assume_specification[ i32::saturating_add ](x: i32, y: i32) -> (r: i32)
    ensures r == (if x + y > i32::MAX { i32::MAX as int } else if x + y < i32::MIN { i32::MIN as int } else { x + y });
pub assume_specification[ i32::overflowing_add ](x: i32, y: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= x + y <= i32::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ i32::saturating_sub ](x: i32, y: i32) -> (r: i32)
    ensures r == (if x - y > i32::MAX { i32::MAX as int } else if x - y < i32::MIN { i32::MIN as int } else { x - y });
pub assume_specification[ i32::overflowing_sub ](x: i32, y: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= x - y <= i32::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ i32::saturating_mul ](x: i32, y: i32) -> (r: i32)
    ensures r == (if x * y > i32::MAX { i32::MAX as int } else if x * y < i32::MIN { i32::MIN as int } else { x * y });
pub assume_specification[ i32::overflowing_mul ](x: i32, y: i32) -> (r: (i32, bool))
    ensures r.1 == !(i32::MIN <= x * y <= i32::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ i64::min_value ]() -> (r: i64)
    ensures r == i64::MIN;
pub assume_specification[ i64::max_value ]() -> (r: i64)
    ensures r == i64::MAX;
pub assume_specification[ i64::wrapping_neg ](x: i64) -> (r: i64)
    ensures r == (if x == i64::MIN { x as int } else { -(x as int) });
pub assume_specification[ i64::checked_neg ](x: i64) -> (r: Option<i64>)
    ensures r == (if x == i64::MIN { None } else { Some((-(x as int)) as i64) });
pub assume_specification[ i64::unsigned_abs ](x: i64) -> (r: u64)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification[ i64::wrapping_abs ](x: i64) -> (r: i64)
    ensures r == (if x < 0 && x != i64::MIN { -(x as int) } else { x as int });
pub assume_specification[ i64::is_negative ](x: i64) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ i64::is_positive ](x: i64) -> (r: bool)
    ensures r == (x > 0);
pub assume_specification[ i64::signum ](x: i64) -> (r: i64)
    ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ i64::saturating_neg ](x: i64) -> (r: i64)
    ensures r == (if x == i64::MIN { i64::MAX as int } else { -(x as int) });
pub assume_specification[ i64::saturating_add ](x: i64, y: i64) -> (r: i64)
    ensures r == (if x + y > i64::MAX { i64::MAX as int } else if x + y < i64::MIN { i64::MIN as int } else { x + y });
pub assume_specification[ i64::overflowing_add ](x: i64, y: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= x + y <= i64::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ i64::saturating_sub ](x: i64, y: i64) -> (r: i64)
    ensures r == (if x - y > i64::MAX { i64::MAX as int } else if x - y < i64::MIN { i64::MIN as int } else { x - y });
pub assume_specification[ i64::overflowing_sub ](x: i64, y: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= x - y <= i64::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ i64::saturating_mul ](x: i64, y: i64) -> (r: i64)
    ensures r == (if x * y > i64::MAX { i64::MAX as int } else if x * y < i64::MIN { i64::MIN as int } else { x * y });
pub assume_specification[ i64::overflowing_mul ](x: i64, y: i64) -> (r: (i64, bool))
    ensures r.1 == !(i64::MIN <= x * y <= i64::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ i128::min_value ]() -> (r: i128)
    ensures r == i128::MIN;
pub assume_specification[ i128::max_value ]() -> (r: i128)
    ensures r == i128::MAX;
pub assume_specification[ i128::wrapping_neg ](x: i128) -> (r: i128)
    ensures r == (if x == i128::MIN { x as int } else { -(x as int) });
pub assume_specification[ i128::checked_neg ](x: i128) -> (r: Option<i128>)
    ensures r == (if x == i128::MIN { None } else { Some((-(x as int)) as i128) });
pub assume_specification[ i128::unsigned_abs ](x: i128) -> (r: u128)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification[ i128::wrapping_abs ](x: i128) -> (r: i128)
    ensures r == (if x < 0 && x != i128::MIN { -(x as int) } else { x as int });
pub assume_specification[ i128::is_negative ](x: i128) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ i128::is_positive ](x: i128) -> (r: bool)
    ensures r == (x > 0);
pub assume_specification[ i128::signum ](x: i128) -> (r: i128)
    ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ i128::saturating_neg ](x: i128) -> (r: i128)
    ensures r == (if x == i128::MIN { i128::MAX as int } else { -(x as int) });
pub assume_specification[ i128::saturating_add ](x: i128, y: i128) -> (r: i128)
    ensures r == (if x + y > i128::MAX { i128::MAX as int } else if x + y < i128::MIN { i128::MIN as int } else { x + y });
pub assume_specification[ i128::overflowing_add ](x: i128, y: i128) -> (r: (i128, bool))
    ensures r.1 == !(i128::MIN <= x + y <= i128::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ i128::saturating_sub ](x: i128, y: i128) -> (r: i128)
    ensures r == (if x - y > i128::MAX { i128::MAX as int } else if x - y < i128::MIN { i128::MIN as int } else { x - y });
pub assume_specification[ i128::overflowing_sub ](x: i128, y: i128) -> (r: (i128, bool))
    ensures r.1 == !(i128::MIN <= x - y <= i128::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ i128::saturating_mul ](x: i128, y: i128) -> (r: i128)
    ensures r == (if x * y > i128::MAX { i128::MAX as int } else if x * y < i128::MIN { i128::MIN as int } else { x * y });
pub assume_specification[ i128::overflowing_mul ](x: i128, y: i128) -> (r: (i128, bool))
    ensures r.1 == !(i128::MIN <= x * y <= i128::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ isize::min_value ]() -> (r: isize)
    ensures r == isize::MIN;
pub assume_specification[ isize::max_value ]() -> (r: isize)
    ensures r == isize::MAX;
pub assume_specification[ isize::wrapping_neg ](x: isize) -> (r: isize)
    ensures r == (if x == isize::MIN { x as int } else { -(x as int) });
pub assume_specification[ isize::checked_neg ](x: isize) -> (r: Option<isize>)
    ensures r == (if x == isize::MIN { None } else { Some((-(x as int)) as isize) });
pub assume_specification[ isize::unsigned_abs ](x: isize) -> (r: usize)
    ensures r == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification[ isize::wrapping_abs ](x: isize) -> (r: isize)
    ensures r == (if x < 0 && x != isize::MIN { -(x as int) } else { x as int });
pub assume_specification[ isize::is_negative ](x: isize) -> (r: bool)
    ensures r == (x < 0);
pub assume_specification[ isize::is_positive ](x: isize) -> (r: bool)
    ensures r == (x > 0);
pub assume_specification[ isize::signum ](x: isize) -> (r: isize)
    ensures r == (if x < 0 { -1int } else if x == 0 { 0int } else { 1int });
pub assume_specification[ isize::saturating_neg ](x: isize) -> (r: isize)
    ensures r == (if x == isize::MIN { isize::MAX as int } else { -(x as int) });
pub assume_specification[ isize::saturating_add ](x: isize, y: isize) -> (r: isize)
    ensures r == (if x + y > isize::MAX { isize::MAX as int } else if x + y < isize::MIN { isize::MIN as int } else { x + y });
pub assume_specification[ isize::overflowing_add ](x: isize, y: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= x + y <= isize::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ isize::saturating_sub ](x: isize, y: isize) -> (r: isize)
    ensures r == (if x - y > isize::MAX { isize::MAX as int } else if x - y < isize::MIN { isize::MIN as int } else { x - y });
pub assume_specification[ isize::overflowing_sub ](x: isize, y: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= x - y <= isize::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ isize::saturating_mul ](x: isize, y: isize) -> (r: isize)
    ensures r == (if x * y > isize::MAX { isize::MAX as int } else if x * y < isize::MIN { isize::MIN as int } else { x * y });
pub assume_specification[ isize::overflowing_mul ](x: isize, y: isize) -> (r: (isize, bool))
    ensures r.1 == !(isize::MIN <= x * y <= isize::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ u8::min_value ]() -> (r: u8)
    ensures r == u8::MIN;
pub assume_specification[ u8::max_value ]() -> (r: u8)
    ensures r == u8::MAX;
pub assume_specification[ u8::overflowing_add ](x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= x + y <= u8::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ u8::overflowing_sub ](x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= x - y <= u8::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ u8::overflowing_mul ](x: u8, y: u8) -> (r: (u8, bool))
    ensures r.1 == !(u8::MIN <= x * y <= u8::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ u8::abs_diff ](x: u8, y: u8) -> (r: u8)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ u16::min_value ]() -> (r: u16)
    ensures r == u16::MIN;
pub assume_specification[ u16::max_value ]() -> (r: u16)
    ensures r == u16::MAX;
pub assume_specification[ u16::overflowing_add ](x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= x + y <= u16::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ u16::overflowing_sub ](x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= x - y <= u16::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ u16::overflowing_mul ](x: u16, y: u16) -> (r: (u16, bool))
    ensures r.1 == !(u16::MIN <= x * y <= u16::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ u16::abs_diff ](x: u16, y: u16) -> (r: u16)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ u32::min_value ]() -> (r: u32)
    ensures r == u32::MIN;
pub assume_specification[ u32::max_value ]() -> (r: u32)
    ensures r == u32::MAX;
pub assume_specification[ u32::overflowing_add ](x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= x + y <= u32::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ u32::overflowing_sub ](x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= x - y <= u32::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ u32::overflowing_mul ](x: u32, y: u32) -> (r: (u32, bool))
    ensures r.1 == !(u32::MIN <= x * y <= u32::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ u32::abs_diff ](x: u32, y: u32) -> (r: u32)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ u64::min_value ]() -> (r: u64)
    ensures r == u64::MIN;
pub assume_specification[ u64::max_value ]() -> (r: u64)
    ensures r == u64::MAX;
pub assume_specification[ u64::overflowing_add ](x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= x + y <= u64::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ u64::overflowing_sub ](x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= x - y <= u64::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ u64::overflowing_mul ](x: u64, y: u64) -> (r: (u64, bool))
    ensures r.1 == !(u64::MIN <= x * y <= u64::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ u64::abs_diff ](x: u64, y: u64) -> (r: u64)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ u128::min_value ]() -> (r: u128)
    ensures r == u128::MIN;
pub assume_specification[ u128::max_value ]() -> (r: u128)
    ensures r == u128::MAX;
pub assume_specification[ u128::overflowing_add ](x: u128, y: u128) -> (r: (u128, bool))
    ensures r.1 == !(u128::MIN <= x + y <= u128::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ u128::overflowing_sub ](x: u128, y: u128) -> (r: (u128, bool))
    ensures r.1 == !(u128::MIN <= x - y <= u128::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ u128::overflowing_mul ](x: u128, y: u128) -> (r: (u128, bool))
    ensures r.1 == !(u128::MIN <= x * y <= u128::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ u128::abs_diff ](x: u128, y: u128) -> (r: u128)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ usize::min_value ]() -> (r: usize)
    ensures r == usize::MIN;
pub assume_specification[ usize::max_value ]() -> (r: usize)
    ensures r == usize::MAX;
pub assume_specification[ usize::overflowing_add ](x: usize, y: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= x + y <= usize::MAX), !r.1 ==> r.0 == x + y;
pub assume_specification[ usize::overflowing_sub ](x: usize, y: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= x - y <= usize::MAX), !r.1 ==> r.0 == x - y;
pub assume_specification[ usize::overflowing_mul ](x: usize, y: usize) -> (r: (usize, bool))
    ensures r.1 == !(usize::MIN <= x * y <= usize::MAX), !r.1 ==> r.0 == x * y;
pub assume_specification[ usize::abs_diff ](x: usize, y: usize) -> (r: usize)
    ensures r == (if x < y { y - x } else { x - y });
pub assume_specification[ u8::is_ascii_digit ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x30 <= c <= 0x39 });
pub assume_specification[ char::is_ascii_digit ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x30 <= c <= 0x39 });
pub assume_specification[ u8::is_ascii_uppercase ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x41 <= c <= 0x5a });
pub assume_specification[ char::is_ascii_uppercase ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x41 <= c <= 0x5a });
pub assume_specification[ u8::is_ascii_lowercase ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x61 <= c <= 0x7a });
pub assume_specification[ char::is_ascii_lowercase ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x61 <= c <= 0x7a });
pub assume_specification[ u8::is_ascii_alphabetic ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x41 <= c <= 0x5a || 0x61 <= c <= 0x7a });
pub assume_specification[ char::is_ascii_alphabetic ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x41 <= c <= 0x5a || 0x61 <= c <= 0x7a });
pub assume_specification[ u8::is_ascii_alphanumeric ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x30 <= c <= 0x39 || 0x41 <= c <= 0x5a || 0x61 <= c <= 0x7a });
pub assume_specification[ char::is_ascii_alphanumeric ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x30 <= c <= 0x39 || 0x41 <= c <= 0x5a || 0x61 <= c <= 0x7a });
pub assume_specification[ u8::is_ascii_hexdigit ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x30 <= c <= 0x39 || 0x41 <= c <= 0x46 || 0x61 <= c <= 0x66 });
pub assume_specification[ char::is_ascii_hexdigit ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x30 <= c <= 0x39 || 0x41 <= c <= 0x46 || 0x61 <= c <= 0x66 });
pub assume_specification[ u8::is_ascii_whitespace ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; c == 0x20 || c == 0x09 || c == 0x0a || c == 0x0c || c == 0x0d });
pub assume_specification[ char::is_ascii_whitespace ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; c == 0x20 || c == 0x09 || c == 0x0a || c == 0x0c || c == 0x0d });
pub assume_specification[ u8::is_ascii_control ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; c < 0x20 || c == 0x7f });
pub assume_specification[ char::is_ascii_control ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; c < 0x20 || c == 0x7f });
pub assume_specification[ u8::is_ascii_graphic ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x21 <= c <= 0x7e });
pub assume_specification[ char::is_ascii_graphic ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x21 <= c <= 0x7e });
pub assume_specification[ u8::is_ascii ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; c < 0x80 });
pub assume_specification[ char::is_ascii ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; c < 0x80 });
pub assume_specification[ u8::is_ascii_punctuation ](x: &u8) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x21 <= c <= 0x2f || 0x3a <= c <= 0x40 || 0x5b <= c <= 0x60 || 0x7b <= c <= 0x7e });
pub assume_specification[ char::is_ascii_punctuation ](x: &char) -> (r: bool)
    ensures r == ({ let c = *x as int; 0x21 <= c <= 0x2f || 0x3a <= c <= 0x40 || 0x5b <= c <= 0x60 || 0x7b <= c <= 0x7e });
pub assume_specification[ char::is_control ](x: char) -> (r: bool)
    ensures r == ({ let c = x as int; c < 0x20 || 0x7f <= c <= 0x9f });
pub assume_specification[ u8::to_ascii_lowercase ](x: &u8) -> (r: u8)
    ensures r == (if 0x41 <= *x <= 0x5a { *x + 32 } else { *x as int });
pub assume_specification[ u8::to_ascii_uppercase ](x: &u8) -> (r: u8)
    ensures r == (if 0x61 <= *x <= 0x7a { *x - 32 } else { *x as int });
pub assume_specification[ char::to_ascii_lowercase ](x: &char) -> (r: char)
    ensures r as int == (if 0x41 <= *x as int <= 0x5a { *x as int + 32 } else { *x as int });
pub assume_specification[ char::to_ascii_uppercase ](x: &char) -> (r: char)
    ensures r as int == (if 0x61 <= *x as int <= 0x7a { *x as int - 32 } else { *x as int });
pub assume_specification[ char::from_u32 ](x: u32) -> (r: Option<char>)
    ensures r is Some <==> (x <= 0xd7ff || 0xe000 <= x <= 0x10ffff), r matches Some(c) ==> c as int == x;
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(#[trigger] s@[i], r@[i]);
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification<T>[ core::mem::replace ](d: &mut T, x: T) -> (r: T)
    ensures r == *old(d), *final(d) == x;
pub assume_specification<T: Default>[ core::mem::take ](d: &mut T) -> (r: T)
    requires T::default.requires(())
    ensures r == *old(d), T::default.ensures((), *final(d));
pub assume_specification<T>[ core::mem::drop ](x: T)
    ensures true;
pub assume_specification<T>[ <[T]>::reverse ](v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
pub assume_specification<T>[ <[T]>::swap ](v: &mut [T], i: usize, j: usize)
    requires i < old(v)@.len(), j < old(v)@.len()
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]);
