// Assumed contracts on the standard library (documented behaviour).
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);

pub assume_specification[ char::from_u32 ](n: u32) -> (r: Option<char>)
    ensures
        (n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF) <==> r is Some,
        r is Some ==> r->0 == n as char;

pub assume_specification<'a>[ char::encode_utf8 ](c: char, dst: &'a mut [u8]) -> (r: &'a mut str)
    requires dst@.len() >= 4,
    ensures r@ == seq![c];

pub assume_specification[ core::str::from_utf8 ](b: &[u8]) -> (r: Result<&str, core::str::Utf8Error>)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(b@),
        r is Ok ==> r->Ok_0@ == vstd::utf8::decode_utf8(b@);

pub assume_specification[ i64::wrapping_neg ](x: i64) -> (r: i64)
    ensures r as int == if x == i64::MIN { i64::MIN as int } else { -(x as int) };
pub assume_specification[ i32::wrapping_abs ](x: i32) -> (r: i32)
    ensures r as int == if x == i32::MIN { i32::MIN as int } else if x < 0 { -(x as int) } else { x as int };
pub assume_specification[ i32::saturating_add ](x: i32, y: i32) -> (r: i32)
    ensures r as int == if x + y > i32::MAX { i32::MAX as int } else if x + y < i32::MIN { i32::MIN as int } else { x + y };
pub assume_specification[ i32::saturating_sub ](x: i32, y: i32) -> (r: i32)
    ensures r as int == if x - y > i32::MAX { i32::MAX as int } else if x - y < i32::MIN { i32::MIN as int } else { x - y };

pub assume_specification[ u64::max_value ]() -> (r: u64) ensures r == u64::MAX;
pub assume_specification[ i32::max_value ]() -> (r: i32) ensures r == i32::MAX;
pub assume_specification[ <i32 as From<u8>>::from ](x: u8) -> (r: i32) ensures r as int == x as int;
