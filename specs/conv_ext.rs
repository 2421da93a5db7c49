#[verifier::external_body]
pub fn vf_format() -> (r: String) { unimplemented!() }
pub open spec fn all_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned::<T>(#[trigger] a[i], b[i]) }
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>) ensures all_cloned(s@, r@);
/// u8 is Copy: a clone is the same byte.
pub broadcast proof fn lemma_bytes(a: Seq<u8>, b: Seq<u8>) requires #[trigger] all_cloned(a, b) ensures a == b { assert(a =~= b); }
