// Assumed contracts on alloc: what borrowing a Cow gives, and Display of the
// primitive types.
pub uninterp spec fn borrowed_of<B: ?Sized + ToOwned>(o: B::Owned) -> &'static B;
pub broadcast axiom fn ax_borrow_string(o: String) ensures (#[trigger] borrowed_of::<str>(o))@ == o@;
pub broadcast axiom fn ax_borrow_vec(o: Vec<u8>) ensures (#[trigger] borrowed_of::<[u8]>(o))@ == o@;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[ <Cow<'a, B> as std::ops::Deref>::deref ](c: &'b Cow<'a, B>) -> (r: &'b B)
    ensures match *c { Cow::Borrowed(s) => r == s, Cow::Owned(o) => r == borrowed_of::<B>(o) };

pub open spec fn cow_str(c: Cow<str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
pub open spec fn cow_bytes(c: Cow<[u8]>) -> Seq<u8> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }

/// The decimal digits of a number.
pub open spec fn dec_digits(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit_char(n)] } else { dec_digits(n / 10).push(digit_char(n % 10)) }
}
pub open spec fn digit_char(n: nat) -> char { ((0x30 + n) as u8) as char }
pub open spec fn int_text(x: int) -> Seq<char> {
    if x < 0 { seq!['-'] + dec_digits((-x) as nat) } else { dec_digits(x as nat) }
}
pub broadcast axiom fn ax_display_u64(x: &u64, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<u64>(x, s) ==> s@ == int_text(*x as int);
pub broadcast axiom fn ax_display_i64(x: &i64, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<i64>(x, s) ==> s@ == int_text(*x as int);
pub broadcast axiom fn ax_display_char(x: &char, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<char>(x, s) ==> s@ == seq![*x];
pub broadcast axiom fn ax_display_cow(x: &Cow<str>, s: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<str>>(x, s) ==> s@ == cow_str(*x);
pub broadcast group core_std { ax_borrow_string, ax_borrow_vec, ax_display_u64, ax_display_i64, ax_display_char, ax_display_cow }
// From of core and alloc into a Cow: a reference is borrowed, an owned value is owned.
pub assume_specification<'a>[ <Cow<'a, str> as From<&'a str>>::from ](x: &'a str) -> (r: Cow<'a, str>) ensures r == Cow::<str>::Borrowed(x);
pub assume_specification<'a>[ <Cow<'a, str> as From<String>>::from ](x: String) -> (r: Cow<'a, str>) ensures r == Cow::<str>::Owned(x);
pub assume_specification<'a, T: Clone>[ <Cow<'a, [T]> as From<&'a [T]>>::from ](x: &'a [T]) -> (r: Cow<'a, [T]>) ensures r == Cow::<[T]>::Borrowed(x);
pub assume_specification<'a, T: Clone>[ <Cow<'a, [T]> as From<Vec<T>>>::from ](x: Vec<T>) -> (r: Cow<'a, [T]>) ensures r == Cow::<[T]>::Owned(x);
