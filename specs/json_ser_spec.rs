// ---------------------------------------------------------------------------
// What the JSON serializer writes for a sequence of events.
// ---------------------------------------------------------------------------
pub open spec fn hex_char(n: int) -> char { if n < 10 { ((0x30 + n) as u8) as char } else { ((0x61 + n - 10) as u8) as char } }

pub open spec fn needs_escape(c: char) -> bool { c == '"' || c == '\\' || (c as u32) < 0x20 }

/// The text of one character inside a string literal.
pub open spec fn esc_char(c: char) -> Seq<char> {
    if c == '"' { seq!['\\', '"'] }
    else if c == '\\' { seq!['\\', '\\'] }
    else if c == '\u{8}' { seq!['\\', 'b'] }
    else if c == '\t' { seq!['\\', 't'] }
    else if c == '\n' { seq!['\\', 'n'] }
    else if c == '\u{c}' { seq!['\\', 'f'] }
    else if c == '\r' { seq!['\\', 'r'] }
    else if (c as u32) < 0x20 { seq!['\\', 'u', '0', '0', hex_char(c as u32 as int / 16), hex_char(c as u32 as int % 16)] }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { esc(s.drop_last()) + esc_char(s.last()) }
}
pub open spec fn lit(s: Seq<char>) -> Seq<char> { seq!['"'] + esc(s) + seq!['"'] }

/// The text of a finite double (std or ryu).
pub uninterp spec fn float_text(x: f64) -> Seq<char>;
pub uninterp spec fn is_fin(x: f64) -> bool;

/// The text of a scalar; None: JSON cannot express it.
pub open spec fn scalar_text(e: Ev) -> Option<Seq<char>> {
    match e {
        Ev::Null => Some("null"@),
        Ev::Bool(b) => Some(if b { "true"@ } else { "false"@ }),
        Ev::Str(s) => Some(lit(s)),
        Ev::Char(c) => Some(lit(seq![c])),
        Ev::U64(x) => Some(int_text(x as int)),
        Ev::I64(x) => Some(int_text(x as int)),
        Ev::F64(x) => Some(if is_fin(x) { float_text(x) } else { "null"@ }),
        _ => None,
    }
}
pub open spec fn key_text(e: Ev) -> Option<Seq<char>> {
    match e { Ev::Str(s) => Some(lit(s)), Ev::Char(c) => Some(lit(seq![c])), _ => None }
}

pub struct Ser { pub stack: Seq<ContainerState>, pub out: Seq<char> }

pub open spec fn mk(stack: Seq<ContainerState>, out: Seq<char>) -> Ser { Ser { stack, out } }

/// The container state after one more key, value or element was started in it.
pub open spec fn started(c: ContainerState) -> ContainerState {
    match c {
        ContainerState::Seq { .. } => ContainerState::Seq { first: false },
        ContainerState::Map { first, key_pos } => ContainerState::Map { first: if key_pos { false } else { first }, key_pos: !key_pos },
    }
}
pub open spec fn bump_top(st: Seq<ContainerState>) -> Seq<ContainerState> {
    if st.len() == 0 { st } else { st.update(st.len() - 1, started(st.last())) }
}
/// A comma unless this is the first element or key, or a value.
pub open spec fn separator(st: Seq<ContainerState>) -> Seq<char> {
    if st.len() == 0 { seq![] }
    else { match st.last() {
        ContainerState::Seq { first } => if first { seq![] } else { seq![','] },
        ContainerState::Map { first, key_pos } => if key_pos && !first { seq![','] } else { seq![] },
    } }
}
pub open spec fn at_key(st: Seq<ContainerState>) -> bool {
    st.len() > 0 && match st.last() { ContainerState::Map { first, key_pos } => key_pos, _ => false }
}

pub open spec fn sstep(s: Ser, e: Ev) -> Option<Ser> {
    let sep = s.out + separator(s.stack);
    match e {
        Ev::MapEnd => if s.stack.len() > 0 && s.stack.last() is Map { Some(mk(s.stack.drop_last(), s.out.push('}'))) } else { None },
        Ev::SeqEnd => if s.stack.len() > 0 && s.stack.last() is Seq { Some(mk(s.stack.drop_last(), s.out.push(']'))) } else { None },
        _ =>
            if at_key(s.stack) {
                match key_text(e) { Some(t) => Some(mk(bump_top(s.stack), (sep + t).push(':'))), None => None }
            } else {
                match e {
                    Ev::MapStart => Some(mk(bump_top(s.stack).push(ContainerState::Map { first: true, key_pos: true }), sep.push('{'))),
                    Ev::SeqStart => Some(mk(bump_top(s.stack).push(ContainerState::Seq { first: true }), sep.push('['))),
                    _ => match scalar_text(e) { Some(t) => Some(mk(bump_top(s.stack), sep + t)), None => None },
                }
            },
    }
}
pub open spec fn srun(t: Seq<Ev>) -> Option<Ser>
    decreases t.len(),
{
    if t.len() == 0 { Some(mk(seq![], seq![])) }
    else { match srun(t.drop_last()) { Some(s) => sstep(s, t.last()), None => None } }
}
