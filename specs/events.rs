// ---- one value: the shape of an event stream -----------------------------------------
/// The value at the start of the events: the events after it.
pub open spec fn one(t: Seq<Ev>) -> Option<Seq<Ev>>
    decreases t.len(), 0int,
{
    if t.len() == 0 { None } else {
        match t[0] {
            Ev::MapStart => one_members(t.skip(1), true),
            Ev::SeqStart => one_items(t.skip(1)),
            Ev::MapEnd | Ev::SeqEnd => None,
            _ => Some(t.skip(1)),
        }
    }
}
/// The rest of a map (a key is next, or a value), its end included.
pub open spec fn one_members(t: Seq<Ev>, key: bool) -> Option<Seq<Ev>>
    decreases t.len(), 1int,
{
    if t.len() == 0 { None }
    else if t[0] is MapEnd { if key { Some(t.skip(1)) } else { None } }
    else { match one(t) { Some(r) => if r.len() < t.len() { one_members(r, !key) } else { None }, None => None } }
}
/// The rest of a sequence, its end included.
pub open spec fn one_items(t: Seq<Ev>) -> Option<Seq<Ev>>
    decreases t.len(), 1int,
{
    if t.len() == 0 { None }
    else if t[0] is SeqEnd { Some(t.skip(1)) }
    else { match one(t) { Some(r) => if r.len() < t.len() { one_items(r) } else { None }, None => None } }
}
/// The events are those of one value.
pub open spec fn one_value(t: Seq<Ev>) -> bool { one(t) == Some(Seq::<Ev>::empty()) }
