// what delay and debounce_time share: the cells, completing and unsubscribing with values pending
verus! {
/// the shared cells of one delay / debounce subscription
pub struct P<I, E> { pub sent: Seq<Ev<I, E>>, pub shut: bool, pub c: usize, pub done: bool, pub un: bool }
pub open spec fn p<D: ObserverInput>(d: Shr<D>, c: AtomicUsize, done: AtomicBool, un: AtomicBool) -> P<D::In, D::InError> { P { sent: d.sent(), shut: d.shut(), c: c@, done: done@, un: un@ } }
/// (prophecy) the shared cells when the last delivery ended
pub open spec fn mid<D: ObserverInput>(d: Shr<D>) -> P<D::In, D::InError> { mid_of(d.last_next()) }
pub uninterp spec fn mid_of<I, E>(n: int) -> P<I, E>;
/// at once when nothing is pending, else left to the last work
pub open spec fn completes<I, E>(a: P<I, E>, b: P<I, E>) -> bool {
    &&& b.done && b.un && b.c == a.c
    &&& if a.c == 0 && !a.shut { b.shut && b.sent == a.sent.push(Ev::Complete) } else if a.c == 0 { b.shut && b.sent == a.sent } else { b.shut == a.shut && b.sent == a.sent }
}
pub open spec fn unsubs<I, E>(a: P<I, E>, b: P<I, E>) -> bool {
    if a.shut || a.un { b == a } else { b.un && b.done == a.done && b.c == a.c && if a.c == 0 { b.shut && b.sent == a.sent.push(Ev::Unsub) } else { b.shut == a.shut && b.sent == a.sent } }
}

} // verus!
