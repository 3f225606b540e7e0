// Composition: from the contracts of single operations (proved by hwv on the code) to histories.
// The definitions restate what those contracts say about the abstract state; `update` and `result` stand for the
// packet update and the finalisation of hwv/src/spec.rs, about which nothing is assumed here.
use vstd::prelude::*;

verus! {

pub struct Lanes { pub v: Seq<u64> }
pub struct St { pub lanes: Lanes, pub pend: Seq<u8> }

pub uninterp spec fn init(key: Seq<u64>) -> Lanes;
pub uninterp spec fn update(l: Lanes, packet: Seq<u8>) -> Lanes;
pub uninterp spec fn result(l: Lanes, pend: Seq<u8>, width: nat) -> Seq<u64>;

pub open spec fn fold(l: Lanes, b: Seq<u8>) -> Lanes
    decreases b.len(),
{
    if b.len() < 32 { l } else { fold(update(l, b.take(32)), b.skip(32)) }
}
pub open spec fn rest(b: Seq<u8>) -> Seq<u8>
    decreases b.len(),
{
    if b.len() < 32 { b } else { rest(b.skip(32)) }
}
/// postcondition of `append`: Append(k, _) for every pending count k
pub open spec fn absorb(s: St, d: Seq<u8>) -> St {
    St { lanes: fold(s.lanes, s.pend + d), pend: rest(s.pend + d) }
}
/// the representation invariant, on the abstract state
pub open spec fn wf(s: St) -> bool { s.pend.len() < 32 }
pub open spec fn start(key: Seq<u64>) -> St { St { lanes: init(key), pend: Seq::empty() } }
/// the one-shot result
pub open spec fn hash(key: Seq<u64>, d: Seq<u8>, w: nat) -> Seq<u64> {
    let s = absorb(start(key), d);
    result(s.lanes, s.pend, w)
}

proof fn rest_short(b: Seq<u8>)
    ensures rest(b).len() < 32,
    decreases b.len(),
{
    if b.len() >= 32 { rest_short(b.skip(32)); }
}

/// folding a then what is left of a followed by b is folding a + b
proof fn fold_concat(l: Lanes, a: Seq<u8>, b: Seq<u8>)
    ensures
        fold(fold(l, a), rest(a) + b) == fold(l, a + b),
        rest(rest(a) + b) == rest(a + b),
    decreases a.len(),
{
    if a.len() >= 32 {
        assert((a + b).take(32) =~= a.take(32));
        assert((a + b).skip(32) =~= a.skip(32) + b);
        fold_concat(update(l, a.take(32)), a.skip(32), b);
    }
}

/// C05: two appends are one append of the concatenation; the invariant is kept
pub proof fn append_append(s: St, a: Seq<u8>, b: Seq<u8>)
    ensures
        absorb(absorb(s, a), b) == absorb(s, a + b),
        wf(absorb(s, a)),
{
    assert((s.pend + a) + b =~= s.pend + (a + b));
    fold_concat(s.lanes, s.pend + a, b);
    rest_short(s.pend + a);
}
/// C11: an empty append changes nothing
pub proof fn append_empty(s: St)
    requires wf(s),
    ensures absorb(s, Seq::empty()) == s,
{
    assert(s.pend + Seq::<u8>::empty() =~= s.pend);
}

/// One call on one hasher.  `Observe` is finish, checkpoint, clone, Debug: by contract they leave the state
/// alone.  `Hop` is checkpoint followed by from_checkpoint, on any backend.
pub enum Call { Append(Seq<u8>), Observe, Hop }

/// a word is its eight bytes (the specification's primitive); sixteen lanes are 128 bytes
pub uninterp spec fn of_bytes(b: Seq<u8>) -> Lanes;
pub uninterp spec fn to_bytes(l: Lanes) -> Seq<u8>;
pub open spec fn words() -> bool {
    forall|l: Lanes| (#[trigger] to_bytes(l)).len() == 128 && of_bytes(to_bytes(l)) == l
}
/// postcondition of `checkpoint`
pub open spec fn encode(s: St) -> Seq<u8> {
    to_bytes(s.lanes) + s.pend + Seq::new((32 - s.pend.len()) as nat, |i: int| 0u8)
        + seq![s.pend.len() as u8, 0u8, 0u8, 0u8]
}
pub open spec fn count(c: Seq<u8>) -> int {
    let n = c[160] + 0x100 * c[161] + 0x10000 * c[162] + 0x1000000 * c[163];
    if n > 31 { 31 } else { n }
}
/// postcondition of `from_checkpoint`: Restore(k) for every count up to 31, RestoreBig above
pub open spec fn decode(c: Seq<u8>) -> St {
    St { lanes: of_bytes(c.subrange(0, 128)), pend: c.subrange(128, 128 + count(c)) }
}
/// C06: restoring a checkpoint gives the state it was taken from
pub proof fn round_trip(s: St)
    requires wf(s), words(),
    ensures decode(encode(s)) == s, encode(s).len() == 164,
{
    let c = encode(s);
    assert(to_bytes(s.lanes).len() == 128);
    assert(c.subrange(0, 128) =~= to_bytes(s.lanes));
    assert(c[160] == s.pend.len() && c[161] == 0 && c[162] == 0 && c[163] == 0);
    assert(c.subrange(128, 128 + count(c)) =~= s.pend);
}
/// C11: any 164 bytes restore to a state that satisfies the invariant, and so to one with every law above
pub proof fn total(c: Seq<u8>)
    requires c.len() == 164,
    ensures wf(decode(c)),
{
}
/// C14: checkpoints are canonical: of what was restored, the same state's only encoding
pub proof fn again(s: St)
    requires wf(s), words(),
    ensures encode(decode(encode(s))) == encode(s),
{
    round_trip(s);
}

pub open spec fn step(s: St, c: Call) -> St {
    match c { Call::Append(d) => absorb(s, d), Call::Observe => s, Call::Hop => decode(encode(s)) }
}
pub open spec fn run(s: St, h: Seq<Call>) -> St
    decreases h.len(),
{
    if h.len() == 0 { s } else { run(step(s, h[0]), h.skip(1)) }
}
pub open spec fn bytes(h: Seq<Call>) -> Seq<u8>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() } else {
        match h[0] { Call::Append(d) => d + bytes(h.skip(1)), _ => bytes(h.skip(1)) }
    }
}

/// C05, C06, C13, C14: after any history the state is that of one append of all bytes
pub proof fn history(s: St, h: Seq<Call>)
    requires wf(s), words(),
    ensures run(s, h) == absorb(s, bytes(h)), wf(run(s, h)),
    decreases h.len(),
{
    if h.len() == 0 {
        append_empty(s);
    } else {
        let t = step(s, h[0]);
        match h[0] {
            Call::Append(d) => {
                append_append(s, d, bytes(h.skip(1)));
                history(t, h.skip(1));
            }
            _ => {
                round_trip(s);
                assert(t == s);
                history(s, h.skip(1));
            }
        }
    }
}
/// ... so every result is the one-shot hash of the concatenation
pub proof fn streaming(key: Seq<u64>, h: Seq<Call>, w: nat)
    requires words(),
    ensures ({ let s = run(start(key), h); result(s.lanes, s.pend, w) == hash(key, bytes(h), w) }),
{
    history(start(key), h);
}
/// C14: the checkpoint depends on the bytes consumed only
pub proof fn canonical(key: Seq<u64>, g: Seq<Call>, h: Seq<Call>)
    requires words(), bytes(g) == bytes(h),
    ensures encode(run(start(key), g)) == encode(run(start(key), h)),
{
    history(start(key), g);
    history(start(key), h);
}

/// Many hashers: a call names the hasher it is made on.  By the frame conditions it changes that one only.
pub open spec fn step_many(m: Map<nat, St>, i: nat, c: Call) -> Map<nat, St> { m.insert(i, step(m[i], c)) }
pub open spec fn run_many(m: Map<nat, St>, h: Seq<(nat, Call)>) -> Map<nat, St>
    decreases h.len(),
{
    if h.len() == 0 { m } else { run_many(step_many(m, h[0].0, h[0].1), h.skip(1)) }
}
pub open spec fn only(h: Seq<(nat, Call)>, i: nat) -> Seq<Call>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() }
    else if h[0].0 == i { seq![h[0].1] + only(h.skip(1), i) }
    else { only(h.skip(1), i) }
}
/// C15, C13: in any interleaving, each hasher ends where its own calls alone take it
pub proof fn isolated(m: Map<nat, St>, h: Seq<(nat, Call)>, i: nat)
    requires m.contains_key(i), forall|j: int| 0 <= j < h.len() ==> m.contains_key((#[trigger] h[j]).0),
    ensures run_many(m, h)[i] == run(m[i], only(h, i)), run_many(m, h).contains_key(i),
    decreases h.len(),
{
    if h.len() > 0 {
        let n = step_many(m, h[0].0, h[0].1);
        let t = h.skip(1);
        assert forall|j: int| 0 <= j < t.len() implies n.contains_key((#[trigger] t[j]).0) by {
            assert(t[j] == h[j + 1]);
        }
        isolated(n, t, i);
        if h[0].0 == i {
            let o = only(h, i);
            assert(o.skip(1) =~= only(t, i));
            assert(o[0] == h[0].1);
        }
    }
}

fn main() {}

} // verus!
