//@needs core
//@rename_p f64::deserialize vde_f64
//@rename_p Error::custom verr1
/// The timestamp read from a number is exactly that many whole microseconds (an error if chrono has no such instant).
pub open spec fn read_int(u: int, r: Result<Time, VErr>) -> bool { (t_repr(u) ==> r is Ok && t_ns(r->Ok_0) == 1000 * u) && (!t_repr(u) ==> r is Err) }
pub open spec fn read_as(k: VTok, r: Result<Time, VErr>) -> bool { match k { VTok::Num(x) => x.ok() ==> exists|u: int| #[trigger] trunc_is(x.rv(), u) && read_int(u, r), VTok::Int(i) => f_int(i) ==> read_int(i, r), _ => r is Err } }
pub proof fn lemma_trunc(x: real, u: int, v: int) requires trunc_is(x, u), trunc_is(x, v) ensures u == v { }
pub proof fn lemma_trunc_int(n: int) ensures trunc_is(n as real, n) { }
/// The number of microseconds a timestamp was read from: truncated, representable.
pub proof fn lemma_read(x: F, t: Time) -> (u: int) requires x.ok(), read_as(VTok::Num(x), Ok::<Time, VErr>(t)) ensures trunc_is(x.rv(), u), t_repr(u), t_ns(t) == 1000 * u, t_us(t) == u, f_int(u)
{ let u = choose|u: int| #[trigger] trunc_is(x.rv(), u) && read_int(u, Ok::<Time, VErr>(t)); ax_us(t); ax_f_trunc(x, u); u }
/// Reading, writing and reading again restores the timestamp; an integral number is written back unchanged.
pub proof fn lemma_time_roundtrip(k: VTok, t: Time, r: Result<Time, VErr>) requires k is Num && (k->Num_0).ok() || k is Int && f_int(k->Int_0), read_as(k, Ok::<Time, VErr>(t)), read_as(VTok::Int(t_us(t)), r) ensures r is Ok && r->Ok_0 == t, k is Int ==> t_us(t) == k->Int_0
{ if let VTok::Num(x) = k { let u = lemma_read(x, t); } ax_us(t); ax_ns_ext(r->Ok_0, t); }
pub proof fn lemma_time_integral(x: F, n: int, t: Time) requires x.ok(), x.rv() == (n as real), read_as(VTok::Num(x), Ok::<Time, VErr>(t)) ensures t_ns(t) == 1000 * n, t_us(t) == n
{ let u = lemma_read(x, t); lemma_trunc_int(n); lemma_trunc(x.rv(), n, u); }
/// Every number up to 2^53 in magnitude is one an f64 holds exactly.
pub proof fn lemma_small(i: int) requires -9007199254740992 <= i <= 9007199254740992 ensures f_int(i) { ax_f_small(i); }
//@fn dataset/nuscenes/schema.rs timestamp_serde::serialize(value, serializer: VSer) -> r: Result<VSerOk, VErr> {{gen=S:VSer;as=ts_serialize}}
ensures r is Ok ==> r->Ok_0.tok() == VTok::Int(t_us(*value))
//@end
//@fn dataset/nuscenes/schema.rs timestamp_serde::deserialize(deserializer: VDe) -> r: Result<Time, VErr> {{gen=D:VDe;as=ts_deserialize}}
ensures read_as(deserializer.tok(), r)
start ax_t_repr();
begin lemma_trunc_int(0);
//@end
