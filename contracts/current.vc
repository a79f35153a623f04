//@needs core
//@type dataset.rs FrameGroundTruth noeq
pub open spec fn dist_ms(f: FrameGroundTruth, t: Time) -> int { if t_ms(f.timestamp) >= t_ms(t) { t_ms(f.timestamp) - t_ms(t) } else { t_ms(t) - t_ms(f.timestamp) } }
/// Frame `k` is the first of the nearest frames among the first `n`.
pub open spec fn nearest(s: Seq<FrameGroundTruth>, t: Time, n: int, k: int) -> bool { 0 <= k < n && (forall|j: int| 0 <= j < n ==> dist_ms(s[k], t) <= #[trigger] dist_ms(s[j], t)) && (forall|j: int| 0 <= j < k ==> dist_ms(s[k], t) < #[trigger] dist_ms(s[j], t)) }
pub open spec fn none_near(s: Seq<FrameGroundTruth>, t: Time) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] dist_ms(s[j], t) >= 75 }
//@fn dataset.rs get_current_frame(frame_ground_truths, timestamp) -> r
ensures r is Some ==> exists|k: int| #[trigger] nearest(frame_ground_truths.vs(), *timestamp, frame_ground_truths.vs().len() as int, k) && dist_ms(frame_ground_truths.vs()[k], *timestamp) < 75 && r->0 == frame_ground_truths.vs()[k],
 r is None ==> none_near(frame_ground_truths.vs(), *timestamp)
inv (A:usize, B:i64) $B == i64::MAX || nearest(frame_ground_truths.vs(), *timestamp, $i as int, $A as int)
inv (A:usize, B:i64) $B != i64::MAX ==> $B == dist_ms(frame_ground_truths.vs()[$A as int], *timestamp)
inv (B:i64) $B == i64::MAX ==> $i == 0
inv (A:Option) $A is Some ==> nearest(frame_ground_truths.vs(), *timestamp, $i as int, ($A->0).0 as int) && ($A->0).1 == dist_ms(frame_ground_truths.vs()[($A->0).0 as int], *timestamp)
inv (A:Option) $A is None ==> $i == 0
inv (A:Option, B:i64) $A is Some ==> nearest(frame_ground_truths.vs(), *timestamp, $i as int, $A->0 as int) && $B == dist_ms(frame_ground_truths.vs()[$A->0 as int], *timestamp)
//@end
