//@rename_p String::deserialize vde_string
//@rename_p Error::custom verr1
//@rename_p Error::invalid_value verr2
//@rename_p E::invalid_value verr2
//@rename_p Unexpected::Str vign
//@rename_p hex::decode vhex_decode
//@rename_p hex::encode vhex_encode
//@needs core
//@type dataset/nuscenes/error.rs NuScenesError
//@type dataset/nuscenes/schema.rs LongToken
//@type dataset/nuscenes/schema.rs LongTokenVisitor
//@type dataset/nuscenes/schema.rs ShortTokenVisitor
//@type dataset/nuscenes/schema.rs ShortToken
pub proof fn lemma_hex_roundtrip(b: Seq<u8>) ensures hex_dec(hex_enc(b)) == Some(b)
{ let s = hex_enc(b);
  assert forall|i: int| 0 <= i < s.len() implies hex_val(#[trigger] s[i]) == Some(if i % 2 == 0 { b[i / 2] as int / 16 } else { b[i / 2] as int % 16 }) by { lemma_hex_chr(if i % 2 == 0 { b[i / 2] as int / 16 } else { b[i / 2] as int % 16 }); }
  let d = hex_dec(s)->0;
  assert forall|i: int| 0 <= i < b.len() implies #[trigger] d[i] == b[i] by { assert(hex_val(s[2 * i]) == Some(b[i] as int / 16)); assert(hex_val(s[2 * i + 1]) == Some(b[i] as int % 16)); }
  assert(d =~= b); }
pub proof fn lemma_hex_chr(v: int) requires 0 <= v < 16 ensures hex_val(hex_chr(v)) == Some(v) { }
/// A token that was parsed prints a text that parses to the same token.
pub proof fn lemma_token(t: LongToken, u: ShortToken) ensures hex_dec(hex_enc(t.0@)) == Some(t.0@), hex_dec(hex_enc(u.0@)) == Some(u.0@) { lemma_hex_roundtrip(t.0@); lemma_hex_roundtrip(u.0@); }
/// Tokens are equal exactly if their bytes are.
pub proof fn lemma_token_eq(t: LongToken, u: LongToken) ensures t.eqs(&u) <==> t.0@ == u.0@ { if t.eqs(&u) { assert forall|i: int| 0 <= i < 16 implies t.0@[i] == u.0@[i] by { assert(t.0@[i].eqs(&u.0@[i])); } assert(t.0@ =~= u.0@); } }
pub proof fn lemma_short_eq(t: ShortToken, u: ShortToken) ensures t.eqs(&u) <==> t.0@ == u.0@ { if t.eqs(&u) { assert forall|i: int| 0 <= i < 16 implies t.0@[i] == u.0@[i] by { assert(t.0@[i].eqs(&u.0@[i])); } assert(t.0@ =~= u.0@); } }
//@fn dataset/nuscenes/schema.rs LongToken::try_from(text) -> r: Result<LongToken, NuScenesError> {{trait=TryFrom}}
ensures r is Ok <==> hex_dec(text@) is Some && hex_dec(text@)->0.len() == 16, r is Ok ==> (r->Ok_0).0@ == hex_dec(text@)->0
//@end
//@fn dataset/nuscenes/schema.rs ShortToken::try_from(text) -> r: Result<ShortToken, NuScenesError> {{trait=TryFrom}}
ensures r is Ok <==> hex_dec(text@) is Some && hex_dec(text@)->0.len() == 16, r is Ok ==> (r->Ok_0).0@ == hex_dec(text@)->0
//@end
//@fn dataset/nuscenes/schema.rs LongToken::fmt(f: &mut VFmt) -> r: Result<(), VErr> {{trait=Display}}
ensures r is Ok ==> final(f)@ == old(f)@ + hex_enc(self.0@)
//@end
//@fn dataset/nuscenes/schema.rs ShortToken::fmt(f: &mut VFmt) -> r: Result<(), VErr> {{trait=Display}}
ensures r is Ok ==> final(f)@ == old(f)@ + hex_enc(self.0@)
//@end
//@fn dataset/nuscenes/schema.rs long_token_serde::LongToken::serialize(serializer: VSer) -> r: Result<VSerOk, VErr> {{gen=S:VSer}}
ensures r is Ok ==> r->Ok_0.tok() == VTok::Str(hex_enc(self.0@))
//@end
//@fn dataset/nuscenes/schema.rs long_token_serde::LongTokenVisitor::visit_str(text) -> r: Result<LongToken, VErr> {{gen=E:VErr}}
ensures r is Ok <==> hex_dec(text@) is Some && hex_dec(text@)->0.len() == 16, r is Ok ==> (r->Ok_0).0@ == hex_dec(text@)->0
//@end
//@fn dataset/nuscenes/schema.rs short_token_serde::ShortToken::serialize(serializer: VSer) -> r: Result<VSerOk, VErr> {{gen=S:VSer}}
ensures r is Ok ==> r->Ok_0.tok() == VTok::Str(hex_enc(self.0@))
//@end
//@fn dataset/nuscenes/schema.rs short_token_serde::ShortTokenVisitor::visit_str(text) -> r: Result<ShortToken, VErr> {{gen=E:VErr}}
ensures r is Ok <==> hex_dec(text@) is Some && hex_dec(text@)->0.len() == 16, r is Ok ==> (r->Ok_0).0@ == hex_dec(text@)->0
//@end
//@fn dataset/nuscenes/schema.rs opt_long_token_serde::serialize(value, serializer: VSer) -> r: Result<VSerOk, VErr> {{gen=S:VSer;as=olt_serialize}}
ensures r is Ok ==> r->Ok_0.tok() == VTok::Str(match *value { Some(t) => hex_enc(t.0@), None => Seq::empty() })
start reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
//@end
/// The empty text is no token; any other text is a token or an error.
//@fn dataset/nuscenes/schema.rs opt_long_token_serde::deserialize(deserializer: VDe) -> r: Result<Option<LongToken>, VErr> {{gen=D:VDe;as=olt_deserialize}}
ensures deserializer.tok() is Str ==> (deserializer.tok()->Str_0.len() == 0 ==> r is Ok && r->Ok_0 is None) && (deserializer.tok()->Str_0.len() > 0 ==> match hex_dec(deserializer.tok()->Str_0) { Some(b) => if b.len() == 16 { r is Ok && r->Ok_0 is Some && (r->Ok_0->0).0@ == b } else { r is Err }, None => r is Err }), !(deserializer.tok() is Str) ==> r is Err
//@end
