"""Rust stand-ins for data formats, shared by C15, C16, C22."""
DE = """
use serde::de::{value as dv, Visitor, Deserializer as _, IntoDeserializer as _};
#[derive(Debug)]
pub struct DE;
impl core::fmt::Display for DE { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for DE {}
impl serde::de::Error for DE { fn custom<T: core::fmt::Display>(_: T) -> Self { DE } }
impl serde::ser::Error for DE { fn custom<T: core::fmt::Display>(_: T) -> Self { DE } }
pub fn du(o: &mut Out, r: Result<U256, DE>) { match r { Ok(v) => o.w[0] = v, Err(_) => o.n[0] = 1 } }
pub fn di(o: &mut Out, r: Result<I256, DE>) { match r { Ok(v) => o.x[0] = v, Err(_) => o.n[0] = 1 } }
"""

SER = """
pub struct Ser<'a>(pub &'a mut Out);
impl<'a> Ser<'a> { fn put(self, v: &[u8]) { let mut k = 0; while k < v.len() { self.0.s[k] = v[k]; k += 1; } self.0.len = v.len(); } }
impl<'a> serde::Serializer for Ser<'a> {
    type Ok = (); type Error = DE;
    type SerializeSeq = serde::ser::Impossible<(), DE>; type SerializeTuple = serde::ser::Impossible<(), DE>; type SerializeTupleStruct = serde::ser::Impossible<(), DE>;
    type SerializeTupleVariant = serde::ser::Impossible<(), DE>; type SerializeMap = serde::ser::Impossible<(), DE>; type SerializeStruct = serde::ser::Impossible<(), DE>;
    type SerializeStructVariant = serde::ser::Impossible<(), DE>;
    fn serialize_str(self, v: &str) -> Result<(), DE> { self.0.n[1] = 1; self.put(v.as_bytes()); Ok(()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), DE> { self.0.n[1] = 2; self.put(v); Ok(()) }
    fn serialize_bool(self, _: bool) -> Result<(), DE> { Err(DE) }
    fn serialize_i8(self, _: i8) -> Result<(), DE> { Err(DE) }
    fn serialize_i16(self, _: i16) -> Result<(), DE> { Err(DE) }
    fn serialize_i32(self, _: i32) -> Result<(), DE> { Err(DE) }
    fn serialize_i64(self, _: i64) -> Result<(), DE> { Err(DE) }
    fn serialize_i128(self, _: i128) -> Result<(), DE> { Err(DE) }
    fn serialize_u8(self, _: u8) -> Result<(), DE> { Err(DE) }
    fn serialize_u16(self, _: u16) -> Result<(), DE> { Err(DE) }
    fn serialize_u32(self, _: u32) -> Result<(), DE> { Err(DE) }
    fn serialize_u64(self, _: u64) -> Result<(), DE> { Err(DE) }
    fn serialize_u128(self, _: u128) -> Result<(), DE> { Err(DE) }
    fn serialize_f32(self, _: f32) -> Result<(), DE> { Err(DE) }
    fn serialize_f64(self, _: f64) -> Result<(), DE> { Err(DE) }
    fn serialize_char(self, _: char) -> Result<(), DE> { Err(DE) }
    fn serialize_none(self) -> Result<(), DE> { Err(DE) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), DE> { Err(DE) }
    fn serialize_unit(self) -> Result<(), DE> { Err(DE) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), DE> { Err(DE) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), DE> { Err(DE) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<(), DE> { Err(DE) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), DE> { Err(DE) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, DE> { Err(DE) }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, DE> { Err(DE) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, DE> { Err(DE) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, DE> { Err(DE) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, DE> { Err(DE) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, DE> { Err(DE) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, DE> { Err(DE) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), DE> { Err(DE) }
}
"""

DESER = """
pub struct Seq<'a>(pub &'a [u8], pub usize, pub u8);      // next index, kind of size hint
impl<'de, 'a> serde::de::SeqAccess<'de> for Seq<'a> {
    type Error = DE;
    fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, DE> {
        if self.1 < self.0.len() { let b = self.0[self.1]; self.1 += 1; seed.deserialize(dv::U8Deserializer::<DE>::new(b)).map(Some) } else { Ok(None) }
    }
    fn size_hint(&self) -> Option<usize> { if self.2 == 1 { Some(self.0.len() - self.1) } else { None } }
}
pub struct De<'a>(pub &'a [u8], pub u8);                  // 0 bytes, 1 sequence with size hint, 2 sequence without, 3 string
impl<'de, 'a> serde::Deserializer<'de> for De<'a> {
    type Error = DE;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DE> { if self.1 == 0 { v.visit_bytes(self.0) } else if self.1 == 3 { v.visit_str(unsafe { core::str::from_utf8_unchecked(self.0) }) } else { v.visit_seq(Seq(self.0, 0, self.1)) } }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
"""
