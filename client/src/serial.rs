//! A serializer and a deserializer that do nothing: the (de)serialization of
//! the data types is instantiated at them.
use serde::{de, ser};
use svd_rs::*;

pub struct S;
pub struct D;
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: std::fmt::Display>(_: T) -> Self { E } }
impl de::Error for E { fn custom<T: std::fmt::Display>(_: T) -> Self { E } }

impl ser::Serializer for S {
    type Ok = (); type Error = E;
    type SerializeSeq = S; type SerializeTuple = S; type SerializeTupleStruct = S; type SerializeTupleVariant = S;
    type SerializeMap = S; type SerializeStruct = S; type SerializeStructVariant = S;
    fn serialize_bool(self, _: bool) -> Result<(), E> { unimplemented!() }
    fn serialize_i8(self, _: i8) -> Result<(), E> { unimplemented!() }
    fn serialize_i16(self, _: i16) -> Result<(), E> { unimplemented!() }
    fn serialize_i32(self, _: i32) -> Result<(), E> { unimplemented!() }
    fn serialize_i64(self, _: i64) -> Result<(), E> { unimplemented!() }
    fn serialize_u8(self, _: u8) -> Result<(), E> { unimplemented!() }
    fn serialize_u16(self, _: u16) -> Result<(), E> { unimplemented!() }
    fn serialize_u32(self, _: u32) -> Result<(), E> { unimplemented!() }
    fn serialize_u64(self, _: u64) -> Result<(), E> { unimplemented!() }
    fn serialize_f32(self, _: f32) -> Result<(), E> { unimplemented!() }
    fn serialize_f64(self, _: f64) -> Result<(), E> { unimplemented!() }
    fn serialize_char(self, _: char) -> Result<(), E> { unimplemented!() }
    fn serialize_str(self, _: &str) -> Result<(), E> { unimplemented!() }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), E> { unimplemented!() }
    fn serialize_none(self) -> Result<(), E> { unimplemented!() }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn serialize_unit(self) -> Result<(), E> { unimplemented!() }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { unimplemented!() }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { unimplemented!() }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, _: &'static str, x: &T) -> Result<(), E> { x.serialize(S) }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, x: &T) -> Result<(), E> { x.serialize(S) }
    fn serialize_seq(self, _: Option<usize>) -> Result<S, E> { unimplemented!() }
    fn serialize_tuple(self, _: usize) -> Result<S, E> { unimplemented!() }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<S, E> { unimplemented!() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<S, E> { unimplemented!() }
    fn serialize_map(self, _: Option<usize>) -> Result<S, E> { unimplemented!() }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<S, E> { unimplemented!() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<S, E> { unimplemented!() }
}
impl ser::SerializeSeq for S { type Ok = (); type Error = E;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl ser::SerializeTuple for S { type Ok = (); type Error = E;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl ser::SerializeTupleStruct for S { type Ok = (); type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl ser::SerializeTupleVariant for S { type Ok = (); type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl ser::SerializeStruct for S { type Ok = (); type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, _: &'static str, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl ser::SerializeStructVariant for S { type Ok = (); type Error = E;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, _: &'static str, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl ser::SerializeMap for S { type Ok = (); type Error = E;
    fn serialize_key<T: ?Sized + ser::Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn serialize_value<T: ?Sized + ser::Serialize>(&mut self, x: &T) -> Result<(), E> { x.serialize(S) }
    fn end(self) -> Result<(), E> { unimplemented!() } }
impl<'de> de::Deserializer<'de> for D { type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_bool<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_i8<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_i16<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_i32<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_i64<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_u8<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_u16<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_u32<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_u64<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_f32<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_f64<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_char<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_str<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_string<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_bytes<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_byte_buf<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_option<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_unit<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_seq<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_map(D) }
    fn deserialize_identifier<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, E> { unimplemented!() }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> { v.visit_map(D) }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, E> { unimplemented!() }
}
impl<'de> de::MapAccess<'de> for D { type Error = E;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, _: K) -> Result<Option<K::Value>, E> { unimplemented!() }
    fn next_value_seed<V: de::DeserializeSeed<'de>>(&mut self, v: V) -> Result<V::Value, E> { v.deserialize(D) }
    fn next_value<V: de::Deserialize<'de>>(&mut self) -> Result<V, E> { V::deserialize(D) }
}
macro_rules! types { ($($m:ident $t:ident)*) => { $(pub mod $m {
    use super::*;
    pub fn write(x: &$t) -> Result<(), E> { ser::Serialize::serialize(x, S) }
    pub fn read() -> Result<$t, E> { de::Deserialize::deserialize(D) }
})* } }
types! { device Device peripheral Peripheral cluster Cluster register Register field Field bitrange BitRange dim DimElement dimindex DimArrayIndex
    registercluster RegisterCluster peripheralinfo PeripheralInfo clusterinfo ClusterInfo registerinfo RegisterInfo fieldinfo FieldInfo
    evs EnumeratedValues ev EnumeratedValue wc WriteConstraint wcr WriteConstraintRange cpu Cpu block AddressBlock irq Interrupt props RegisterProperties }
