//! A serialisation format of the simulator's own: a recorder that can fail at any call, and a list of
//! typed fields that can be handed over in any order, in any representation, failing at any access.
use serde::de::{DeserializeSeed, Deserializer, MapAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeStruct, Serializer};
use serde::{Deserialize, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl serde::de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

/// Records what is serialised, as text; fails at the given call.
#[derive(Default)]
pub struct Rec {
    pub out: Vec<String>,
    pub calls: u32,
    pub fail_at: Option<u32>,
    pub failed: bool,
    pub ended: bool,
}
impl Rec {
    fn step(&mut self) -> Result<(), E> {
        let k = self.calls;
        self.calls += 1;
        if self.failed {
            // nothing may follow a failure
            self.out.push("after failure".into());
        }
        if Some(k) == self.fail_at {
            self.failed = true;
            return Err(E("sink refused".into()));
        }
        Ok(())
    }
    fn put(&mut self, s: String) -> Result<(), E> {
        self.step()?;
        self.out.push(s);
        Ok(())
    }
}
macro_rules! no {
    ($($n:ident($($t:ty),*);)*) => {$(fn $n(self $(, _: $t)*) -> Result<(), E> { Err(E(concat!("unexpected ", stringify!($n)).into())) })*};
}
impl<'a> Serializer for &'a mut Rec {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Impossible<(), E>;
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.put(format!("{:016x}", v.to_bits()))
    }
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.put(format!("{:016x}", (v as f64).to_bits()))
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.put(v.to_string())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, E> {
        self.step()?;
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        self.step()?;
        Ok(self)
    }
    no! { serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
    serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_char(char);
    serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
    serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
        Err(E("unexpected variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E("unexpected seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("unexpected tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("unexpected tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("unexpected tuple".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("unexpected variant".into()))
    }
}
impl SerializeMap for &mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        k.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.step()?;
        self.ended = true;
        Ok(())
    }
}
impl SerializeStruct for &mut Rec {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.put(k.to_string())?;
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        self.step()?;
        self.ended = true;
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    /// by its bits, since a scenario has to survive being written down
    F64(u64),
    F32(u32),
    I64(i64),
    U64(u64),
    Str(String),
    Bytes(String),
    Null,
    Bool(bool),
    Many(Vec<Item>),
}

/// A map handed to the decoder field by field.
#[derive(Clone, Debug)]
pub struct Fields {
    pub items: Vec<(String, Item)>,
    pub owned: bool,
    pub size_hint: bool,
    /// fail at this access
    pub fail_at: Option<u32>,
}

struct It<'a>(&'a Item, bool);
impl<'de> Deserializer<'de> for It<'_> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Item::F64(b) => v.visit_f64(f64::from_bits(*b)),
            Item::F32(b) => v.visit_f32(f32::from_bits(*b)),
            Item::I64(x) => v.visit_i64(*x),
            Item::U64(x) => v.visit_u64(*x),
            Item::Str(s) if self.1 => v.visit_string(s.clone()),
            Item::Str(s) => v.visit_str(s),
            Item::Bytes(s) => v.visit_bytes(s.as_bytes()),
            Item::Null => v.visit_unit(),
            Item::Bool(b) => v.visit_bool(*b),
            Item::Many(x) => v.visit_seq(Seq(x, 0, self.1)),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct Seq<'a>(&'a [Item], usize, bool);
impl<'de> serde::de::SeqAccess<'de> for Seq<'_> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.get(self.1) {
            None => Ok(None),
            Some(x) => {
                self.1 += 1;
                s.deserialize(It(x, self.2)).map(Some)
            }
        }
    }
}
struct Acc {
    f: Fields,
    i: usize,
    calls: u32,
}
impl Acc {
    fn step(&mut self) -> Result<(), E> {
        let k = self.calls;
        self.calls += 1;
        if Some(k) == self.f.fail_at {
            return Err(E("source failed".into()));
        }
        Ok(())
    }
}
impl<'de> MapAccess<'de> for Acc {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        self.step()?;
        match self.f.items.get(self.i) {
            None => Ok(None),
            Some((k, _)) => s.deserialize(It(&Item::Str(k.clone()), self.f.owned)).map(Some),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        self.step()?;
        let k = self.i;
        self.i += 1;
        s.deserialize(It(&self.f.items[k].1, self.f.owned))
    }
    fn size_hint(&self) -> Option<usize> {
        self.f.size_hint.then_some(self.f.items.len())
    }
}
impl<'de> Deserializer<'de> for Fields {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_map(Acc { f: self, i: 0, calls: 0 })
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
