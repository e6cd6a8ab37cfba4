//! A compact serde format in the manner of bincode (its default layout): integers little-endian at fixed width, variants as u32, lengths as
//! u64, sequences, byte strings and strings with their length in front, tuples and structs without anything.
//! Nothing in it names a field or a variant.
use crate::tokens::Bad;
use serde::de::{Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::convert::TryInto;

pub struct Ser<'s> {
    pub out: &'s mut Vec<u8>,
    /// what to write in place of the field of this name
    pub forge: Option<(&'static str, &'s str)>,
}
impl<'s> Ser<'s> {
    fn put(self, b: &[u8]) -> Result<(), Bad> {
        self.out.extend_from_slice(b);
        Ok(())
    }
    fn el<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(Ser { out: &mut *self.out, forge: self.forge })
    }
}
macro_rules! ints {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Bad> { self.put(&v.to_le_bytes()) })* };
}
impl<'s> Serializer for Ser<'s> {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ints!(serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64);
    fn serialize_u8(self, v: u8) -> Result<(), Bad> {
        self.out.push(v);
        Ok(())
    }
    fn serialize_bool(self, v: bool) -> Result<(), Bad> {
        self.serialize_u8(v as u8)
    }
    fn serialize_f32(self, _: f32) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_f64(self, _: f64) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_char(self, v: char) -> Result<(), Bad> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Result<(), Bad> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Bad> {
        self.out.extend_from_slice(&(v.len() as u64).to_le_bytes());
        self.put(v)
    }
    fn serialize_none(self) -> Result<(), Bad> {
        self.serialize_u8(0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Bad> {
        self.out.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Bad> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Bad> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Bad> {
        self.out.extend_from_slice(&i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Bad> {
        match n {
            Some(n) => {
                self.out.extend_from_slice(&(n as u64).to_le_bytes());
                Ok(self)
            }
            None => Err(Bad),
        }
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Bad> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Bad> {
        self.out.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Bad> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Bad> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, Bad> {
        self.out.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! elements {
    ($($tr:ident $f:ident),*) => { $(impl<'s> ser::$tr for Ser<'s> {
        type Ok = ();
        type Error = Bad;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> { self.el(v) }
        fn end(self) -> Result<(), Bad> { Ok(()) }
    })* };
}
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => { $(impl<'s> ser::$tr for Ser<'s> {
        type Ok = ();
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
            match self.forge {
                Some((name, s)) if name == k => self.el(s),
                _ => self.el(v),
            }
        }
        fn end(self) -> Result<(), Bad> { Ok(()) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl<'s> ser::SerializeMap for Ser<'s> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.el(v)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.el(v)
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

/// reads from the front of `rest`
pub struct De<'p, 'de> {
    pub rest: &'p mut &'de [u8],
}
impl<'p, 'de> De<'p, 'de> {
    fn take(&mut self, n: u64) -> Result<&'de [u8], Bad> {
        let s: &'de [u8] = *self.rest;
        if n > s.len() as u64 {
            return Err(Bad);
        }
        let (a, b) = s.split_at(n as usize);
        *self.rest = b;
        Ok(a)
    }
    fn u32(&mut self) -> Result<u32, Bad> {
        match self.take(4)?.try_into() {
            Ok(b) => Ok(u32::from_le_bytes(b)),
            Err(_) => Err(Bad),
        }
    }
    fn u64(&mut self) -> Result<u64, Bad> {
        match self.take(8)?.try_into() {
            Ok(b) => Ok(u64::from_le_bytes(b)),
            Err(_) => Err(Bad),
        }
    }
    fn bytes(&mut self) -> Result<&'de [u8], Bad> {
        let n = self.u64()?;
        self.take(n)
    }
    fn str(&mut self) -> Result<&'de str, Bad> {
        match std::str::from_utf8(self.bytes()?) {
            Ok(s) => Ok(s),
            Err(_) => Err(Bad),
        }
    }
    fn again(&mut self) -> De<'_, 'de> {
        De { rest: &mut *self.rest }
    }
}
macro_rules! deints {
    ($($f:ident $v:ident $t:ident $n:literal),*) => { $(fn $f<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.take($n)?.try_into() {
            Ok(b) => v.$v($t::from_le_bytes(b)),
            Err(_) => Err(Bad),
        }
    })* };
}
impl<'p, 'de> Deserializer<'de> for De<'p, 'de> {
    type Error = Bad;
    deints!(deserialize_i8 visit_i8 i8 1, deserialize_i16 visit_i16 i16 2, deserialize_i32 visit_i32 i32 4, deserialize_i64 visit_i64 i64 8,
        deserialize_u16 visit_u16 u16 2, deserialize_u32 visit_u32 u32 4, deserialize_u64 visit_u64 u64 8);
    fn deserialize_u8<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        v.visit_u8(self.take(1)?[0])
    }
    /// the format does not say what comes next
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_bool<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.take(1)?[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(Bad),
        }
    }
    fn deserialize_f32<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_char<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_str<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        v.visit_borrowed_str(self.str()?)
    }
    fn deserialize_string<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        v.visit_string(String::from(self.str()?))
    }
    fn deserialize_bytes<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        v.visit_borrowed_bytes(self.bytes()?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        v.visit_byte_buf(self.bytes()?.to_vec())
    }
    fn deserialize_option<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.take(1)?[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        let n = self.u64()?;
        v.visit_seq(Elements { left: n, de: self })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Bad> {
        v.visit_seq(Elements { left: n as u64, de: self })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        let n = self.u64()?;
        v.visit_map(Elements { left: n, de: self })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        self.deserialize_tuple(f.len(), v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        v.visit_u32(self.u32()?)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
impl<'p, 'de> EnumAccess<'de> for De<'p, 'de> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(mut self, seed: S) -> Result<(S::Value, Self), Bad> {
        let v = seed.deserialize(self.again())?;
        Ok((v, self))
    }
}
impl<'p, 'de> VariantAccess<'de> for De<'p, 'de> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Bad> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_tuple(n, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        self.deserialize_tuple(f.len(), v)
    }
}
pub struct Elements<'p, 'de> {
    left: u64,
    de: De<'p, 'de>,
}
impl<'p, 'de> SeqAccess<'de> for Elements<'p, 'de> {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        Ok(Some(seed.deserialize(self.de.again())?))
    }
}
impl<'p, 'de> MapAccess<'de> for Elements<'p, 'de> {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        Ok(Some(seed.deserialize(self.de.again())?))
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Bad> {
        seed.deserialize(self.de.again())
    }
}

pub fn write<T: Serialize>(v: &T, forge: Option<(&'static str, &str)>) -> Result<Vec<u8>, Bad> {
    let mut out = Vec::new();
    v.serialize(Ser { out: &mut out, forge })?;
    Ok(out)
}
/// reads one value; every byte must be used
pub fn read<'de, T: Deserialize<'de>>(bytes: &'de [u8]) -> Result<T, Bad> {
    let mut rest = bytes;
    let v = T::deserialize(De { rest: &mut rest })?;
    if rest.is_empty() {
        Ok(v)
    } else {
        Err(Bad)
    }
}
