//! A serde format that names fields and variants, in the manner of JSON or CBOR, except that its text is a list of
//! tokens. A byte string and a sequence of bytes are different things in it.
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};

#[derive(Clone)]
pub enum Tok {
    Unit,
    Bool(bool),
    Int(u64),
    Bytes(Vec<u8>),
    Str(String),
    /// a sequence, tuple or struct of that many elements follows
    Open(usize),
    Field(&'static str),
    Variant(&'static str),
}

pub struct Bad;
impl core::fmt::Debug for Bad {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Bad")
    }
}
impl core::fmt::Display for Bad {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Bad")
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Bad
    }
    fn invalid_type(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_value(_: de::Unexpected<'_>, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Bad
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Bad
    }
    fn missing_field(_: &'static str) -> Self {
        Bad
    }
    fn duplicate_field(_: &'static str) -> Self {
        Bad
    }
}

pub struct Ser<'s> {
    pub out: &'s mut Vec<Tok>,
    /// what to write in place of the field of this name
    pub forge: Option<(&'static str, &'s str)>,
}
impl<'s> Ser<'s> {
    fn put(self, t: Tok) -> Result<(), Bad> {
        self.out.push(t);
        Ok(())
    }
}
macro_rules! ints {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Bad> { self.put(Tok::Int(v as u64)) })* };
}
impl<'s> Serializer for Ser<'s> {
    type Ok = ();
    type Error = Bad;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ints!(serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64);
    fn serialize_bool(self, v: bool) -> Result<(), Bad> {
        self.put(Tok::Bool(v))
    }
    fn serialize_f32(self, _: f32) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_f64(self, _: f64) -> Result<(), Bad> {
        Err(Bad)
    }
    fn serialize_char(self, v: char) -> Result<(), Bad> {
        self.put(Tok::Int(v as u64))
    }
    fn serialize_str(self, v: &str) -> Result<(), Bad> {
        self.put(Tok::Str(String::from(v)))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Bad> {
        self.put(Tok::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<(), Bad> {
        self.put(Tok::Bool(false))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Bad> {
        self.out.push(Tok::Bool(true));
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Bad> {
        self.put(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Bad> {
        self.put(Tok::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<(), Bad> {
        self.put(Tok::Variant(n))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<(), Bad> {
        self.out.push(Tok::Variant(n));
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Bad> {
        match n {
            Some(n) => {
                self.out.push(Tok::Open(n));
                Ok(self)
            }
            None => Err(Bad),
        }
    }
    fn serialize_tuple(self, n: usize) -> Result<Self, Bad> {
        self.out.push(Tok::Open(n));
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Bad> {
        self.out.push(Tok::Open(n));
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, name: &'static str, n: usize) -> Result<Self, Bad> {
        self.out.push(Tok::Variant(name));
        self.out.push(Tok::Open(n));
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Bad> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, Bad> {
        self.out.push(Tok::Open(n));
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, name: &'static str, n: usize) -> Result<Self, Bad> {
        self.out.push(Tok::Variant(name));
        self.out.push(Tok::Open(n));
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        true
    }
}
impl<'s> Ser<'s> {
    fn el<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        v.serialize(Ser { out: &mut *self.out, forge: self.forge })
    }
}
macro_rules! elements {
    ($($tr:ident $f:ident),*) => { $(impl<'s> ser::$tr for Ser<'s> {
        type Ok = ();
        type Error = Bad;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> { self.el(v) }
        fn end(self) -> Result<(), Bad> { Ok(()) }
    })* };
}
elements!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($($tr:ident),*) => { $(impl<'s> ser::$tr for Ser<'s> {
        type Ok = ();
        type Error = Bad;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> {
            self.out.push(Tok::Field(k));
            match self.forge {
                Some((name, s)) if name == k => self.el(s),
                _ => self.el(v),
            }
        }
        fn end(self) -> Result<(), Bad> { Ok(()) }
    })* };
}
fields!(SerializeStruct, SerializeStructVariant);
impl<'s> ser::SerializeMap for Ser<'s> {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.el(v)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> {
        self.el(v)
    }
    fn end(self) -> Result<(), Bad> {
        Ok(())
    }
}

/// reads the tokens `toks[*at..]`
pub struct De<'p, 'de> {
    pub toks: &'de [Tok],
    pub at: &'p mut usize,
}
impl<'p, 'de> De<'p, 'de> {
    fn next(&mut self) -> Option<&'de Tok> {
        let i = *self.at;
        if i < self.toks.len() {
            *self.at = i + 1;
            Some(&self.toks[i])
        } else {
            None
        }
    }
    fn open(&mut self) -> Result<usize, Bad> {
        match self.next() {
            Some(Tok::Open(n)) => Ok(*n),
            _ => Err(Bad),
        }
    }
    fn again(&mut self) -> De<'_, 'de> {
        De { toks: self.toks, at: &mut *self.at }
    }
}
macro_rules! deints {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Int(i)) => v.$v(*i as $t),
            _ => Err(Bad),
        }
    })* };
}
impl<'p, 'de> Deserializer<'de> for De<'p, 'de> {
    type Error = Bad;
    deints!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    fn deserialize_any<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Unit) => v.visit_unit(),
            Some(Tok::Bool(b)) => v.visit_bool(*b),
            Some(Tok::Int(i)) => v.visit_u64(*i),
            Some(Tok::Bytes(b)) => v.visit_borrowed_bytes(b),
            Some(Tok::Str(s)) => v.visit_borrowed_str(s),
            Some(Tok::Open(n)) => v.visit_seq(Elements { left: *n, de: self }),
            _ => Err(Bad),
        }
    }
    fn deserialize_bool<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Bool(b)) => v.visit_bool(*b),
            _ => Err(Bad),
        }
    }
    fn deserialize_f32<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_char<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_str<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Str(s)) => v.visit_borrowed_str(s),
            _ => Err(Bad),
        }
    }
    fn deserialize_string<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Str(s)) => v.visit_string(s.clone()),
            _ => Err(Bad),
        }
    }
    fn deserialize_bytes<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Bytes(b)) => v.visit_borrowed_bytes(b),
            _ => Err(Bad),
        }
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Bytes(b)) => v.visit_byte_buf(b.clone()),
            _ => Err(Bad),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Bool(true)) => v.visit_some(self),
            Some(Tok::Bool(false)) => v.visit_none(),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Unit) => v.visit_unit(),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        self.deserialize_unit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        let n = self.open()?;
        v.visit_seq(Elements { left: n, de: self })
    }
    fn deserialize_tuple<V: Visitor<'de>>(mut self, n: usize, v: V) -> Result<V::Value, Bad> {
        if self.open()? != n {
            return Err(Bad);
        }
        v.visit_seq(Elements { left: n, de: self })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_tuple(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        let n = self.open()?;
        v.visit_map(Elements { left: n, de: self })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        let _ = f;
        self.deserialize_map(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(mut self, v: V) -> Result<V::Value, Bad> {
        match self.next() {
            Some(Tok::Field(n)) => v.visit_str(n),
            Some(Tok::Variant(n)) => v.visit_str(n),
            _ => Err(Bad),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        self.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        true
    }
}
impl<'p, 'de> EnumAccess<'de> for De<'p, 'de> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(mut self, seed: S) -> Result<(S::Value, Self), Bad> {
        let v = seed.deserialize(self.again())?;
        Ok((v, self))
    }
}
impl<'p, 'de> VariantAccess<'de> for De<'p, 'de> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Bad> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Bad> {
        self.deserialize_tuple(n, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        self.deserialize_struct("", f, v)
    }
}
pub struct Elements<'p, 'de> {
    left: usize,
    de: De<'p, 'de>,
}
impl<'p, 'de> SeqAccess<'de> for Elements<'p, 'de> {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        Ok(Some(seed.deserialize(self.de.again())?))
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'p, 'de> MapAccess<'de> for Elements<'p, 'de> {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Bad> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        Ok(Some(seed.deserialize(self.de.again())?))
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Bad> {
        seed.deserialize(self.de.again())
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}

pub fn write<T: Serialize>(v: &T, forge: Option<(&'static str, &str)>) -> Result<Vec<Tok>, Bad> {
    let mut out = Vec::new();
    v.serialize(Ser { out: &mut out, forge })?;
    Ok(out)
}
/// reads one value; every token must be used
pub fn read<'de, T: Deserialize<'de>>(toks: &'de [Tok]) -> Result<T, Bad> {
    let mut at = 0;
    let v = T::deserialize(De { toks, at: &mut at })?;
    if at == toks.len() {
        Ok(v)
    } else {
        Err(Bad)
    }
}
