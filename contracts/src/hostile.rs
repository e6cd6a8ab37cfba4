//! A serde format that answers whatever it likes: every number, text and byte string a visitor is given is arbitrary,
//! and after an arbitrary number of answers it reports an error or the end of the data.
use crate::tokens::Bad;
use rand_core::RngCore;
use serde::de::{Deserialize, DeserializeSeed, Deserializer, EnumAccess, SeqAccess, VariantAccess, Visitor};

pub struct World<'de, 'r, R> {
    /// the source of arbitrary numbers
    pub any: &'r mut R,
    pub texts: [&'de str; 4],
    pub raw: &'de [u8],
    /// how identifiers are given: by number, text or bytes
    pub by: u8,
    /// which answer is the last
    pub stop: u64,
    /// whether that is the end of the sequence (or an error)
    pub end: bool,
    pub answers: u64,
    pub used: usize,
}
impl<'de, 'r, R> World<'de, 'r, R> {
    fn more(&mut self) -> bool {
        if self.answers == self.stop {
            return false;
        }
        self.answers += 1;
        true
    }
    fn text(&mut self) -> &'de str {
        let i = self.used;
        self.used = if i < 3 { i + 1 } else { 0 };
        self.texts[i]
    }
}
pub struct De<'w, 'de, 'r, R>(pub &'w mut World<'de, 'r, R>);

macro_rules! any {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if !self.0.more() { return Err(Bad); }
        v.$v(self.0.any.next_u64() as $t)
    })* };
}
macro_rules! never {
    ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    })* };
}
impl<'w, 'de, 'r, R: RngCore> Deserializer<'de> for De<'w, 'de, 'r, R> {
    type Error = Bad;
    any!(deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    never!(deserialize_any, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_bool, deserialize_f32, deserialize_f64, deserialize_char, deserialize_option, deserialize_unit,
        deserialize_map, deserialize_ignored_any);
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if !self.0.more() {
            return Err(Bad);
        }
        v.visit_borrowed_str(self.0.text())
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if !self.0.more() {
            return Err(Bad);
        }
        v.visit_string(String::from(self.0.text()))
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if !self.0.more() {
            return Err(Bad);
        }
        v.visit_borrowed_bytes(self.0.raw)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if !self.0.more() {
            return Err(Bad);
        }
        v.visit_byte_buf(self.0.raw.to_vec())
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, Bad> {
        Err(Bad)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        v.visit_seq(self)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        v.visit_seq(self)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Bad> {
        v.visit_seq(self)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        v.visit_seq(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> {
        if !self.0.more() {
            return Err(Bad);
        }
        match self.0.by {
            0 => v.visit_u64(self.0.any.next_u64()),
            1 => v.visit_str(self.0.text()),
            _ => v.visit_bytes(self.0.raw),
        }
    }
}
impl<'w, 'de, 'r, R: RngCore> EnumAccess<'de> for De<'w, 'de, 'r, R> {
    type Error = Bad;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Self), Bad> {
        let v = seed.deserialize(De(&mut *self.0))?;
        Ok((v, self))
    }
}
impl<'w, 'de, 'r, R: RngCore> VariantAccess<'de> for De<'w, 'de, 'r, R> {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Bad> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Bad> {
        v.visit_seq(self)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        v.visit_seq(self)
    }
}
impl<'w, 'de, 'r, R: RngCore> SeqAccess<'de> for De<'w, 'de, 'r, R> {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Bad> {
        if self.0.end && self.0.answers == self.0.stop {
            return Ok(None);
        }
        Ok(Some(seed.deserialize(De(&mut *self.0))?))
    }
}
pub fn read<'de, T: Deserialize<'de>, R: RngCore>(w: &mut World<'de, '_, R>) -> Result<T, Bad> {
    T::deserialize(De(w))
}
