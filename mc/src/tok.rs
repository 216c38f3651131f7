//! A recording, non-self-describing serde format: the serializer writes tokens, the deserializer replays them and can be told
//! to lie about sizes, to hand strings out borrowed/transient/owned, and to fail at any token.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Tok {
    Map(Option<usize>),
    Seq(Option<usize>),
    End,
    Str(String),
    U(u64),
    I(i64),
    Var(u32),
}
#[derive(Debug)]
pub struct TErr(pub String);
impl fmt::Display for TErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for TErr {}
impl ser::Error for TErr {
    fn custom<T: fmt::Display>(m: T) -> Self { TErr(m.to_string()) }
}
impl de::Error for TErr {
    fn custom<T: fmt::Display>(m: T) -> Self { TErr(m.to_string()) }
}

#[derive(Default)]
pub struct Ser {
    pub out: Vec<Tok>,
    /// fail when this many tokens have been written
    pub fail_at: Option<usize>,
}
impl Ser {
    fn put(&mut self, t: Tok) -> Result<(), TErr> {
        if self.fail_at == Some(self.out.len()) {
            return Err(TErr("injected write fault".into()));
        }
        self.out.push(t);
        Ok(())
    }
}
pub fn to_tokens<T: Serialize + ?Sized>(t: &T) -> Result<Vec<Tok>, TErr> {
    let mut s = Ser::default();
    t.serialize(&mut s)?;
    Ok(s.out)
}
fn no<T>() -> Result<T, TErr> { Err(TErr("unexpected data model call".into())) }
impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = TErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = ser::Impossible<(), TErr>;
    type SerializeTupleVariant = ser::Impossible<(), TErr>;
    type SerializeMap = Self;
    type SerializeStruct = ser::Impossible<(), TErr>;
    type SerializeStructVariant = ser::Impossible<(), TErr>;
    fn serialize_bool(self, v: bool) -> Result<(), TErr> { self.put(Tok::U(v as u64)) }
    fn serialize_i8(self, v: i8) -> Result<(), TErr> { self.put(Tok::I(v.into())) }
    fn serialize_i16(self, v: i16) -> Result<(), TErr> { self.put(Tok::I(v.into())) }
    fn serialize_i32(self, v: i32) -> Result<(), TErr> { self.put(Tok::I(v.into())) }
    fn serialize_i64(self, v: i64) -> Result<(), TErr> { self.put(Tok::I(v)) }
    fn serialize_u8(self, v: u8) -> Result<(), TErr> { self.put(Tok::U(v.into())) }
    fn serialize_u16(self, v: u16) -> Result<(), TErr> { self.put(Tok::U(v.into())) }
    fn serialize_u32(self, v: u32) -> Result<(), TErr> { self.put(Tok::U(v.into())) }
    fn serialize_u64(self, v: u64) -> Result<(), TErr> { self.put(Tok::U(v)) }
    fn serialize_f32(self, _: f32) -> Result<(), TErr> { no() }
    fn serialize_f64(self, _: f64) -> Result<(), TErr> { no() }
    fn serialize_char(self, v: char) -> Result<(), TErr> { self.put(Tok::U(v as u64)) }
    fn serialize_str(self, v: &str) -> Result<(), TErr> { self.put(Tok::Str(v.into())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), TErr> { no() }
    fn serialize_none(self) -> Result<(), TErr> { no() }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<(), TErr> { no() }
    fn serialize_unit(self) -> Result<(), TErr> { no() }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), TErr> { no() }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), TErr> { self.put(Tok::Var(i)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), TErr> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), TErr> { no() }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, TErr> { self.put(Tok::Seq(n))?; Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Self, TErr> { self.put(Tok::Seq(Some(n)))?; Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, TErr> { no() }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, TErr> { no() }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, TErr> { self.put(Tok::Map(n))?; Ok(self) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, TErr> { no() }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, TErr> { no() }
    fn is_human_readable(&self) -> bool { false }
}
impl ser::SerializeSeq for &mut Ser {
    type Ok = ();
    type Error = TErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TErr> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), TErr> { self.put(Tok::End) }
}
impl ser::SerializeTuple for &mut Ser {
    type Ok = ();
    type Error = TErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TErr> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), TErr> { self.put(Tok::End) }
}
impl ser::SerializeMap for &mut Ser {
    type Ok = ();
    type Error = TErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TErr> { v.serialize(&mut **self) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), TErr> { v.serialize(&mut **self) }
    fn end(self) -> Result<(), TErr> { self.put(Tok::End) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hint { None, Zero, Exact, Less, More, Half, Max }
pub const HINTS: [Hint; 7] = [Hint::None, Hint::Zero, Hint::Exact, Hint::Less, Hint::More, Hint::Half, Hint::Max];
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum StrMode { Borrowed, Transient, Owned }

pub struct De<'de> {
    pub toks: &'de [Tok],
    pub pos: usize,
    pub hint: Hint,
    pub strs: StrMode,
    pub fail_at: Option<usize>,
}
impl<'de> De<'de> {
    pub fn new(toks: &'de [Tok]) -> Self { De { toks, pos: 0, hint: Hint::Exact, strs: StrMode::Transient, fail_at: None } }
    fn peek(&self) -> Result<&'de Tok, TErr> {
        if self.fail_at == Some(self.pos) {
            return Err(TErr("injected read fault".into()));
        }
        self.toks.get(self.pos).ok_or_else(|| TErr("end of input".into()))
    }
    fn next(&mut self) -> Result<&'de Tok, TErr> {
        let t = self.peek()?;
        self.pos += 1;
        Ok(t)
    }
    fn scalar<V: Visitor<'de>>(&mut self, v: V) -> Result<V::Value, TErr> {
        match self.next()? {
            Tok::U(x) => v.visit_u64(*x),
            Tok::I(x) => v.visit_i64(*x),
            t => Err(TErr(format!("number expected, found {t:?}"))),
        }
    }
    fn string<V: Visitor<'de>>(&mut self, v: V) -> Result<V::Value, TErr> {
        match self.next()? {
            Tok::Str(s) => match self.strs {
                StrMode::Borrowed => v.visit_borrowed_str(s),
                StrMode::Transient => {
                    let t = s.clone();
                    v.visit_str(&t)
                }
                StrMode::Owned => v.visit_string(s.clone()),
            },
            t => Err(TErr(format!("string expected, found {t:?}"))),
        }
    }
    fn hint(&self, real: usize) -> Option<usize> {
        match self.hint {
            Hint::None => None,
            Hint::Zero => Some(0),
            Hint::Exact => Some(real),
            Hint::Less => Some(real.saturating_sub(1)),
            Hint::More => Some(real + 1),
            Hint::Half => Some(usize::MAX / 2 + 1),
            Hint::Max => Some(usize::MAX),
        }
    }
}
struct Acc<'a, 'de> {
    de: &'a mut De<'de>,
    left: usize,
    lie: Option<usize>,
}
impl<'de> SeqAccess<'de> for Acc<'_, 'de> {
    type Error = TErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, TErr> {
        if self.left == 0 || *self.de.peek()? == Tok::End {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.de).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { self.lie }
}
impl<'de> MapAccess<'de> for Acc<'_, 'de> {
    type Error = TErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, TErr> {
        if self.left == 0 || *self.de.peek()? == Tok::End {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.de).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, TErr> { s.deserialize(&mut *self.de) }
    fn size_hint(&self) -> Option<usize> { self.lie }
}
impl<'de> EnumAccess<'de> for &mut De<'de> {
    type Error = TErr;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), TErr> {
        match self.next()? {
            Tok::Var(i) => {
                let v = s.deserialize(IntoDeserializer::<TErr>::into_deserializer(*i))?;
                Ok((v, self))
            }
            t => Err(TErr(format!("variant expected, found {t:?}"))),
        }
    }
}
impl<'de> VariantAccess<'de> for &mut De<'de> {
    type Error = TErr;
    fn unit_variant(self) -> Result<(), TErr> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, TErr> { no() }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, TErr> { no() }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, TErr> { no() }
}
macro_rules! fwd { ($to:ident: $($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TErr> { self.$to(v) })* }; }
impl<'de> de::Deserializer<'de> for &mut De<'de> {
    type Error = TErr;
    fwd!(scalar: deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_char);
    fwd!(string: deserialize_str deserialize_string deserialize_identifier);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { Err(TErr("the format is not self-describing".into())) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_f32<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_f64<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_bytes<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_option<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_unit<V: Visitor<'de>>(self, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, TErr> { v.visit_newtype_struct(self) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, _: V) -> Result<V::Value, TErr> { no() }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, TErr> { v.visit_enum(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TErr> {
        match self.next()? {
            Tok::Seq(n) => {
                let n = n.unwrap_or(usize::MAX);
                let lie = self.hint(if n == usize::MAX { 0 } else { n });
                let r = v.visit_seq(Acc { de: self, left: n, lie })?;
                match self.next()? {
                    Tok::End => Ok(r),
                    t => Err(TErr(format!("end of sequence expected, found {t:?}"))),
                }
            }
            t => Err(TErr(format!("sequence expected, found {t:?}"))),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, TErr> { self.deserialize_seq(v) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TErr> {
        match self.next()? {
            Tok::Map(n) => {
                let n = n.unwrap_or(usize::MAX);
                let lie = self.hint(if n == usize::MAX { 0 } else { n });
                let r = v.visit_map(Acc { de: self, left: n, lie })?;
                match self.next()? {
                    Tok::End => Ok(r),
                    t => Err(TErr(format!("end of map expected, found {t:?}"))),
                }
            }
            t => Err(TErr(format!("map expected, found {t:?}"))),
        }
    }
    fn is_human_readable(&self) -> bool { false }
}
