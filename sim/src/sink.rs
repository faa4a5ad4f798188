//! Sinks that record what they are handed, and may fail at any element.

use crate::heap;
use crate::kinds::Kind;
use crate::reg::{alarm, alarmed, cb, cb_err, p, Cb, Class};
use crate::rng::mix2;
use crate::world::{calm, run, Flt, Ran, Unw};
use serde::ser::*;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display, Write};
use unsized_vec::UnsizedVec;

#[derive(Debug)]
pub struct SinkErr(bool);

impl Display for SinkErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("sink error")
    }
}
impl std::error::Error for SinkErr {}
impl Error for SinkErr {
    fn custom<T: Display>(_: T) -> Self {
        SinkErr(false)
    }
}

#[derive(Default)]
struct Rec {
    unwind: bool,
    digest: Cell<u64>,
    failed: Cell<bool>,
    announced: RefCell<Vec<Option<usize>>>,
    elems: RefCell<Vec<u64>>,
    ended: Cell<bool>,
}

impl Rec {
    fn eat(&self, x: u64) {
        self.digest.set(mix2(self.digest.get(), x));
    }
    fn eat_bytes(&self, b: &[u8]) {
        self.eat(b.len() as u64);
        b.iter().for_each(|&x| self.eat(x as u64));
    }
    /// The sink's chance to fail.
    fn event(&self, what: &str) -> Result<(), SinkErr> {
        if self.failed.get() {
            alarm(Class::Rule, p(13), || {
                format!("{what} was handed over after the sink failed")
            });
            return Err(SinkErr(true));
        }
        if self.unwind {
            struct Fail<'a>(&'a Rec);
            impl Drop for Fail<'_> {
                fn drop(&mut self) {
                    self.0.failed.set(true);
                }
            }
            let f = Fail(self);
            cb(Cb::Sink);
            std::mem::forget(f);
        } else if cb_err(Cb::Sink) {
            self.failed.set(true);
            return Err(SinkErr(true));
        }
        Ok(())
    }
}

/// Depth 0 is the vector itself; below, everything only goes into a digest.
#[derive(Clone, Copy)]
struct Ser<'a> {
    rec: &'a Rec,
    depth: u32,
}

impl<'a> Ser<'a> {
    fn leaf(self, x: u64) -> Result<(), SinkErr> {
        if self.depth == 0 {
            alarm(Class::Rule, p(13), || {
                "the vector was not serialised as a sequence".into()
            });
        }
        self.rec.eat(x);
        Ok(())
    }
    fn compound(self, tag: u64) -> Result<Ser<'a>, SinkErr> {
        self.leaf(tag)?;
        Ok(Ser {
            rec: self.rec,
            depth: self.depth + 1,
        })
    }
}

macro_rules! ints {
    ($($f:ident $t:ty),*) => {$(
        fn $f(self, v: $t) -> Result<(), SinkErr> {
            self.leaf(v as u64)
        }
    )*};
}

impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = SinkErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    ints!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_u128(self, v: u128) -> Result<(), SinkErr> {
        self.leaf(mix2(v as u64, (v >> 64) as u64))
    }
    fn serialize_f32(self, v: f32) -> Result<(), SinkErr> {
        self.leaf(v.to_bits() as u64)
    }
    fn serialize_f64(self, v: f64) -> Result<(), SinkErr> {
        self.leaf(v.to_bits())
    }
    fn serialize_str(self, v: &str) -> Result<(), SinkErr> {
        self.rec.eat_bytes(v.as_bytes());
        self.leaf(1)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), SinkErr> {
        self.rec.eat_bytes(v);
        self.leaf(2)
    }
    fn serialize_none(self) -> Result<(), SinkErr> {
        self.leaf(3)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), SinkErr> {
        v.serialize(self.compound(4)?)
    }
    fn serialize_unit(self) -> Result<(), SinkErr> {
        self.leaf(5)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), SinkErr> {
        self.leaf(6)
    }
    fn serialize_unit_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
    ) -> Result<(), SinkErr> {
        self.leaf(7 + i as u64 * 100)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        v: &T,
    ) -> Result<(), SinkErr> {
        v.serialize(self.compound(8)?)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        v: &T,
    ) -> Result<(), SinkErr> {
        v.serialize(self.compound(9 + i as u64 * 100)?)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, SinkErr> {
        if self.depth == 0 {
            self.rec.event("a sequence")?;
            heap::off(|| self.rec.announced.borrow_mut().push(len));
            return Ok(self);
        }
        self.compound(10 + len.map_or(0, |n| n as u64 + 1) * 100)
    }
    fn serialize_tuple(self, len: usize) -> Result<Self, SinkErr> {
        self.compound(11 + len as u64 * 100)
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Self, SinkErr> {
        self.compound(12 + len as u64 * 100)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self, SinkErr> {
        self.compound(13 + i as u64 * 100)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, SinkErr> {
        self.compound(14)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, SinkErr> {
        self.compound(15)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self, SinkErr> {
        self.compound(16 + i as u64 * 100)
    }
    fn collect_str<T: ?Sized + Display>(self, v: &T) -> Result<(), SinkErr> {
        heap::off(|| self.rec.eat_bytes(format!("{v}").as_bytes()));
        self.leaf(17)
    }
}

impl SerializeSeq for Ser<'_> {
    type Ok = ();
    type Error = SinkErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SinkErr> {
        if self.depth > 0 {
            return v.serialize(*self);
        }
        self.rec.event("an element")?;
        if self.rec.ended.get() {
            alarm(Class::Rule, p(13), || {
                "an element was handed over after the end".into()
            });
        }
        if alarmed() {
            return Ok(());
        }
        heap::off(|| {
            let d = digest(v);
            self.rec.elems.borrow_mut().push(d);
        });
        Ok(())
    }
    fn end(self) -> Result<(), SinkErr> {
        if self.depth == 0 {
            self.rec.event("the end")?;
            if self.rec.ended.replace(true) {
                alarm(Class::Rule, p(13), || "the sequence was ended twice".into());
            }
        }
        Ok(())
    }
}

fn digest<T: ?Sized + Serialize>(v: &T) -> u64 {
    let r = Rec::default();
    let _ = v.serialize(Ser { rec: &r, depth: 1 });
    r.digest.get()
}

macro_rules! compounds {
    ($($t:ident $f:ident),*) => {$(
        impl $t for Ser<'_> {
            type Ok = ();
            type Error = SinkErr;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SinkErr> {
                v.serialize(*self)
            }
            fn end(self) -> Result<(), SinkErr> {
                Ok(())
            }
        }
    )*};
}
compounds!(SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! structs {
    ($($t:ident),*) => {$(
        impl $t for Ser<'_> {
            type Ok = ();
            type Error = SinkErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), SinkErr> {
                v.serialize(*self)
            }
            fn end(self) -> Result<(), SinkErr> {
                Ok(())
            }
        }
    )*};
}
structs!(SerializeStruct, SerializeStructVariant);

impl SerializeMap for Ser<'_> {
    type Ok = ();
    type Error = SinkErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SinkErr> {
        v.serialize(*self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SinkErr> {
        v.serialize(*self)
    }
    fn end(self) -> Result<(), SinkErr> {
        Ok(())
    }
}

pub fn serialize<K: Kind>(v: &UnsizedVec<K::T>, f: &Flt, unwind: bool) -> (&'static str, Ran) {
    let want: Vec<u64> = calm(|| (0..v.len()).map(|i| digest(&v[i])).collect()).unwrap_or_default();
    let rec = Rec {
        unwind,
        ..Rec::default()
    };
    let (r, ran) = run(f, usize::MAX, 0, || {
        v.serialize(Ser {
            rec: &rec,
            depth: 0,
        })
    });
    let bad = |m: String| {
        alarm(Class::Rule, p(13), || {
            format!("serialising {} elements: {m}", want.len())
        })
    };
    let ann = rec.announced.borrow();
    let elems = rec.elems.borrow();
    // Unless it failed before that.
    if (ann.len() != 1 || ann[0] != Some(want.len())) && !(ann.is_empty() && rec.failed.get()) {
        bad(format!("announced {ann:?}"));
    }
    if elems.len() > want.len() || elems[..] != want[..elems.len()] {
        let at = elems.iter().zip(&want).position(|(a, b)| a != b);
        bad(format!(
            "handed over {} elements, the first wrong one at {at:?}",
            elems.len()
        ));
    }
    match r {
        Ok(Ok(())) => {
            if ran.fired.is_some() {
                bad("the sink's error was swallowed".into());
            } else if elems.len() != want.len() || !rec.ended.get() {
                bad(format!("only {} elements were handed over", elems.len()));
            }
            ("ok", ran)
        }
        Ok(Err(e)) => {
            if !e.0 || ran.fired.is_none() {
                bad("returned an error that the sink did not report".into());
            }
            ("error", ran)
        }
        Err(Unw::Inj) => ("unwound (callback)", ran),
        Err(e) => {
            alarm(Class::Panic, p(13), || format!("serialising: {e:?}"));
            ("panicked", ran)
        }
    }
}

// ---- formatting ----

struct Out<'a> {
    text: &'a RefCell<String>,
    failed: &'a Cell<bool>,
    unwind: bool,
}

impl Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed.get() {
            alarm(Class::Rule, p(13), || {
                "something was written after the sink failed".into()
            });
            return Err(fmt::Error);
        }
        self.failed.set(true);
        if self.unwind {
            cb(Cb::Sink);
        } else if cb_err(Cb::Sink) {
            return Err(fmt::Error);
        }
        self.failed.set(false);
        heap::off(|| self.text.borrow_mut().push_str(s));
        Ok(())
    }
}

pub fn debug<K: Kind>(
    v: &UnsizedVec<K::T>,
    f: &Flt,
    unwind: bool,
    style: u32,
) -> (&'static str, Ran) {
    let want = calm(|| {
        let refs: Vec<&K::T> = (0..v.len()).map(|i| &v[i]).collect();
        match style {
            0 => format!("{refs:?}"),
            1 => format!("{refs:#?}"),
            2 => format!("{refs:9.3?}"),
            _ => format!("{refs:+#x?}"),
        }
    })
    .unwrap_or_default();
    let text = heap::off(|| RefCell::new(String::new()));
    let failed = Cell::new(false);
    let mut out = Out {
        text: &text,
        failed: &failed,
        unwind,
    };
    let (r, ran) = run(f, usize::MAX, 0, || match style {
        0 => write!(out, "{v:?}"),
        1 => write!(out, "{v:#?}"),
        2 => write!(out, "{v:9.3?}"),
        _ => write!(out, "{v:+#x?}"),
    });
    let bad = |m: String| alarm(Class::Rule, p(13), || format!("formatting: {m}"));
    let text = text.into_inner();
    match r {
        Ok(Ok(())) => {
            if ran.fired.is_some() {
                bad("the sink's error was swallowed".into());
            } else if text != want {
                bad(format!("wrote {text} instead of {want}"));
            }
            ("ok", ran)
        }
        Ok(Err(_)) => {
            if ran.fired.is_none() {
                bad("returned an error that the sink did not report".into());
            } else if !want.starts_with(&text) {
                bad(format!("wrote {text} of {want}"));
            }
            ("error", ran)
        }
        Err(Unw::Inj) => {
            if !want.starts_with(&text) {
                bad(format!("wrote {text} of {want}"));
            }
            ("unwound (callback)", ran)
        }
        Err(e) => {
            alarm(Class::Panic, p(13), || format!("formatting: {e:?}"));
            ("panicked", ran)
        }
    }
}
