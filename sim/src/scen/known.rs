//! Bounded reproductions of the findings recorded in known_findings.txt: each says whether the code
//! still behaves as recorded. They run in a process of their own.
use crate::alloc;
#[allow(unused_imports)]
use dlhn::{Body, Deserializer, Header, SerializeHeader, Serializer};
use serde::de::{SeqAccess, Visitor};
use serde::{Deserialize, Serialize};

type Known = (&'static str, &'static str, &'static str, fn() -> bool);

pub fn all() -> Vec<Known> {
    vec![
        ("K1", "C09", "a damaged element count of a sequence of elements that take no bytes is believed: 5 bytes make the reader produce over a million elements", k1_typed as fn() -> bool),
        ("K1b", "C12", "a damaged element count of an array of elements that take no bytes is believed: 4 bytes make the body reader allocate over 64 MiB", k1_dynamic),
        ("K2", "C09", "a long run of 0x01 read as a recursive type (struct with Option<Box<Self>>) overflows the stack", k2),
        ("K3", "C13", "an enum with a #[serde(skip)] variant that is not the last: values of later variants carry an index the derived description does not have", k3),
        ("K4", "C01", "a struct with #[serde(alias)] on a field is written but cannot be read back (duplicate field)", k4),
    ]
}

struct Count(u64);
impl<'de> Deserialize<'de> for Count {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Count;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Count, A::Error> {
                let mut n = 0;
                while n < 1_000_001 {
                    match a.next_element::<()>()? {
                        Some(()) => n += 1,
                        None => break,
                    }
                }
                Ok(Count(n))
            }
        }
        d.deserialize_seq(V)
    }
}

fn k1_typed() -> bool {
    // count 2^32 as the format writes it
    let mut b = vec![];
    crate::refcodec::put_varint(&mut b, 1 << 32, 64);
    let mut r = b.as_slice();
    let c = Count::deserialize(&mut Deserializer::new(&mut r));
    matches!(c, Ok(Count(n)) if n > 1_000_000)
}

fn k1_dynamic() -> bool {
    let mut b = vec![];
    crate::refcodec::put_varint(&mut b, 3_000_000, 64);
    let mut r = b.as_slice();
    let before = alloc::reset_peak();
    let h = Header::Array(Box::new(Header::Unit));
    let x = Body::deserialize(&h, &mut Deserializer::new(&mut r));
    let _ = x.is_ok();
    alloc::peak() - before > 64 << 20
}

#[derive(Serialize, Deserialize)]
struct Chain {
    v: (),
    next: Option<Box<Chain>>,
}

fn k2() -> bool {
    // a stack overflow ends this process: that is the finding
    let b = vec![1u8; 3_000_000];
    let mut r = b.as_slice();
    let x = Chain::deserialize(&mut Deserializer::new(&mut r));
    std::mem::forget(x);
    false
}

#[cfg(feature = "derived")]
#[derive(Serialize, SerializeHeader)]
enum Gap {
    #[allow(dead_code)]
    A,
    #[allow(dead_code)]
    #[serde(skip)]
    B,
    C(u8),
}

#[cfg(not(feature = "derived"))]
fn k3() -> bool {
    true
}

#[cfg(feature = "derived")]
fn k3() -> bool {
    let mut b = vec![];
    Gap::serialize_header(&mut b).expect("description");
    Gap::C(7).serialize(&mut Serializer::new(&mut b)).expect("value");
    use dlhn::DeserializeHeader;
    let mut r = b.as_slice();
    let h = r.deserialize_header().expect("description");
    let ok = match Body::deserialize(&h, &mut Deserializer::new(&mut r)) {
        Ok(x) => x.validate(&h) && r.is_empty(),
        Err(_) => false,
    };
    !ok
}

#[derive(Serialize, Deserialize, PartialEq)]
struct Alias {
    #[serde(alias = "other")]
    a: u8,
    b: u8,
}

fn k4() -> bool {
    let mut b = vec![];
    Alias { a: 1, b: 2 }.serialize(&mut Serializer::new(&mut b)).expect("value");
    let mut r = b.as_slice();
    Alias::deserialize(&mut Deserializer::new(&mut r)).map(|x| x != Alias { a: 1, b: 2 }).unwrap_or(true)
}
