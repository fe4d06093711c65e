//! Whether a member is written depends on the value (`skip_serializing_if`), so no description fits every
//! value. The derive refuses such types; should it accept one, this compares the description it gives
//! with the data, as C13 does for all other types. Each feature is one type.
use dlhn::{Body, DeserializeHeader, Deserializer, SerializeHeader, Serializer};
use serde::Serialize;

fn none(v: &Option<u8>) -> bool {
    v.is_none()
}

#[cfg(feature = "member-alone")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    #[serde(skip_serializing_if = "none")]
    b: Option<u8>,
    c: String,
}
#[cfg(feature = "member-alone")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "member-after")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    #[serde(default, skip_serializing_if = "none")]
    b: Option<u8>,
    c: String,
}
#[cfg(feature = "member-after")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "member-before")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    #[serde(skip_serializing_if = "none", default)]
    b: Option<u8>,
    c: String,
}
#[cfg(feature = "member-before")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "member-second")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    /// kept unless empty
    #[serde(default)]
    #[serde(skip_serializing_if = "none")]
    b: Option<u8>,
    c: String,
}
#[cfg(feature = "member-second")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "member-split")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    #[serde(skip_serializing_if = "none")]
    #[serde(default)]
    #[allow(dead_code)]
    b: Option<u8>,
    c: String,
}
#[cfg(feature = "member-split")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "tuple-member")]
#[derive(Serialize, SerializeHeader)]
struct T(u16, #[serde(skip_serializing_if = "none")] Option<u8>, String);
#[cfg(feature = "tuple-member")]
fn t(b: Option<u8>) -> T {
    T(300, b, "x".into())
}

#[cfg(feature = "last-member-alone")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    c: String,
    #[serde(skip_serializing_if = "none")]
    b: Option<u8>,
}
#[cfg(feature = "last-member-alone")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "last-member-after")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    c: String,
    #[serde(default, skip_serializing_if = "none")]
    b: Option<u8>,
}
#[cfg(feature = "last-member-after")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "last-member-second")]
#[derive(Serialize, SerializeHeader)]
struct T {
    a: u16,
    c: String,
    /// kept unless empty
    #[serde(default)]
    #[serde(skip_serializing_if = "none")]
    b: Option<u8>,
}
#[cfg(feature = "last-member-second")]
fn t(b: Option<u8>) -> T {
    T { a: 300, b, c: "x".into() }
}

#[cfg(feature = "case-member-alone")]
#[derive(Serialize, SerializeHeader)]
enum T {
    #[allow(dead_code)]
    A,
    B {
        a: u16,
        #[serde(skip_serializing_if = "none")]
        b: Option<u8>,
        c: String,
    },
}
#[cfg(feature = "case-member-alone")]
fn t(b: Option<u8>) -> T {
    T::B { a: 300, b, c: "x".into() }
}

#[cfg(feature = "case-member-after")]
#[derive(Serialize, SerializeHeader)]
enum T {
    #[allow(dead_code)]
    A,
    B {
        a: u16,
        #[serde(default, skip_serializing_if = "none")]
        b: Option<u8>,
        c: String,
    },
}
#[cfg(feature = "case-member-after")]
fn t(b: Option<u8>) -> T {
    T::B { a: 300, b, c: "x".into() }
}

#[cfg(feature = "case-member-second")]
#[derive(Serialize, SerializeHeader)]
enum T {
    #[allow(dead_code)]
    A,
    B {
        a: u16,
        /// kept unless empty
        #[serde(default)]
        #[serde(skip_serializing_if = "none")]
        b: Option<u8>,
        c: String,
    },
}
#[cfg(feature = "case-member-second")]
fn t(b: Option<u8>) -> T {
    T::B { a: 300, b, c: "x".into() }
}

#[cfg(feature = "case-tuple-member-alone")]
#[derive(Serialize, SerializeHeader)]
enum T {
    #[allow(dead_code)]
    A,
    B(
        u16,
        #[serde(skip_serializing_if = "none")]
        Option<u8>,
        String,
    ),
}
#[cfg(feature = "case-tuple-member-alone")]
fn t(b: Option<u8>) -> T {
    T::B(300, b, "x".into())
}

#[cfg(feature = "case-tuple-member-after")]
#[derive(Serialize, SerializeHeader)]
enum T {
    #[allow(dead_code)]
    A,
    B(
        u16,
        #[serde(default, skip_serializing_if = "none")]
        Option<u8>,
        String,
    ),
}
#[cfg(feature = "case-tuple-member-after")]
fn t(b: Option<u8>) -> T {
    T::B(300, b, "x".into())
}

#[cfg(feature = "case-tuple-member-second")]
#[derive(Serialize, SerializeHeader)]
enum T {
    #[allow(dead_code)]
    A,
    B(
        u16,
        /// kept unless empty
        #[serde(default)]
        #[serde(skip_serializing_if = "none")]
        Option<u8>,
        String,
    ),
}
#[cfg(feature = "case-tuple-member-second")]
fn t(b: Option<u8>) -> T {
    T::B(300, b, "x".into())
}

fn main() {
    let mut d = Vec::new();
    T::serialize_header(&mut d).unwrap();
    let h = (&mut &d[..]).deserialize_header().expect("description");
    let mut bad = false;
    for v in [None, Some(7)] {
        let mut data = Vec::new();
        let r = t(v).serialize(&mut Serializer::new(&mut data));
        if r.is_err() {
            // refused
            continue;
        }
        let mut rest = &data[..];
        let body = Body::deserialize(&h, &mut Deserializer::new(&mut rest));
        if body.is_err() || !rest.is_empty() {
            println!("member {v:?}: data {data:02x?} is not of description {h:?}: {body:?}, {} bytes left", rest.len());
            bad = true;
        }
    }
    std::process::exit(bad as i32);
}
