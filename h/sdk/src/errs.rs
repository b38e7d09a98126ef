//! Errors an extension answers with, and what the gateway should get of them.
use crate::{cbor::{enc, V}, common::*};
use grafbase_sdk::{host_io::http::HttpError, types::*, vmc_hooks::types as w};

pub type Response = (u16, Vec<E>, Option<Vec<(String, Vec<u8>)>>);
pub fn shown(e: w::ErrorResponse) -> Response {
    (e.status_code, e.errors.iter().map(err).collect(), e.headers.map(|h| h.entries()))
}
pub const RESPONSES: usize = 9;
fn plain(m: &str) -> E {
    (m.into(), vec![])
}
pub fn response(k: usize) -> (ErrorResponse, Response) {
    let h = |l: &[(&str, &[u8])]| Some(l.iter().map(|(k, v)| (k.to_string(), v.to_vec())).collect::<Vec<_>>());
    match k {
        0 => (ErrorResponse::from("plain é"), (500, vec![plain("plain é")], None)),
        1 => (
            ErrorResponse::unauthorized().with_error("one").with_error(error(2).0).with_header("WWW-authenticate", b"Bearer").unwrap(),
            (401, vec![plain("one"), error(2).1], h(&[("www-authenticate", b"Bearer")])),
        ),
        2 => (error(1).0.into(), (500, vec![error(1).1], None)),
        3 => (ErrorResponse::new(http::StatusCode::IM_A_TEAPOT), (418, vec![], None)),
        4 => {
            let mut e = ErrorResponse::forbidden().with_header("a", b"1").unwrap();
            e.push_header("A", b"").unwrap();
            assert!(e.push_header("b c", b"2").is_err() && e.push_header("b", b"\n").is_err());
            e.push_error(error(0).0);
            e.push_error(String::from("two"));
            // The same message, with extensions, and the same error once more.
            e.push_error(error(2).0);
            e.push_error("two");
            (e, (403, vec![error(0).1, plain("two"), error(2).1, plain("two")], h(&[("a", b"1"), ("a", b"")])))
        }
        5 => (ErrorResponse::bad_request(), (400, vec![], None)),
        6 => (ErrorResponse::internal_server_error().with_error(""), (500, vec![plain("")], None)),
        7 => (ErrorResponse::from(std::borrow::Cow::Borrowed("cow")), (500, vec![plain("cow")], None)),
        _ => (ErrorResponse::from(grafbase_sdk::SdkError::from("sdk")), (500, vec![plain("sdk")], None)),
    }
}
pub const ERRORS: usize = 7;
pub fn error(k: usize) -> (Error, E) {
    match k {
        0 => (Error::new("é\n"), plain("é\n")),
        1 => (Error::new("").extension("code", "X").unwrap(), (String::new(), vec![("code".into(), enc(&V::s("X")))])),
        2 => (
            Error::new("two").extension("a", 1u8).unwrap().extension("", Option::<u8>::None).unwrap().extension("a", vec![true]).unwrap(),
            ("two".into(), vec![("a".into(), enc(&V::Int(1))), ("".into(), enc(&V::Null)), ("a".into(), enc(&V::Arr(vec![V::Bool(true)])))]),
        ),
        3 => (Error::from(String::from("owned")), plain("owned")),
        4 => (Error::from(HttpError::Timeout), plain("The request timed out")),
        5 => (Error::from(HttpError::Connect("refused".into())), plain("The request failed due to an error: refused")),
        _ => (Error::from(grafbase_sdk::SdkError::from("sdk".to_string())), plain("sdk")),
    }
}
