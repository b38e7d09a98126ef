use grafbase_sdk::vmc_hooks::{call, host, types as w};
use std::{cell::{Cell, RefCell}, rc::Rc};

pub type Queue = Rc<RefCell<host::event_queue::Queue>>;
pub fn queue() -> (Queue, host::event_queue::EventQueue) {
    let q = Queue::default();
    (q.clone(), host::event_queue::EventQueue(q))
}
pub type Returned = Rc<Cell<bool>>;
macro_rules! ctx {
    ($f:ident $t:ident) => {
        pub fn $f(hooks: &[u8], token: w::Token, authorization: &[(Option<&str>, &[u8])]) -> (Returned, host::context::$t) {
            let returned = Returned::default();
            let c = host::context::$t {
                hooks: hooks.to_vec(),
                token,
                authorization: authorization.iter().map(|(k, v)| (k.map(Into::into), v.to_vec())).collect(),
                returned: returned.clone(),
            };
            (returned, c)
        }
    };
}
ctx!(request_ctx RequestContext);
ctx!(authenticated_ctx AuthenticatedRequestContext);
ctx!(operation_ctx AuthorizedOperationContext);

pub fn token(b: Option<&[u8]>) -> w::Token {
    match b {
        None => w::Token::Anonymous,
        Some(b) => w::Token::Bytes(b.to_vec()),
    }
}
pub fn init(schemas: Vec<(String, w::schema::Schema)>, config: &[u8], skip_events: bool, log: &str) -> Result<(), String> {
    call::init(schemas, config.to_vec(), skip_events, log.to_string())
}
pub type E = (String, Vec<(String, Vec<u8>)>);
pub fn err(e: &w::Error) -> E {
    (e.message.clone(), e.extensions.clone())
}
