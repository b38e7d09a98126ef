//! The resolver extension of C53 and C55: every call is what the case at hand says.
use grafbase_sdk::{types::*, IntoSubscription, ResolverExtension, Subscription};
use std::cell::RefCell;

pub struct Ext {
    /// Lent to subscriptions.
    pub own: String,
}
pub type Prepare = Box<dyn FnOnce(ResolvedField<'_>) -> Result<Vec<u8>, Error>>;
pub type Resolve = Box<dyn FnOnce(&AuthorizedOperationContext, &[u8], SubgraphHeaders, Variables) -> Result<Response, Error>>;
pub type Key = Option<Vec<u8>>;
pub type Callback<'s> = Box<dyn FnOnce() -> Result<Box<dyn Subscription + 's>, Error> + 's>;
pub struct Boxed<'s>(pub Box<dyn Subscription + 's>);
impl Subscription for Boxed<'_> {
    fn next(&mut self) -> Result<Option<SubscriptionItem>, Error> {
        self.0.next()
    }
}
pub type Subscribe = Box<dyn for<'s> FnOnce(&'s mut Ext, &'s AuthorizedOperationContext, &'s [u8], SubgraphHeaders, Variables) -> Result<(Key, Callback<'s>), Error>>;
thread_local! {
    pub static PREPARE: RefCell<Option<Prepare>> = Default::default();
    pub static RESOLVE: RefCell<Option<Resolve>> = Default::default();
    pub static SUBSCRIBE: RefCell<Option<Subscribe>> = Default::default();
    pub static NEW: RefCell<Vec<String>> = Default::default();
}
struct Both<'s>(Key, Callback<'s>);
impl<'s> IntoSubscription<'s> for Both<'s> {
    fn into_deduplication_key_and_subscription_callback(self) -> (Key, Callback<'s>) {
        let cb = self.1;
        (self.0, move || cb().map(Boxed)).into_deduplication_key_and_subscription_callback()
    }
}
impl ResolverExtension for Ext {
    fn new(schemas: Vec<SubgraphSchema>, config: Configuration) -> Result<Self, Error> {
        let config = config.deserialize::<serde_json::Value>()?;
        NEW.set(schemas.iter().map(|s| format!("{} {}", s.subgraph_name(), crate::c53::show_schema(s))).chain([config.to_string()]).collect());
        Ok(Ext { own: "own".into() })
    }
    fn prepare(&mut self, field: ResolvedField<'_>) -> Result<Vec<u8>, Error> {
        match PREPARE.take() {
            Some(f) => f(field),
            None => Ok(field.into()),
        }
    }
    fn resolve(&mut self, ctx: &AuthorizedOperationContext, prepared: &[u8], headers: SubgraphHeaders, variables: Variables) -> Result<Response, Error> {
        RESOLVE.take().unwrap()(ctx, prepared, headers, variables)
    }
    fn resolve_subscription<'s>(&'s mut self, ctx: &'s AuthorizedOperationContext, prepared: &'s [u8], headers: SubgraphHeaders, variables: Variables) -> Result<impl IntoSubscription<'s>, Error> {
        let (key, cb) = SUBSCRIBE.take().unwrap()(self, ctx, prepared, headers, variables)?;
        Ok(Both(key, cb))
    }
}
