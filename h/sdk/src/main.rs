mod c46;
mod c47;
mod c48;
mod c50;
mod c51;
mod c52;
mod c53;
mod c54;
mod c55;
mod c56;
mod c57;
mod c58;
mod c59;
mod errs;
mod cbor;
mod common;
mod res;

#[global_allocator]
static ALLOC: c52::Counting = c52::Counting;

macro_rules! main {
    ($($id:literal $m:ident),*) => { fn main() {
        if let Ok(filter) = std::env::var(c58::ENV) {
            return c58::child(&filter);
        }
        if let Ok(which) = std::env::var(c46::ENV) {
            return c46::child(&which);
        }
        vmc::main(&[$(($id, "model_checking", $m::run)),*])
    } };
}
main!("C46" c46, "C47" c47, "C48" c48, "C50" c50, "C51" c51, "C52" c52, "C53" c53, "C54" c54, "C55" c55, "C56" c56, "C57" c57, "C58" c58, "C59" c59);
