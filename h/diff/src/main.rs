mod model;
mod spaces;

fn main() {
    vmc::main(&[
        ("C10", "model_checking", spaces::c10),
        ("C11", "model_checking", spaces::c11),
    ]);
}
