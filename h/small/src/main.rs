mod c20;
mod c21;
mod c22;
mod c23;

fn main() {
    vmc::main(&[
        ("C20", "model_checking", c20::run),
        ("C21", "model_checking", c21::run),
        ("C22", "exploration", c22::run),
        ("C23", "exploration", c23::run),
    ])
}
