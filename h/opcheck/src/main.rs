mod oracle;
mod spaces;

fn main() {
    vmc::main(&[("C14", "model_checking", spaces::c14)]);
}
