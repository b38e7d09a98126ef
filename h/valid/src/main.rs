mod c12;
mod c13;
mod doc;
mod oracle;

fn main() {
    vmc::main(&[("C12", "exploration", c12::run), ("C13", "exploration", c13::run)]);
}
