mod ext;
mod judge;
mod model;
mod spaces;

fn main() {
    vmc::main(&[
        ("C01", "model_checking", spaces::c01),
        ("C02", "model_checking", spaces::c02),
        ("C03", "model_checking", spaces::c03),
        ("C04", "model_checking", spaces::c04),
        ("C05", "model_checking", spaces::c05),
        ("C06", "model_checking", spaces::c06),
        ("C07", "model_checking", spaces::c07),
        ("C08", "model_checking", spaces::c08),
        ("C09", "model_checking", ext::c09),
    ]);
}
