mod os;
mod roll;

fn main() {
    vmc::main(&[("C40", "model_checking", roll::c40), ("C41", "model_checking", roll::c41)]);
}
