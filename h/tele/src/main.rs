mod c26;
mod c33;
mod c43;
mod c44;
mod c45;
mod collector;
mod otlp;

unsafe extern "C" {
    fn dup2(from: i32, to: i32) -> i32;
}

fn main() {
    // What the exporters say about being shut down twice is of no interest.
    if std::env::var_os("VMC_CHILD").is_some() && std::env::var_os("VMC_LOUD").is_none() {
        use std::os::fd::AsRawFd;
        let null = std::fs::File::options().write(true).open("/dev/null").unwrap();
        unsafe { dup2(null.as_raw_fd(), 2) };
    }
    vmc::main(&[
        ("C26", "model_checking", c26::run),
        ("C33", "model_checking", c33::run),
        ("C43", "model_checking", c43::run),
        ("C44", "model_checking", c44::run),
        ("C45", "model_checking", c45::run),
    ])
}
