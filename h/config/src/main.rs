mod c24;
mod c30;
mod c31;
mod c32;
mod model;

/// Variables the documents under test may name. They never change while the checks run.
pub fn environment() -> Vec<(String, String)> {
    let mut vars: Vec<(String, String)> = [
        ("VMC_A", "alpha"),
        ("VMC_EMPTY", ""),
        ("VMC_BRACES", "{{ env.VMC_A }}"),
        ("VMC_SPACES", " a  b "),
        ("VMC_ACCENT", "é"),
        ("VMC_REL", "rel/dir"),
        ("VMC_ABS", "/abs/dir"),
        ("VMC_UP", ".."),
    ]
    .into_iter()
    .map(|(k, v)| (k.to_string(), v.to_string()))
    .collect();
    vars.extend(c31::strings().into_iter().enumerate().map(|(i, v)| (format!("VMC_S{i}"), v.to_string())));
    vars
}

fn main() {
    for (name, value) in environment().into_iter().chain(c24::values()) {
        // SAFETY: nothing else runs yet.
        unsafe { std::env::set_var(name, value) };
    }
    vmc::main(&[
        ("C24", "model_checking", c24::run),
        ("C30", "model_checking", c30::run),
        ("C31", "model_checking", c31::run),
        ("C32", "model_checking", c32::run),
    ])
}
