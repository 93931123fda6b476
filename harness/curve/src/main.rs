mod c09;
mod c10;
mod c11;
mod common;

fn main() {
    vpbt::run_main(vec![c09::property(), c10::property(), c11::property()]);
}
