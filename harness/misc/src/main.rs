mod c15;
mod c16;
mod c17;

fn main() {
    c16::install_logger();
    vpbt::run_main(vec![c15::property(), c16::property(), c17::property()]);
}
