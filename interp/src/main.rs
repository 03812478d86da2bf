fn main() {
    interp::run();
}
