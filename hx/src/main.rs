fn main() { hx::main_() }
