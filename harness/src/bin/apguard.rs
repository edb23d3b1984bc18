#[global_allocator]
static A: apv::alloc::Guard = apv::alloc::Guard;
fn main() {
    apv::cli::main()
}
