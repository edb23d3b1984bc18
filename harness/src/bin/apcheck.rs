#[global_allocator]
static A: apv::alloc::Counting = apv::alloc::Counting;
fn main() {
    apv::cli::main()
}
