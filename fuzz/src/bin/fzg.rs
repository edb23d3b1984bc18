#![no_main]
#[global_allocator]
static A: apv::alloc::Guard = apv::alloc::Guard;
libfuzzer_sys::fuzz_target!(|data: &[u8]| apv_fuzz::one(data));
