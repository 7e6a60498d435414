/// A bridge whose header customises how C++ exceptions become Rust errors.
#[cxx::bridge(namespace = "tc")]
pub mod tc {
    unsafe extern "C++" {
        include!("rt/cpp/calls_tc.h");
        fn custom_throw(kind: u32, msg: &[u8]) -> Result<u64>;
    }
}
