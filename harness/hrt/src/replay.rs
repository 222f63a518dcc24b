use hrt::table::*;
fn main() {
    symrt::native_main(&[
        CORE,
        #[cfg(feature = "alloc")]
        ALLOC,
        #[cfg(feature = "std")]
        STD,
        hrt::neg::NEG,
    ]);
}
