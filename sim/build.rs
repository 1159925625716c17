fn main() {
	println!("cargo:rerun-if-changed=build.rs");
	println!("cargo:rerun-if-changed=statics.ld");
	println!("cargo:rustc-link-arg-bins=-Wl,-T,{}/statics.ld", std::env::var("CARGO_MANIFEST_DIR").unwrap());
}
