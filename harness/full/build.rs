fn main() {
    // the WebRTC C++ library is not here; nothing that runs calls into it
    println!("cargo:rerun-if-changed=link-args.txt");
    for n in std::fs::read_to_string("link-args.txt").unwrap().split_whitespace() {
        println!("cargo:rustc-link-arg=-Wl,--defsym={n}=0");
    }
}
