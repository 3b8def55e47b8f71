fn main() { let p: *const u8; { let s = "x".repeat(300); p = s.as_ptr(); } println!("{}", unsafe { std::hint::black_box(p).read() }); }
