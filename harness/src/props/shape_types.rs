// written by gen/gen_shapes.py
fn types() -> Vec<(&'static str, Arg)> {
    vec![
        ("u8", <u8 as Say>::desc as Arg),
        ("u16", <u16 as Say>::desc as Arg),
        ("u32", <u32 as Say>::desc as Arg),
        ("u64", <u64 as Say>::desc as Arg),
        ("u128", <u128 as Say>::desc as Arg),
        ("usize", <usize as Say>::desc as Arg),
        ("i8", <i8 as Say>::desc as Arg),
        ("i16", <i16 as Say>::desc as Arg),
        ("i32", <i32 as Say>::desc as Arg),
        ("i64", <i64 as Say>::desc as Arg),
        ("i128", <i128 as Say>::desc as Arg),
        ("isize", <isize as Say>::desc as Arg),
        ("bool", <bool as Say>::desc as Arg),
        ("char", <char as Say>::desc as Arg),
        ("()", <() as Say>::desc as Arg),
        ("String", <String as Say>::desc as Arg),
        ("&'static str", <&'static str as Say>::desc as Arg),
        ("Cow<'static, str>", <Cow<'static, str> as Say>::desc as Arg),
        ("PathBuf", <PathBuf as Say>::desc as Arg),
        ("&'static Path", <&'static Path as Say>::desc as Arg),
        ("SocketAddr", <SocketAddr as Say>::desc as Arg),
        ("IpAddr", <IpAddr as Say>::desc as Arg),
        ("Ipv4Addr", <Ipv4Addr as Say>::desc as Arg),
        ("Ipv6Addr", <Ipv6Addr as Say>::desc as Arg),
        ("ConstTypeId", <ConstTypeId as Say>::desc as Arg),
        ("Leaf", <Leaf as Say>::desc as Arg),
        ("Pick", <Pick as Say>::desc as Arg),
        ("PhantomData<u32>", <PhantomData<u32> as Say>::desc as Arg),
        ("camino::Utf8PathBuf", <camino::Utf8PathBuf as Say>::desc as Arg),
        ("NonZero<u8>", <NonZero<u8> as Say>::desc as Arg),
        ("NonZero<u16>", <NonZero<u16> as Say>::desc as Arg),
        ("NonZero<u32>", <NonZero<u32> as Say>::desc as Arg),
        ("NonZero<u64>", <NonZero<u64> as Say>::desc as Arg),
        ("NonZero<u128>", <NonZero<u128> as Say>::desc as Arg),
        ("NonZero<usize>", <NonZero<usize> as Say>::desc as Arg),
        ("NonZero<i8>", <NonZero<i8> as Say>::desc as Arg),
        ("NonZero<i16>", <NonZero<i16> as Say>::desc as Arg),
        ("NonZero<i32>", <NonZero<i32> as Say>::desc as Arg),
        ("NonZero<i64>", <NonZero<i64> as Say>::desc as Arg),
        ("NonZero<i128>", <NonZero<i128> as Say>::desc as Arg),
        ("NonZero<isize>", <NonZero<isize> as Say>::desc as Arg),
        ("f32", <f32 as Say>::desc as Arg),
        ("f64", <f64 as Say>::desc as Arg),
        ("Link", <Link as Say>::desc as Arg),
        ("PhantomData<[u8]>", <PhantomData<[u8]> as Say>::desc as Arg),
        ("PhantomData<dyn Send>", <PhantomData<dyn Send> as Say>::desc as Arg),
        ("RandomState", <RandomState as Say>::desc as Arg),
        ("Vec<u8>", <Vec<u8> as Say>::desc as Arg),
        ("Option<u8>", <Option<u8> as Say>::desc as Arg),
        ("&'static [u8]", <&'static [u8] as Say>::desc as Arg),
        ("Arc<u8>", <Arc<u8> as Say>::desc as Arg),
        ("Weak<u8>", <Weak<u8> as Say>::desc as Arg),
        ("NonNull<u8>", <NonNull<u8> as Say>::desc as Arg),
        ("[u8; 3]", <[u8; 3] as Say>::desc as Arg),
        ("Vec<u32>", <Vec<u32> as Say>::desc as Arg),
        ("Option<u32>", <Option<u32> as Say>::desc as Arg),
        ("&'static [u32]", <&'static [u32] as Say>::desc as Arg),
        ("Arc<u32>", <Arc<u32> as Say>::desc as Arg),
        ("Weak<u32>", <Weak<u32> as Say>::desc as Arg),
        ("NonNull<u32>", <NonNull<u32> as Say>::desc as Arg),
        ("[u32; 3]", <[u32; 3] as Say>::desc as Arg),
        ("Vec<u64>", <Vec<u64> as Say>::desc as Arg),
        ("Option<u64>", <Option<u64> as Say>::desc as Arg),
        ("&'static [u64]", <&'static [u64] as Say>::desc as Arg),
        ("Arc<u64>", <Arc<u64> as Say>::desc as Arg),
        ("Weak<u64>", <Weak<u64> as Say>::desc as Arg),
        ("NonNull<u64>", <NonNull<u64> as Say>::desc as Arg),
        ("[u64; 3]", <[u64; 3] as Say>::desc as Arg),
        ("Vec<i8>", <Vec<i8> as Say>::desc as Arg),
        ("Option<i8>", <Option<i8> as Say>::desc as Arg),
        ("&'static [i8]", <&'static [i8] as Say>::desc as Arg),
        ("Arc<i8>", <Arc<i8> as Say>::desc as Arg),
        ("Weak<i8>", <Weak<i8> as Say>::desc as Arg),
        ("NonNull<i8>", <NonNull<i8> as Say>::desc as Arg),
        ("[i8; 3]", <[i8; 3] as Say>::desc as Arg),
        ("Vec<i64>", <Vec<i64> as Say>::desc as Arg),
        ("Option<i64>", <Option<i64> as Say>::desc as Arg),
        ("&'static [i64]", <&'static [i64] as Say>::desc as Arg),
        ("Arc<i64>", <Arc<i64> as Say>::desc as Arg),
        ("Weak<i64>", <Weak<i64> as Say>::desc as Arg),
        ("NonNull<i64>", <NonNull<i64> as Say>::desc as Arg),
        ("[i64; 3]", <[i64; 3] as Say>::desc as Arg),
        ("Vec<bool>", <Vec<bool> as Say>::desc as Arg),
        ("Option<bool>", <Option<bool> as Say>::desc as Arg),
        ("&'static [bool]", <&'static [bool] as Say>::desc as Arg),
        ("Arc<bool>", <Arc<bool> as Say>::desc as Arg),
        ("Weak<bool>", <Weak<bool> as Say>::desc as Arg),
        ("NonNull<bool>", <NonNull<bool> as Say>::desc as Arg),
        ("[bool; 3]", <[bool; 3] as Say>::desc as Arg),
        ("Vec<()>", <Vec<()> as Say>::desc as Arg),
        ("Option<()>", <Option<()> as Say>::desc as Arg),
        ("&'static [()]", <&'static [()] as Say>::desc as Arg),
        ("Arc<()>", <Arc<()> as Say>::desc as Arg),
        ("Weak<()>", <Weak<()> as Say>::desc as Arg),
        ("NonNull<()>", <NonNull<()> as Say>::desc as Arg),
        ("[(); 3]", <[(); 3] as Say>::desc as Arg),
        ("Vec<String>", <Vec<String> as Say>::desc as Arg),
        ("Option<String>", <Option<String> as Say>::desc as Arg),
        ("&'static [String]", <&'static [String] as Say>::desc as Arg),
        ("Arc<String>", <Arc<String> as Say>::desc as Arg),
        ("Weak<String>", <Weak<String> as Say>::desc as Arg),
        ("NonNull<String>", <NonNull<String> as Say>::desc as Arg),
        ("[String; 3]", <[String; 3] as Say>::desc as Arg),
        ("Vec<PathBuf>", <Vec<PathBuf> as Say>::desc as Arg),
        ("Option<PathBuf>", <Option<PathBuf> as Say>::desc as Arg),
        ("&'static [PathBuf]", <&'static [PathBuf] as Say>::desc as Arg),
        ("Arc<PathBuf>", <Arc<PathBuf> as Say>::desc as Arg),
        ("Weak<PathBuf>", <Weak<PathBuf> as Say>::desc as Arg),
        ("NonNull<PathBuf>", <NonNull<PathBuf> as Say>::desc as Arg),
        ("[PathBuf; 3]", <[PathBuf; 3] as Say>::desc as Arg),
        ("Vec<IpAddr>", <Vec<IpAddr> as Say>::desc as Arg),
        ("Option<IpAddr>", <Option<IpAddr> as Say>::desc as Arg),
        ("&'static [IpAddr]", <&'static [IpAddr] as Say>::desc as Arg),
        ("Arc<IpAddr>", <Arc<IpAddr> as Say>::desc as Arg),
        ("Weak<IpAddr>", <Weak<IpAddr> as Say>::desc as Arg),
        ("NonNull<IpAddr>", <NonNull<IpAddr> as Say>::desc as Arg),
        ("[IpAddr; 3]", <[IpAddr; 3] as Say>::desc as Arg),
        ("Vec<ConstTypeId>", <Vec<ConstTypeId> as Say>::desc as Arg),
        ("Option<ConstTypeId>", <Option<ConstTypeId> as Say>::desc as Arg),
        ("&'static [ConstTypeId]", <&'static [ConstTypeId] as Say>::desc as Arg),
        ("Arc<ConstTypeId>", <Arc<ConstTypeId> as Say>::desc as Arg),
        ("Weak<ConstTypeId>", <Weak<ConstTypeId> as Say>::desc as Arg),
        ("NonNull<ConstTypeId>", <NonNull<ConstTypeId> as Say>::desc as Arg),
        ("[ConstTypeId; 3]", <[ConstTypeId; 3] as Say>::desc as Arg),
        ("Vec<Leaf>", <Vec<Leaf> as Say>::desc as Arg),
        ("Option<Leaf>", <Option<Leaf> as Say>::desc as Arg),
        ("&'static [Leaf]", <&'static [Leaf] as Say>::desc as Arg),
        ("Arc<Leaf>", <Arc<Leaf> as Say>::desc as Arg),
        ("Weak<Leaf>", <Weak<Leaf> as Say>::desc as Arg),
        ("NonNull<Leaf>", <NonNull<Leaf> as Say>::desc as Arg),
        ("[Leaf; 3]", <[Leaf; 3] as Say>::desc as Arg),
        ("Vec<Pick>", <Vec<Pick> as Say>::desc as Arg),
        ("Option<Pick>", <Option<Pick> as Say>::desc as Arg),
        ("&'static [Pick]", <&'static [Pick] as Say>::desc as Arg),
        ("Arc<Pick>", <Arc<Pick> as Say>::desc as Arg),
        ("Weak<Pick>", <Weak<Pick> as Say>::desc as Arg),
        ("NonNull<Pick>", <NonNull<Pick> as Say>::desc as Arg),
        ("[Pick; 3]", <[Pick; 3] as Say>::desc as Arg),
        ("Vec<PhantomData<u32>>", <Vec<PhantomData<u32>> as Say>::desc as Arg),
        ("Option<PhantomData<u32>>", <Option<PhantomData<u32>> as Say>::desc as Arg),
        ("&'static [PhantomData<u32>]", <&'static [PhantomData<u32>] as Say>::desc as Arg),
        ("Arc<PhantomData<u32>>", <Arc<PhantomData<u32>> as Say>::desc as Arg),
        ("Weak<PhantomData<u32>>", <Weak<PhantomData<u32>> as Say>::desc as Arg),
        ("NonNull<PhantomData<u32>>", <NonNull<PhantomData<u32>> as Say>::desc as Arg),
        ("[PhantomData<u32>; 3]", <[PhantomData<u32>; 3] as Say>::desc as Arg),
        ("Vec<NonZero<u16>>", <Vec<NonZero<u16>> as Say>::desc as Arg),
        ("Option<NonZero<u16>>", <Option<NonZero<u16>> as Say>::desc as Arg),
        ("&'static [NonZero<u16>]", <&'static [NonZero<u16>] as Say>::desc as Arg),
        ("Arc<NonZero<u16>>", <Arc<NonZero<u16>> as Say>::desc as Arg),
        ("Weak<NonZero<u16>>", <Weak<NonZero<u16>> as Say>::desc as Arg),
        ("NonNull<NonZero<u16>>", <NonNull<NonZero<u16>> as Say>::desc as Arg),
        ("[NonZero<u16>; 3]", <[NonZero<u16>; 3] as Say>::desc as Arg),
        ("Vec<NonZero<u64>>", <Vec<NonZero<u64>> as Say>::desc as Arg),
        ("Option<NonZero<u64>>", <Option<NonZero<u64>> as Say>::desc as Arg),
        ("&'static [NonZero<u64>]", <&'static [NonZero<u64>] as Say>::desc as Arg),
        ("Arc<NonZero<u64>>", <Arc<NonZero<u64>> as Say>::desc as Arg),
        ("Weak<NonZero<u64>>", <Weak<NonZero<u64>> as Say>::desc as Arg),
        ("NonNull<NonZero<u64>>", <NonNull<NonZero<u64>> as Say>::desc as Arg),
        ("[NonZero<u64>; 3]", <[NonZero<u64>; 3] as Say>::desc as Arg),
        ("Vec<NonZero<u128>>", <Vec<NonZero<u128>> as Say>::desc as Arg),
        ("Option<NonZero<u128>>", <Option<NonZero<u128>> as Say>::desc as Arg),
        ("&'static [NonZero<u128>]", <&'static [NonZero<u128>] as Say>::desc as Arg),
        ("Arc<NonZero<u128>>", <Arc<NonZero<u128>> as Say>::desc as Arg),
        ("Weak<NonZero<u128>>", <Weak<NonZero<u128>> as Say>::desc as Arg),
        ("NonNull<NonZero<u128>>", <NonNull<NonZero<u128>> as Say>::desc as Arg),
        ("[NonZero<u128>; 3]", <[NonZero<u128>; 3] as Say>::desc as Arg),
        ("Vec<NonZero<i16>>", <Vec<NonZero<i16>> as Say>::desc as Arg),
        ("Option<NonZero<i16>>", <Option<NonZero<i16>> as Say>::desc as Arg),
        ("&'static [NonZero<i16>]", <&'static [NonZero<i16>] as Say>::desc as Arg),
        ("Arc<NonZero<i16>>", <Arc<NonZero<i16>> as Say>::desc as Arg),
        ("Weak<NonZero<i16>>", <Weak<NonZero<i16>> as Say>::desc as Arg),
        ("NonNull<NonZero<i16>>", <NonNull<NonZero<i16>> as Say>::desc as Arg),
        ("[NonZero<i16>; 3]", <[NonZero<i16>; 3] as Say>::desc as Arg),
        ("Vec<NonZero<i128>>", <Vec<NonZero<i128>> as Say>::desc as Arg),
        ("Option<NonZero<i128>>", <Option<NonZero<i128>> as Say>::desc as Arg),
        ("&'static [NonZero<i128>]", <&'static [NonZero<i128>] as Say>::desc as Arg),
        ("Arc<NonZero<i128>>", <Arc<NonZero<i128>> as Say>::desc as Arg),
        ("Weak<NonZero<i128>>", <Weak<NonZero<i128>> as Say>::desc as Arg),
        ("NonNull<NonZero<i128>>", <NonNull<NonZero<i128>> as Say>::desc as Arg),
        ("[NonZero<i128>; 3]", <[NonZero<i128>; 3] as Say>::desc as Arg),
        ("Vec<f64>", <Vec<f64> as Say>::desc as Arg),
        ("Option<f64>", <Option<f64> as Say>::desc as Arg),
        ("&'static [f64]", <&'static [f64] as Say>::desc as Arg),
        ("Arc<f64>", <Arc<f64> as Say>::desc as Arg),
        ("Weak<f64>", <Weak<f64> as Say>::desc as Arg),
        ("NonNull<f64>", <NonNull<f64> as Say>::desc as Arg),
        ("[f64; 3]", <[f64; 3] as Say>::desc as Arg),
        ("Vec<Link>", <Vec<Link> as Say>::desc as Arg),
        ("Option<Link>", <Option<Link> as Say>::desc as Arg),
        ("&'static [Link]", <&'static [Link] as Say>::desc as Arg),
        ("Arc<Link>", <Arc<Link> as Say>::desc as Arg),
        ("Weak<Link>", <Weak<Link> as Say>::desc as Arg),
        ("NonNull<Link>", <NonNull<Link> as Say>::desc as Arg),
        ("[Link; 3]", <[Link; 3] as Say>::desc as Arg),
        ("Vec<PhantomData<dyn Send>>", <Vec<PhantomData<dyn Send>> as Say>::desc as Arg),
        ("Option<PhantomData<dyn Send>>", <Option<PhantomData<dyn Send>> as Say>::desc as Arg),
        ("&'static [PhantomData<dyn Send>]", <&'static [PhantomData<dyn Send>] as Say>::desc as Arg),
        ("Arc<PhantomData<dyn Send>>", <Arc<PhantomData<dyn Send>> as Say>::desc as Arg),
        ("Weak<PhantomData<dyn Send>>", <Weak<PhantomData<dyn Send>> as Say>::desc as Arg),
        ("NonNull<PhantomData<dyn Send>>", <NonNull<PhantomData<dyn Send>> as Say>::desc as Arg),
        ("[PhantomData<dyn Send>; 3]", <[PhantomData<dyn Send>; 3] as Say>::desc as Arg),
        ("(PathBuf,)", <(PathBuf,) as Say>::desc as Arg),
        ("(usize,)", <(usize,) as Say>::desc as Arg),
        ("(u16,)", <(u16,) as Say>::desc as Arg),
        ("(NonZero<i32>,)", <(NonZero<i32>,) as Say>::desc as Arg),
        ("(&'static Path,)", <(&'static Path,) as Say>::desc as Arg),
        ("(PhantomData<u32>, ConstTypeId)", <(PhantomData<u32>, ConstTypeId) as Say>::desc as Arg),
        ("(NonZero<u128>, Ipv4Addr)", <(NonZero<u128>, Ipv4Addr) as Say>::desc as Arg),
        ("(i32, RandomState)", <(i32, RandomState) as Say>::desc as Arg),
        ("(bool, Cow<'static, str>)", <(bool, Cow<'static, str>) as Say>::desc as Arg),
        ("(camino::Utf8PathBuf, u8)", <(camino::Utf8PathBuf, u8) as Say>::desc as Arg),
        ("((), NonZero<i128>, NonZero<u8>)", <((), NonZero<i128>, NonZero<u8>) as Say>::desc as Arg),
        ("(u16, i8, usize)", <(u16, i8, usize) as Say>::desc as Arg),
        ("(PhantomData<dyn Send>, NonZero<u32>, Pick)", <(PhantomData<dyn Send>, NonZero<u32>, Pick) as Say>::desc as Arg),
        ("(u16, NonZero<u64>, NonZero<isize>)", <(u16, NonZero<u64>, NonZero<isize>) as Say>::desc as Arg),
        ("(RandomState, PhantomData<u32>, Ipv4Addr)", <(RandomState, PhantomData<u32>, Ipv4Addr) as Say>::desc as Arg),
        ("(u64, char, u32, NonZero<i32>)", <(u64, char, u32, NonZero<i32>) as Say>::desc as Arg),
        ("(Ipv6Addr, f64, isize, NonZero<i128>)", <(Ipv6Addr, f64, isize, NonZero<i128>) as Say>::desc as Arg),
        ("(char, Ipv6Addr, NonZero<i16>, Ipv6Addr)", <(char, Ipv6Addr, NonZero<i16>, Ipv6Addr) as Say>::desc as Arg),
        ("(NonZero<i16>, PathBuf, f64, SocketAddr)", <(NonZero<i16>, PathBuf, f64, SocketAddr) as Say>::desc as Arg),
        ("(NonZero<i16>, usize, NonZero<u16>, isize)", <(NonZero<i16>, usize, NonZero<u16>, isize) as Say>::desc as Arg),
        ("(PhantomData<dyn Send>, NonZero<u16>, NonZero<i32>, camino::Utf8PathBuf, Link)", <(PhantomData<dyn Send>, NonZero<u16>, NonZero<i32>, camino::Utf8PathBuf, Link) as Say>::desc as Arg),
        ("(f32, i128, isize, isize, NonZero<usize>)", <(f32, i128, isize, isize, NonZero<usize>) as Say>::desc as Arg),
        ("(SocketAddr, Link, NonZero<u128>, bool, NonZero<i32>)", <(SocketAddr, Link, NonZero<u128>, bool, NonZero<i32>) as Say>::desc as Arg),
        ("(i16, usize, i8, PhantomData<u32>, u32)", <(i16, usize, i8, PhantomData<u32>, u32) as Say>::desc as Arg),
        ("(NonZero<i16>, Cow<'static, str>, NonZero<i16>, Cow<'static, str>, NonZero<i32>)", <(NonZero<i16>, Cow<'static, str>, NonZero<i16>, Cow<'static, str>, NonZero<i32>) as Say>::desc as Arg),
        ("(IpAddr, i8, Ipv6Addr, PathBuf, NonZero<usize>, &'static Path)", <(IpAddr, i8, Ipv6Addr, PathBuf, NonZero<usize>, &'static Path) as Say>::desc as Arg),
        ("(NonZero<u8>, NonZero<i8>, char, &'static str, i64, i8)", <(NonZero<u8>, NonZero<i8>, char, &'static str, i64, i8) as Say>::desc as Arg),
        ("(NonZero<i128>, i16, PhantomData<dyn Send>, NonZero<u32>, String, IpAddr)", <(NonZero<i128>, i16, PhantomData<dyn Send>, NonZero<u32>, String, IpAddr) as Say>::desc as Arg),
        ("(NonZero<usize>, i64, NonZero<i32>, i8, ConstTypeId, i128)", <(NonZero<usize>, i64, NonZero<i32>, i8, ConstTypeId, i128) as Say>::desc as Arg),
        ("(camino::Utf8PathBuf, u32, u64, NonZero<isize>, Pick, Leaf)", <(camino::Utf8PathBuf, u32, u64, NonZero<isize>, Pick, Leaf) as Say>::desc as Arg),
        ("(u16, i128, (), Link, u8, (), u64)", <(u16, i128, (), Link, u8, (), u64) as Say>::desc as Arg),
        ("(NonZero<usize>, camino::Utf8PathBuf, usize, Ipv4Addr, u16, ConstTypeId, NonZero<u32>)", <(NonZero<usize>, camino::Utf8PathBuf, usize, Ipv4Addr, u16, ConstTypeId, NonZero<u32>) as Say>::desc as Arg),
        ("(bool, u32, u128, &'static str, NonZero<u8>, NonZero<i8>, bool)", <(bool, u32, u128, &'static str, NonZero<u8>, NonZero<i8>, bool) as Say>::desc as Arg),
        ("(NonZero<u8>, PathBuf, char, usize, i8, NonZero<i8>, NonZero<u128>)", <(NonZero<u8>, PathBuf, char, usize, i8, NonZero<i8>, NonZero<u128>) as Say>::desc as Arg),
        ("(f32, i128, PhantomData<[u8]>, NonZero<usize>, NonZero<i8>, String, &'static str)", <(f32, i128, PhantomData<[u8]>, NonZero<usize>, NonZero<i8>, String, &'static str) as Say>::desc as Arg),
        ("(i8, Pick, i128, u8, camino::Utf8PathBuf, IpAddr, f64, Pick)", <(i8, Pick, i128, u8, camino::Utf8PathBuf, IpAddr, f64, Pick) as Say>::desc as Arg),
        ("(i128, NonZero<i128>, PhantomData<[u8]>, Pick, u128, PhantomData<[u8]>, NonZero<isize>, String)", <(i128, NonZero<i128>, PhantomData<[u8]>, Pick, u128, PhantomData<[u8]>, NonZero<isize>, String) as Say>::desc as Arg),
        ("(NonZero<usize>, PathBuf, PhantomData<u32>, Pick, &'static Path, NonZero<i8>, NonZero<i128>, NonZero<i8>)", <(NonZero<usize>, PathBuf, PhantomData<u32>, Pick, &'static Path, NonZero<i8>, NonZero<i128>, NonZero<i8>) as Say>::desc as Arg),
        ("(u64, PathBuf, i8, u16, NonZero<isize>, i32, IpAddr, NonZero<i8>)", <(u64, PathBuf, i8, u16, NonZero<isize>, i32, IpAddr, NonZero<i8>) as Say>::desc as Arg),
        ("(RandomState, PhantomData<u32>, String, i128, f64, usize, IpAddr, NonZero<i8>)", <(RandomState, PhantomData<u32>, String, i128, f64, usize, IpAddr, NonZero<i8>) as Say>::desc as Arg),
        ("(PhantomData<[u8]>, NonZero<usize>, i16, String, NonZero<i8>, NonZero<u16>, camino::Utf8PathBuf, PhantomData<dyn Send>, Cow<'static, str>)", <(PhantomData<[u8]>, NonZero<usize>, i16, String, NonZero<i8>, NonZero<u16>, camino::Utf8PathBuf, PhantomData<dyn Send>, Cow<'static, str>) as Say>::desc as Arg),
        ("(u8, IpAddr, ConstTypeId, u16, i64, Leaf, char, Link, u16)", <(u8, IpAddr, ConstTypeId, u16, i64, Leaf, char, Link, u16) as Say>::desc as Arg),
        ("(isize, f32, camino::Utf8PathBuf, PhantomData<u32>, usize, Pick, PhantomData<[u8]>, Cow<'static, str>, NonZero<u16>)", <(isize, f32, camino::Utf8PathBuf, PhantomData<u32>, usize, Pick, PhantomData<[u8]>, Cow<'static, str>, NonZero<u16>) as Say>::desc as Arg),
        ("(NonZero<i64>, PhantomData<[u8]>, NonZero<usize>, RandomState, NonZero<i8>, isize, NonZero<u128>, NonZero<usize>, &'static Path)", <(NonZero<i64>, PhantomData<[u8]>, NonZero<usize>, RandomState, NonZero<i8>, isize, NonZero<u128>, NonZero<usize>, &'static Path) as Say>::desc as Arg),
        ("(&'static str, usize, (), u64, NonZero<u32>, ConstTypeId, u16, Link, NonZero<u8>)", <(&'static str, usize, (), u64, NonZero<u32>, ConstTypeId, u16, Link, NonZero<u8>) as Say>::desc as Arg),
        ("(NonZero<i64>, Pick, PathBuf, Link, SocketAddr, Pick, Ipv4Addr, &'static Path, Cow<'static, str>, IpAddr)", <(NonZero<i64>, Pick, PathBuf, Link, SocketAddr, Pick, Ipv4Addr, &'static Path, Cow<'static, str>, IpAddr) as Say>::desc as Arg),
        ("(i128, ConstTypeId, u32, Pick, f64, NonZero<u16>, NonZero<i8>, &'static str, NonZero<usize>, Cow<'static, str>)", <(i128, ConstTypeId, u32, Pick, f64, NonZero<u16>, NonZero<i8>, &'static str, NonZero<usize>, Cow<'static, str>) as Say>::desc as Arg),
        ("(PhantomData<[u8]>, usize, ConstTypeId, char, &'static str, i64, NonZero<u64>, Ipv6Addr, i16, NonZero<i128>)", <(PhantomData<[u8]>, usize, ConstTypeId, char, &'static str, i64, NonZero<u64>, Ipv6Addr, i16, NonZero<i128>) as Say>::desc as Arg),
        ("(NonZero<u8>, i16, Cow<'static, str>, NonZero<i16>, camino::Utf8PathBuf, u8, u32, &'static str, i16, String)", <(NonZero<u8>, i16, Cow<'static, str>, NonZero<i16>, camino::Utf8PathBuf, u8, u32, &'static str, i16, String) as Say>::desc as Arg),
        ("(NonZero<i16>, NonZero<isize>, NonZero<u16>, u32, Pick, usize, Cow<'static, str>, bool, Ipv6Addr, NonZero<i16>)", <(NonZero<i16>, NonZero<isize>, NonZero<u16>, u32, Pick, usize, Cow<'static, str>, bool, Ipv6Addr, NonZero<i16>) as Say>::desc as Arg),
        ("(i64, NonZero<i128>, usize, isize, NonZero<u64>, Leaf, NonZero<i128>, Link, Ipv6Addr, PathBuf, usize)", <(i64, NonZero<i128>, usize, isize, NonZero<u64>, Leaf, NonZero<i128>, Link, Ipv6Addr, PathBuf, usize) as Say>::desc as Arg),
        ("(NonZero<i128>, PhantomData<[u8]>, f32, NonZero<i64>, i128, u32, i16, isize, u16, i32, NonZero<i128>)", <(NonZero<i128>, PhantomData<[u8]>, f32, NonZero<i64>, i128, u32, i16, isize, u16, i32, NonZero<i128>) as Say>::desc as Arg),
        ("(Link, i32, RandomState, PathBuf, NonZero<u16>, PhantomData<dyn Send>, PathBuf, NonZero<i16>, u64, u32, NonZero<i64>)", <(Link, i32, RandomState, PathBuf, NonZero<u16>, PhantomData<dyn Send>, PathBuf, NonZero<i16>, u64, u32, NonZero<i64>) as Say>::desc as Arg),
        ("(NonZero<i32>, i8, SocketAddr, u16, i32, Ipv4Addr, usize, i128, char, char, PhantomData<u32>)", <(NonZero<i32>, i8, SocketAddr, u16, i32, Ipv4Addr, usize, i128, char, char, PhantomData<u32>) as Say>::desc as Arg),
        ("(SocketAddr, NonZero<i128>, (), NonZero<usize>, NonZero<i32>, PhantomData<u32>, f64, Ipv6Addr, NonZero<usize>, f32, ())", <(SocketAddr, NonZero<i128>, (), NonZero<usize>, NonZero<i32>, PhantomData<u32>, f64, Ipv6Addr, NonZero<usize>, f32, ()) as Say>::desc as Arg),
        ("(NonZero<i8>, &'static Path, NonZero<u8>, f64, NonZero<isize>, i32, Ipv4Addr, ConstTypeId, &'static Path, u32, NonZero<u32>, Leaf)", <(NonZero<i8>, &'static Path, NonZero<u8>, f64, NonZero<isize>, i32, Ipv4Addr, ConstTypeId, &'static Path, u32, NonZero<u32>, Leaf) as Say>::desc as Arg),
        ("(Ipv4Addr, RandomState, char, f32, NonZero<usize>, i128, char, SocketAddr, Pick, PhantomData<u32>, u64, u32)", <(Ipv4Addr, RandomState, char, f32, NonZero<usize>, i128, char, SocketAddr, Pick, PhantomData<u32>, u64, u32) as Say>::desc as Arg),
        ("(SocketAddr, PhantomData<u32>, NonZero<u16>, i128, NonZero<i32>, Pick, Ipv6Addr, String, SocketAddr, u32, f64, PathBuf)", <(SocketAddr, PhantomData<u32>, NonZero<u16>, i128, NonZero<i32>, Pick, Ipv6Addr, String, SocketAddr, u32, f64, PathBuf) as Say>::desc as Arg),
        ("(camino::Utf8PathBuf, isize, Leaf, Ipv6Addr, NonZero<i16>, NonZero<u32>, u16, NonZero<usize>, NonZero<i128>, NonZero<isize>, PhantomData<u32>, NonZero<i64>)", <(camino::Utf8PathBuf, isize, Leaf, Ipv6Addr, NonZero<i16>, NonZero<u32>, u16, NonZero<usize>, NonZero<i128>, NonZero<isize>, PhantomData<u32>, NonZero<i64>) as Say>::desc as Arg),
        ("(isize, camino::Utf8PathBuf, bool, f64, PhantomData<u32>, u128, NonZero<u8>, u8, Leaf, NonZero<isize>, ConstTypeId, &'static str)", <(isize, camino::Utf8PathBuf, bool, f64, PhantomData<u32>, u128, NonZero<u8>, u8, Leaf, NonZero<isize>, ConstTypeId, &'static str) as Say>::desc as Arg),
        ("[u16; 0]", <[u16; 0] as Say>::desc as Arg),
        ("[u16; 1]", <[u16; 1] as Say>::desc as Arg),
        ("[u16; 2]", <[u16; 2] as Say>::desc as Arg),
        ("[u16; 3]", <[u16; 3] as Say>::desc as Arg),
        ("[u16; 4]", <[u16; 4] as Say>::desc as Arg),
        ("[u16; 8]", <[u16; 8] as Say>::desc as Arg),
        ("[u16; 31]", <[u16; 31] as Say>::desc as Arg),
        ("[u16; 32]", <[u16; 32] as Say>::desc as Arg),
        ("[u16; 33]", <[u16; 33] as Say>::desc as Arg),
        ("[u16; 64]", <[u16; 64] as Say>::desc as Arg),
        ("[u16; 255]", <[u16; 255] as Say>::desc as Arg),
        ("[u16; 4096]", <[u16; 4096] as Say>::desc as Arg),
        ("BTreeMap<u8, u8>", <BTreeMap<u8, u8> as Say>::desc as Arg),
        ("HashMap<u8, u8>", <HashMap<u8, u8> as Say>::desc as Arg),
        ("BTreeMap<u8, u64>", <BTreeMap<u8, u64> as Say>::desc as Arg),
        ("HashMap<u8, u64>", <HashMap<u8, u64> as Say>::desc as Arg),
        ("BTreeMap<u8, String>", <BTreeMap<u8, String> as Say>::desc as Arg),
        ("HashMap<u8, String>", <HashMap<u8, String> as Say>::desc as Arg),
        ("BTreeMap<u8, Leaf>", <BTreeMap<u8, Leaf> as Say>::desc as Arg),
        ("HashMap<u8, Leaf>", <HashMap<u8, Leaf> as Say>::desc as Arg),
        ("BTreeMap<u8, f32>", <BTreeMap<u8, f32> as Say>::desc as Arg),
        ("HashMap<u8, f32>", <HashMap<u8, f32> as Say>::desc as Arg),
        ("HashMap<u8, u8, OwnHasher>", <HashMap<u8, u8, OwnHasher> as Say>::desc as Arg),
        ("BTreeMap<String, u8>", <BTreeMap<String, u8> as Say>::desc as Arg),
        ("HashMap<String, u8>", <HashMap<String, u8> as Say>::desc as Arg),
        ("BTreeMap<String, u64>", <BTreeMap<String, u64> as Say>::desc as Arg),
        ("HashMap<String, u64>", <HashMap<String, u64> as Say>::desc as Arg),
        ("BTreeMap<String, String>", <BTreeMap<String, String> as Say>::desc as Arg),
        ("HashMap<String, String>", <HashMap<String, String> as Say>::desc as Arg),
        ("BTreeMap<String, Leaf>", <BTreeMap<String, Leaf> as Say>::desc as Arg),
        ("HashMap<String, Leaf>", <HashMap<String, Leaf> as Say>::desc as Arg),
        ("BTreeMap<String, f32>", <BTreeMap<String, f32> as Say>::desc as Arg),
        ("HashMap<String, f32>", <HashMap<String, f32> as Say>::desc as Arg),
        ("HashMap<String, String, OwnHasher>", <HashMap<String, String, OwnHasher> as Say>::desc as Arg),
        ("BTreeMap<Leaf, u8>", <BTreeMap<Leaf, u8> as Say>::desc as Arg),
        ("HashMap<Leaf, u8>", <HashMap<Leaf, u8> as Say>::desc as Arg),
        ("BTreeMap<Leaf, u64>", <BTreeMap<Leaf, u64> as Say>::desc as Arg),
        ("HashMap<Leaf, u64>", <HashMap<Leaf, u64> as Say>::desc as Arg),
        ("BTreeMap<Leaf, String>", <BTreeMap<Leaf, String> as Say>::desc as Arg),
        ("HashMap<Leaf, String>", <HashMap<Leaf, String> as Say>::desc as Arg),
        ("BTreeMap<Leaf, Leaf>", <BTreeMap<Leaf, Leaf> as Say>::desc as Arg),
        ("HashMap<Leaf, Leaf>", <HashMap<Leaf, Leaf> as Say>::desc as Arg),
        ("BTreeMap<Leaf, f32>", <BTreeMap<Leaf, f32> as Say>::desc as Arg),
        ("HashMap<Leaf, f32>", <HashMap<Leaf, f32> as Say>::desc as Arg),
        ("HashMap<Leaf, Leaf, OwnHasher>", <HashMap<Leaf, Leaf, OwnHasher> as Say>::desc as Arg),
        ("BTreeMap<char, u8>", <BTreeMap<char, u8> as Say>::desc as Arg),
        ("HashMap<char, u8>", <HashMap<char, u8> as Say>::desc as Arg),
        ("BTreeMap<char, u64>", <BTreeMap<char, u64> as Say>::desc as Arg),
        ("HashMap<char, u64>", <HashMap<char, u64> as Say>::desc as Arg),
        ("BTreeMap<char, String>", <BTreeMap<char, String> as Say>::desc as Arg),
        ("HashMap<char, String>", <HashMap<char, String> as Say>::desc as Arg),
        ("BTreeMap<char, Leaf>", <BTreeMap<char, Leaf> as Say>::desc as Arg),
        ("HashMap<char, Leaf>", <HashMap<char, Leaf> as Say>::desc as Arg),
        ("BTreeMap<char, f32>", <BTreeMap<char, f32> as Say>::desc as Arg),
        ("HashMap<char, f32>", <HashMap<char, f32> as Say>::desc as Arg),
        ("HashMap<char, char, OwnHasher>", <HashMap<char, char, OwnHasher> as Say>::desc as Arg),
        ("Wrap<&'static [NonZero<i64>]>", <Wrap<&'static [NonZero<i64>]> as Say>::desc as Arg),
        ("(NonZero<usize>, u128, NonZero<u16>, f32, i16, NonZero<u128>, NonZero<usize>, Ipv4Addr, Cow<'static, str>, PhantomData<u32>)", <(NonZero<usize>, u128, NonZero<u16>, f32, i16, NonZero<u128>, NonZero<usize>, Ipv4Addr, Cow<'static, str>, PhantomData<u32>) as Say>::desc as Arg),
        ("(NonNull<()>, (u128, f64, PhantomData<[u8]>, Option<usize>, RandomState, Vec<Cow<'static, str>>, Wrap<bool>, f64, isize, NonZero<u32>), f64, &'static str, NonZero<i64>, HashMap<Pick, NonZero<isize>, OwnHasher>, i32, u8, HashMap<NonZero<i8>, u8, OwnHasher>)", <(NonNull<()>, (u128, f64, PhantomData<[u8]>, Option<usize>, RandomState, Vec<Cow<'static, str>>, Wrap<bool>, f64, isize, NonZero<u32>), f64, &'static str, NonZero<i64>, HashMap<Pick, NonZero<isize>, OwnHasher>, i32, u8, HashMap<NonZero<i8>, u8, OwnHasher>) as Say>::desc as Arg),
        ("BTreeMap<NonZero<i128>, i128>", <BTreeMap<NonZero<i128>, i128> as Say>::desc as Arg),
        ("(i64, i32, NonZero<i128>, Arc<NonZero<u128>>, u128)", <(i64, i32, NonZero<i128>, Arc<NonZero<u128>>, u128) as Say>::desc as Arg),
        ("HashMap<NonZero<i32>, i16, OwnHasher>", <HashMap<NonZero<i32>, i16, OwnHasher> as Say>::desc as Arg),
        ("NonNull<char>", <NonNull<char> as Say>::desc as Arg),
        ("[Both<i64, [char; 2]>; 1000]", <[Both<i64, [char; 2]>; 1000] as Say>::desc as Arg),
        ("(i64, NonZero<i8>)", <(i64, NonZero<i8>) as Say>::desc as Arg),
        ("Vec<camino::Utf8PathBuf>", <Vec<camino::Utf8PathBuf> as Say>::desc as Arg),
        ("Weak<char>", <Weak<char> as Say>::desc as Arg),
        ("(Weak<PhantomData<u32>>, [ConstTypeId; 0], NonZero<i16>, Vec<IpAddr>, Option<Wrap<Pick>>, HashMap<NonZero<usize>, Link>, HashMap<IpAddr, u8, OwnHasher>, HashMap<NonZero<u32>, Ipv4Addr>, ((Cow<'static, str>, i16, NonZero<i128>, Ipv6Addr, String, NonZero<isize>, &'static str, char, NonZero<usize>, NonZero<u32>, RandomState),), NonNull<NonZero<i32>>, Vec<SocketAddr>, Option<u64>)", <(Weak<PhantomData<u32>>, [ConstTypeId; 0], NonZero<i16>, Vec<IpAddr>, Option<Wrap<Pick>>, HashMap<NonZero<usize>, Link>, HashMap<IpAddr, u8, OwnHasher>, HashMap<NonZero<u32>, Ipv4Addr>, ((Cow<'static, str>, i16, NonZero<i128>, Ipv6Addr, String, NonZero<isize>, &'static str, char, NonZero<usize>, NonZero<u32>, RandomState),), NonNull<NonZero<i32>>, Vec<SocketAddr>, Option<u64>) as Say>::desc as Arg),
        ("NonNull<Both<HashMap<NonZero<i16>, NonZero<i64>, OwnHasher>, Vec<RandomState>>>", <NonNull<Both<HashMap<NonZero<i16>, NonZero<i64>, OwnHasher>, Vec<RandomState>>> as Say>::desc as Arg),
        ("BTreeMap<Vec<u8>, BTreeMap<Arc<bool>, Cow<'static, str>>>", <BTreeMap<Vec<u8>, BTreeMap<Arc<bool>, Cow<'static, str>>> as Say>::desc as Arg),
        ("Option<HashMap<u8, &'static str, OwnHasher>>", <Option<HashMap<u8, &'static str, OwnHasher>> as Say>::desc as Arg),
        ("BTreeMap<NonZero<i128>, (i16, ConstTypeId, Pick, Cow<'static, str>, Cow<'static, str>, char, u8)>", <BTreeMap<NonZero<i128>, (i16, ConstTypeId, Pick, Cow<'static, str>, Cow<'static, str>, char, u8)> as Say>::desc as Arg),
        ("Weak<Option<Pick>>", <Weak<Option<Pick>> as Say>::desc as Arg),
        ("Vec<u128>", <Vec<u128> as Say>::desc as Arg),
        ("Vec<Vec<NonZero<u64>>>", <Vec<Vec<NonZero<u64>>> as Say>::desc as Arg),
        ("NonNull<Wrap<()>>", <NonNull<Wrap<()>> as Say>::desc as Arg),
        ("(u8,)", <(u8,) as Say>::desc as Arg),
        ("Arc<usize>", <Arc<usize> as Say>::desc as Arg),
        ("Option<Weak<NonZero<u32>>>", <Option<Weak<NonZero<u32>>> as Say>::desc as Arg),
        ("(u32, &'static [SocketAddr], BTreeMap<Vec<String>, HashMap<IpAddr, NonZero<u32>, OwnHasher>>, Arc<PhantomData<[u8]>>, Wrap<PathBuf>, Pick, f32, u64, SocketAddr, HashMap<Pick, NonZero<i32>, OwnHasher>, NonZero<u64>, ())", <(u32, &'static [SocketAddr], BTreeMap<Vec<String>, HashMap<IpAddr, NonZero<u32>, OwnHasher>>, Arc<PhantomData<[u8]>>, Wrap<PathBuf>, Pick, f32, u64, SocketAddr, HashMap<Pick, NonZero<i32>, OwnHasher>, NonZero<u64>, ()) as Say>::desc as Arg),
        ("Both<NonZero<usize>, camino::Utf8PathBuf>", <Both<NonZero<usize>, camino::Utf8PathBuf> as Say>::desc as Arg),
        ("Vec<Option<i8>>", <Vec<Option<i8>> as Say>::desc as Arg),
        ("Vec<HashMap<u64, i128>>", <Vec<HashMap<u64, i128>> as Say>::desc as Arg),
        ("&'static [NonZero<usize>]", <&'static [NonZero<usize>] as Say>::desc as Arg),
        ("Both<(u16, bool, ()), Ipv4Addr>", <Both<(u16, bool, ()), Ipv4Addr> as Say>::desc as Arg),
        ("Vec<Arc<NonZero<usize>>>", <Vec<Arc<NonZero<usize>>> as Say>::desc as Arg),
        ("Option<Wrap<IpAddr>>", <Option<Wrap<IpAddr>> as Say>::desc as Arg),
        ("Arc<Ipv4Addr>", <Arc<Ipv4Addr> as Say>::desc as Arg),
        ("BTreeMap<NonZero<i128>, bool>", <BTreeMap<NonZero<i128>, bool> as Say>::desc as Arg),
        ("HashMap<u64, usize, OwnHasher>", <HashMap<u64, usize, OwnHasher> as Say>::desc as Arg),
        ("HashMap<ConstTypeId, IpAddr>", <HashMap<ConstTypeId, IpAddr> as Say>::desc as Arg),
        ("HashMap<Option<i32>, NonZero<u8>, OwnHasher>", <HashMap<Option<i32>, NonZero<u8>, OwnHasher> as Say>::desc as Arg),
        ("Weak<NonNull<String>>", <Weak<NonNull<String>> as Say>::desc as Arg),
        ("Both<HashMap<bool, Link, OwnHasher>, (NonZero<i64>, &'static Path, Leaf, NonZero<u16>, NonZero<i32>, NonZero<i64>, u8, NonZero<i128>, u16, i32)>", <Both<HashMap<bool, Link, OwnHasher>, (NonZero<i64>, &'static Path, Leaf, NonZero<u16>, NonZero<i32>, NonZero<i64>, u8, NonZero<i128>, u16, i32)> as Say>::desc as Arg),
        ("NonNull<Wrap<ConstTypeId>>", <NonNull<Wrap<ConstTypeId>> as Say>::desc as Arg),
        ("NonNull<PhantomData<[u8]>>", <NonNull<PhantomData<[u8]>> as Say>::desc as Arg),
        ("Wrap<[i32; 1]>", <Wrap<[i32; 1]> as Say>::desc as Arg),
        ("[NonNull<ConstTypeId>; 32]", <[NonNull<ConstTypeId>; 32] as Say>::desc as Arg),
        ("Option<Vec<Cow<'static, str>>>", <Option<Vec<Cow<'static, str>>> as Say>::desc as Arg),
        ("HashMap<NonZero<isize>, Ipv6Addr, OwnHasher>", <HashMap<NonZero<isize>, Ipv6Addr, OwnHasher> as Say>::desc as Arg),
        ("HashMap<Cow<'static, str>, NonZero<u32>, OwnHasher>", <HashMap<Cow<'static, str>, NonZero<u32>, OwnHasher> as Say>::desc as Arg),
        ("BTreeMap<u8, f64>", <BTreeMap<u8, f64> as Say>::desc as Arg),
        ("BTreeMap<Vec<i64>, NonNull<PhantomData<dyn Send>>>", <BTreeMap<Vec<i64>, NonNull<PhantomData<dyn Send>>> as Say>::desc as Arg),
        ("Both<NonZero<i32>, bool>", <Both<NonZero<i32>, bool> as Say>::desc as Arg),
        ("HashMap<IpAddr, ()>", <HashMap<IpAddr, ()> as Say>::desc as Arg),
        ("HashMap<&'static Path, BTreeMap<Arc<u16>, HashMap<(NonZero<usize>, i32), Weak<u128>>>, OwnHasher>", <HashMap<&'static Path, BTreeMap<Arc<u16>, HashMap<(NonZero<usize>, i32), Weak<u128>>>, OwnHasher> as Say>::desc as Arg),
        ("HashMap<u64, [char; 3], OwnHasher>", <HashMap<u64, [char; 3], OwnHasher> as Say>::desc as Arg),
        ("&'static [Weak<&'static str>]", <&'static [Weak<&'static str>] as Say>::desc as Arg),
        ("Option<camino::Utf8PathBuf>", <Option<camino::Utf8PathBuf> as Say>::desc as Arg),
        ("Wrap<HashMap<Ipv4Addr, Link, OwnHasher>>", <Wrap<HashMap<Ipv4Addr, Link, OwnHasher>> as Say>::desc as Arg),
        ("[Option<NonZero<i128>>; 32]", <[Option<NonZero<i128>>; 32] as Say>::desc as Arg),
        ("Option<BTreeMap<NonZero<i16>, PhantomData<dyn Send>>>", <Option<BTreeMap<NonZero<i16>, PhantomData<dyn Send>>> as Say>::desc as Arg),
        ("Option<u16>", <Option<u16> as Say>::desc as Arg),
        ("Vec<NonNull<u16>>", <Vec<NonNull<u16>> as Say>::desc as Arg),
        ("Vec<Arc<Vec<()>>>", <Vec<Arc<Vec<()>>> as Say>::desc as Arg),
        ("Wrap<f64>", <Wrap<f64> as Say>::desc as Arg),
        ("[BTreeMap<u64, i8>; 2]", <[BTreeMap<u64, i8>; 2] as Say>::desc as Arg),
        ("Weak<Option<SocketAddr>>", <Weak<Option<SocketAddr>> as Say>::desc as Arg),
        ("(Leaf,)", <(Leaf,) as Say>::desc as Arg),
        ("Both<&'static [&'static [i32]], Weak<PhantomData<u32>>>", <Both<&'static [&'static [i32]], Weak<PhantomData<u32>>> as Say>::desc as Arg),
        ("Wrap<NonNull<[(); 5]>>", <Wrap<NonNull<[(); 5]>> as Say>::desc as Arg),
        ("(u32, &'static [u16], PathBuf, NonNull<Pick>, NonNull<Ipv4Addr>, Vec<i16>, NonNull<RandomState>, HashMap<camino::Utf8PathBuf, SocketAddr>)", <(u32, &'static [u16], PathBuf, NonNull<Pick>, NonNull<Ipv4Addr>, Vec<i16>, NonNull<RandomState>, HashMap<camino::Utf8PathBuf, SocketAddr>) as Say>::desc as Arg),
        ("Weak<PhantomData<[u8]>>", <Weak<PhantomData<[u8]>> as Say>::desc as Arg),
        ("&'static [NonNull<Leaf>]", <&'static [NonNull<Leaf>] as Say>::desc as Arg),
        ("Arc<HashMap<i32, u32>>", <Arc<HashMap<i32, u32>> as Say>::desc as Arg),
        ("Arc<camino::Utf8PathBuf>", <Arc<camino::Utf8PathBuf> as Say>::desc as Arg),
        ("Vec<Wrap<Link>>", <Vec<Wrap<Link>> as Say>::desc as Arg),
        ("&'static [i16]", <&'static [i16] as Say>::desc as Arg),
        ("BTreeMap<u8, NonZero<i64>>", <BTreeMap<u8, NonZero<i64>> as Say>::desc as Arg),
        ("HashMap<PathBuf, Wrap<Both<i32, f32>>, OwnHasher>", <HashMap<PathBuf, Wrap<Both<i32, f32>>, OwnHasher> as Say>::desc as Arg),
        ("(NonZero<u64>, NonNull<usize>, &'static [NonZero<i128>], &'static str)", <(NonZero<u64>, NonNull<usize>, &'static [NonZero<i128>], &'static str) as Say>::desc as Arg),
        ("Vec<Option<NonNull<ConstTypeId>>>", <Vec<Option<NonNull<ConstTypeId>>> as Say>::desc as Arg),
        ("HashMap<[IpAddr; 2], Arc<NonZero<u64>>, OwnHasher>", <HashMap<[IpAddr; 2], Arc<NonZero<u64>>, OwnHasher> as Say>::desc as Arg),
        ("(Ipv4Addr, PhantomData<u32>, char, i8, camino::Utf8PathBuf, NonZero<usize>, Option<RandomState>, SocketAddr, Option<i128>)", <(Ipv4Addr, PhantomData<u32>, char, i8, camino::Utf8PathBuf, NonZero<usize>, Option<RandomState>, SocketAddr, Option<i128>) as Say>::desc as Arg),
        ("NonNull<f32>", <NonNull<f32> as Say>::desc as Arg),
        ("Both<NonZero<isize>, HashMap<isize, Link>>", <Both<NonZero<isize>, HashMap<isize, Link>> as Say>::desc as Arg),
        ("BTreeMap<u64, f32>", <BTreeMap<u64, f32> as Say>::desc as Arg),
        ("&'static [[String; 32]]", <&'static [[String; 32]] as Say>::desc as Arg),
        ("HashMap<Option<Arc<SocketAddr>>, HashMap<String, String, OwnHasher>, OwnHasher>", <HashMap<Option<Arc<SocketAddr>>, HashMap<String, String, OwnHasher>, OwnHasher> as Say>::desc as Arg),
        ("Both<u128, i32>", <Both<u128, i32> as Say>::desc as Arg),
        ("Wrap<BTreeMap<Option<isize>, i16>>", <Wrap<BTreeMap<Option<isize>, i16>> as Say>::desc as Arg),
        ("(Wrap<Arc<i64>>, IpAddr, BTreeMap<(char, NonZero<i32>), HashMap<PathBuf, NonZero<u16>>>)", <(Wrap<Arc<i64>>, IpAddr, BTreeMap<(char, NonZero<i32>), HashMap<PathBuf, NonZero<u16>>>) as Say>::desc as Arg),
        ("Wrap<&'static [NonZero<u64>]>", <Wrap<&'static [NonZero<u64>]> as Say>::desc as Arg),
        ("Vec<[[String; 5]; 0]>", <Vec<[[String; 5]; 0]> as Say>::desc as Arg),
        ("Wrap<u64>", <Wrap<u64> as Say>::desc as Arg),
        ("&'static [HashMap<&'static str, u16>]", <&'static [HashMap<&'static str, u16>] as Say>::desc as Arg),
        ("HashMap<NonZero<usize>, u128>", <HashMap<NonZero<usize>, u128> as Say>::desc as Arg),
        ("Weak<u16>", <Weak<u16> as Say>::desc as Arg),
        ("BTreeMap<NonZero<u128>, [u128; 1000]>", <BTreeMap<NonZero<u128>, [u128; 1000]> as Say>::desc as Arg),
        ("HashMap<Leaf, (HashMap<NonZero<i128>, NonZero<u16>, OwnHasher>, Weak<char>, (NonZero<u64>, isize, RandomState, usize, Link, Leaf, SocketAddr, PhantomData<[u8]>, NonZero<u8>, Link, &'static Path, PhantomData<[u8]>), Ipv4Addr, Arc<i32>, [NonZero<isize>; 33])>", <HashMap<Leaf, (HashMap<NonZero<i128>, NonZero<u16>, OwnHasher>, Weak<char>, (NonZero<u64>, isize, RandomState, usize, Link, Leaf, SocketAddr, PhantomData<[u8]>, NonZero<u8>, Link, &'static Path, PhantomData<[u8]>), Ipv4Addr, Arc<i32>, [NonZero<isize>; 33])> as Say>::desc as Arg),
        ("[[NonZero<i32>; 33]; 9]", <[[NonZero<i32>; 33]; 9] as Say>::desc as Arg),
        ("[HashMap<Pick, Ipv6Addr, OwnHasher>; 33]", <[HashMap<Pick, Ipv6Addr, OwnHasher>; 33] as Say>::desc as Arg),
        ("BTreeMap<SocketAddr, BTreeMap<i64, i64>>", <BTreeMap<SocketAddr, BTreeMap<i64, i64>> as Say>::desc as Arg),
        ("&'static [Both<f32, usize>]", <&'static [Both<f32, usize>] as Say>::desc as Arg),
        ("Wrap<Weak<i64>>", <Wrap<Weak<i64>> as Say>::desc as Arg),
        ("NonNull<Vec<PhantomData<u32>>>", <NonNull<Vec<PhantomData<u32>>> as Say>::desc as Arg),
        ("Both<Option<NonZero<u64>>, Arc<bool>>", <Both<Option<NonZero<u64>>, Arc<bool>> as Say>::desc as Arg),
        ("BTreeMap<Option<u128>, NonZero<i8>>", <BTreeMap<Option<u128>, NonZero<i8>> as Say>::desc as Arg),
        ("NonNull<&'static str>", <NonNull<&'static str> as Say>::desc as Arg),
        ("((PhantomData<u32>, (u8, RandomState, Pick, u64, SocketAddr, u64, u16, NonZero<u32>, String), Vec<NonZero<usize>>, HashMap<NonZero<u64>, &'static Path>), &'static [RandomState], NonZero<i16>, Weak<u8>, NonNull<Ipv6Addr>)", <((PhantomData<u32>, (u8, RandomState, Pick, u64, SocketAddr, u64, u16, NonZero<u32>, String), Vec<NonZero<usize>>, HashMap<NonZero<u64>, &'static Path>), &'static [RandomState], NonZero<i16>, Weak<u8>, NonNull<Ipv6Addr>) as Say>::desc as Arg),
        ("Weak<NonNull<NonZero<u64>>>", <Weak<NonNull<NonZero<u64>>> as Say>::desc as Arg),
        ("&'static [Ipv6Addr]", <&'static [Ipv6Addr] as Say>::desc as Arg),
        ("Weak<&'static [NonZero<u64>]>", <Weak<&'static [NonZero<u64>]> as Say>::desc as Arg),
        ("&'static [BTreeMap<PathBuf, f64>]", <&'static [BTreeMap<PathBuf, f64>] as Say>::desc as Arg),
        ("Arc<NonZero<u8>>", <Arc<NonZero<u8>> as Say>::desc as Arg),
        ("Option<Arc<Ipv6Addr>>", <Option<Arc<Ipv6Addr>> as Say>::desc as Arg),
        ("NonNull<NonZero<i32>>", <NonNull<NonZero<i32>> as Say>::desc as Arg),
        ("[Vec<i32>; 1]", <[Vec<i32>; 1] as Say>::desc as Arg),
        ("HashMap<Pick, u32, OwnHasher>", <HashMap<Pick, u32, OwnHasher> as Say>::desc as Arg),
        ("Option<Wrap<NonZero<u64>>>", <Option<Wrap<NonZero<u64>>> as Say>::desc as Arg),
        ("Option<(Arc<NonZero<i32>>, (NonZero<i64>, NonZero<i128>, char, Leaf, (), NonZero<u64>, SocketAddr, NonZero<i32>, NonZero<u32>), Vec<BTreeMap<NonZero<i16>, Pick>>, Ipv6Addr, PathBuf, Both<u64, Both<i16, NonZero<i64>>>, Wrap<i16>)>", <Option<(Arc<NonZero<i32>>, (NonZero<i64>, NonZero<i128>, char, Leaf, (), NonZero<u64>, SocketAddr, NonZero<i32>, NonZero<u32>), Vec<BTreeMap<NonZero<i16>, Pick>>, Ipv6Addr, PathBuf, Both<u64, Both<i16, NonZero<i64>>>, Wrap<i16>)> as Say>::desc as Arg),
        ("BTreeMap<NonZero<isize>, char>", <BTreeMap<NonZero<isize>, char> as Say>::desc as Arg),
        ("HashMap<i128, Cow<'static, str>, OwnHasher>", <HashMap<i128, Cow<'static, str>, OwnHasher> as Say>::desc as Arg),
        ("Weak<HashMap<i32, isize>>", <Weak<HashMap<i32, isize>> as Say>::desc as Arg),
        ("BTreeMap<u128, Weak<&'static Path>>", <BTreeMap<u128, Weak<&'static Path>> as Say>::desc as Arg),
        ("HashMap<NonZero<i32>, Option<NonZero<u64>>>", <HashMap<NonZero<i32>, Option<NonZero<u64>>> as Say>::desc as Arg),
        ("Weak<i128>", <Weak<i128> as Say>::desc as Arg),
        ("&'static [Weak<()>]", <&'static [Weak<()>] as Say>::desc as Arg),
        ("(&'static Path, camino::Utf8PathBuf, Ipv4Addr, SocketAddr, i64, Leaf, PhantomData<u32>, PhantomData<u32>)", <(&'static Path, camino::Utf8PathBuf, Ipv4Addr, SocketAddr, i64, Leaf, PhantomData<u32>, PhantomData<u32>) as Say>::desc as Arg),
        ("HashMap<NonZero<i8>, &'static str>", <HashMap<NonZero<i8>, &'static str> as Say>::desc as Arg),
        ("HashMap<Vec<(NonZero<u64>, ConstTypeId)>, Ipv6Addr>", <HashMap<Vec<(NonZero<u64>, ConstTypeId)>, Ipv6Addr> as Say>::desc as Arg),
        ("HashMap<(NonZero<u8>, Pick), NonNull<IpAddr>>", <HashMap<(NonZero<u8>, Pick), NonNull<IpAddr>> as Say>::desc as Arg),
        ("&'static [&'static [[String; 32]]]", <&'static [&'static [[String; 32]]] as Say>::desc as Arg),
        ("Vec<Arc<Pick>>", <Vec<Arc<Pick>> as Say>::desc as Arg),
        ("HashMap<camino::Utf8PathBuf, i16, OwnHasher>", <HashMap<camino::Utf8PathBuf, i16, OwnHasher> as Say>::desc as Arg),
        ("Arc<HashMap<NonZero<isize>, isize, OwnHasher>>", <Arc<HashMap<NonZero<isize>, isize, OwnHasher>> as Say>::desc as Arg),
        ("HashMap<Option<String>, Option<NonZero<i8>>>", <HashMap<Option<String>, Option<NonZero<i8>>> as Say>::desc as Arg),
        ("Wrap<NonZero<i64>>", <Wrap<NonZero<i64>> as Say>::desc as Arg),
        ("BTreeMap<&'static Path, u16>", <BTreeMap<&'static Path, u16> as Say>::desc as Arg),
        ("Wrap<BTreeMap<PhantomData<u32>, NonZero<u16>>>", <Wrap<BTreeMap<PhantomData<u32>, NonZero<u16>>> as Say>::desc as Arg),
        ("HashMap<Pick, f64, OwnHasher>", <HashMap<Pick, f64, OwnHasher> as Say>::desc as Arg),
        ("NonNull<camino::Utf8PathBuf>", <NonNull<camino::Utf8PathBuf> as Say>::desc as Arg),
        ("Weak<NonNull<i16>>", <Weak<NonNull<i16>> as Say>::desc as Arg),
        ("Arc<BTreeMap<String, NonZero<i32>>>", <Arc<BTreeMap<String, NonZero<i32>>> as Say>::desc as Arg),
        ("Both<NonNull<RandomState>, Wrap<Vec<[Link; 3]>>>", <Both<NonNull<RandomState>, Wrap<Vec<[Link; 3]>>> as Say>::desc as Arg),
        ("Wrap<PathBuf>", <Wrap<PathBuf> as Say>::desc as Arg),
        ("(NonZero<i128>, HashMap<u64, PhantomData<u32>, OwnHasher>, u32, Both<Cow<'static, str>, IpAddr>, NonZero<i64>, i128, NonNull<camino::Utf8PathBuf>, NonZero<i16>, (NonZero<i16>,), Option<SocketAddr>)", <(NonZero<i128>, HashMap<u64, PhantomData<u32>, OwnHasher>, u32, Both<Cow<'static, str>, IpAddr>, NonZero<i64>, i128, NonNull<camino::Utf8PathBuf>, NonZero<i16>, (NonZero<i16>,), Option<SocketAddr>) as Say>::desc as Arg),
        ("&'static [Option<IpAddr>]", <&'static [Option<IpAddr>] as Say>::desc as Arg),
        ("Wrap<String>", <Wrap<String> as Say>::desc as Arg),
        ("Wrap<Ipv4Addr>", <Wrap<Ipv4Addr> as Say>::desc as Arg),
        ("[[NonZero<i32>; 9]; 0]", <[[NonZero<i32>; 9]; 0] as Say>::desc as Arg),
        ("HashMap<Arc<[Ipv6Addr; 2]>, (BTreeMap<camino::Utf8PathBuf, PhantomData<dyn Send>>, i16, Both<NonZero<i32>, i128>, PhantomData<[u8]>, String)>", <HashMap<Arc<[Ipv6Addr; 2]>, (BTreeMap<camino::Utf8PathBuf, PhantomData<dyn Send>>, i16, Both<NonZero<i32>, i128>, PhantomData<[u8]>, String)> as Say>::desc as Arg),
        ("NonNull<Both<HashMap<IpAddr, &'static str, OwnHasher>, Vec<i128>>>", <NonNull<Both<HashMap<IpAddr, &'static str, OwnHasher>, Vec<i128>>> as Say>::desc as Arg),
        ("[Wrap<u64>; 5]", <[Wrap<u64>; 5] as Say>::desc as Arg),
        ("Option<Both<HashMap<NonZero<u64>, ()>, PhantomData<dyn Send>>>", <Option<Both<HashMap<NonZero<u64>, ()>, PhantomData<dyn Send>>> as Say>::desc as Arg),
        ("&'static [Vec<SocketAddr>]", <&'static [Vec<SocketAddr>] as Say>::desc as Arg),
        ("BTreeMap<u16, i128>", <BTreeMap<u16, i128> as Say>::desc as Arg),
        ("(PathBuf, NonZero<i8>, i64, NonZero<usize>, PathBuf, u128, i128, &'static str, i32, NonZero<u128>, NonZero<u32>)", <(PathBuf, NonZero<i8>, i64, NonZero<usize>, PathBuf, u128, i128, &'static str, i32, NonZero<u128>, NonZero<u32>) as Say>::desc as Arg),
        ("NonNull<BTreeMap<char, PhantomData<dyn Send>>>", <NonNull<BTreeMap<char, PhantomData<dyn Send>>> as Say>::desc as Arg),
        ("(&'static str, (), NonZero<isize>, PhantomData<u32>, NonZero<u128>, u32, PhantomData<[u8]>, PhantomData<u32>, SocketAddr, String, u64)", <(&'static str, (), NonZero<isize>, PhantomData<u32>, NonZero<u128>, u32, PhantomData<[u8]>, PhantomData<u32>, SocketAddr, String, u64) as Say>::desc as Arg),
        ("Vec<HashMap<NonZero<u128>, PathBuf>>", <Vec<HashMap<NonZero<u128>, PathBuf>> as Say>::desc as Arg),
        ("&'static [[char; 2]]", <&'static [[char; 2]] as Say>::desc as Arg),
        ("Both<Both<f32, PhantomData<u32>>, Option<Option<Link>>>", <Both<Both<f32, PhantomData<u32>>, Option<Option<Link>>> as Say>::desc as Arg),
        ("Wrap<NonZero<usize>>", <Wrap<NonZero<usize>> as Say>::desc as Arg),
        ("Both<u128, NonZero<isize>>", <Both<u128, NonZero<isize>> as Say>::desc as Arg),
        ("Both<HashMap<SocketAddr, Pick, OwnHasher>, Option<u64>>", <Both<HashMap<SocketAddr, Pick, OwnHasher>, Option<u64>> as Say>::desc as Arg),
        ("BTreeMap<isize, i16>", <BTreeMap<isize, i16> as Say>::desc as Arg),
        ("NonNull<&'static Path>", <NonNull<&'static Path> as Say>::desc as Arg),
        ("HashMap<NonZero<u128>, NonNull<camino::Utf8PathBuf>>", <HashMap<NonZero<u128>, NonNull<camino::Utf8PathBuf>> as Say>::desc as Arg),
        ("NonNull<NonZero<u8>>", <NonNull<NonZero<u8>> as Say>::desc as Arg),
        ("BTreeMap<i64, HashMap<Vec<(camino::Utf8PathBuf, isize)>, &'static str>>", <BTreeMap<i64, HashMap<Vec<(camino::Utf8PathBuf, isize)>, &'static str>> as Say>::desc as Arg),
        ("Both<NonZero<i128>, usize>", <Both<NonZero<i128>, usize> as Say>::desc as Arg),
        ("NonNull<Option<i128>>", <NonNull<Option<i128>> as Say>::desc as Arg),
        ("HashMap<Ipv4Addr, NonZero<i32>, OwnHasher>", <HashMap<Ipv4Addr, NonZero<i32>, OwnHasher> as Say>::desc as Arg),
        ("Arc<HashMap<String, u8, OwnHasher>>", <Arc<HashMap<String, u8, OwnHasher>> as Say>::desc as Arg),
        ("BTreeMap<Leaf, HashMap<NonZero<usize>, i128, OwnHasher>>", <BTreeMap<Leaf, HashMap<NonZero<usize>, i128, OwnHasher>> as Say>::desc as Arg),
        ("Weak<Wrap<i16>>", <Weak<Wrap<i16>> as Say>::desc as Arg),
        ("BTreeMap<Option<Arc<SocketAddr>>, Vec<i8>>", <BTreeMap<Option<Arc<SocketAddr>>, Vec<i8>> as Say>::desc as Arg),
        ("Option<Weak<Link>>", <Option<Weak<Link>> as Say>::desc as Arg),
        ("HashMap<NonZero<i32>, HashMap<Pick, NonZero<i128>, OwnHasher>, OwnHasher>", <HashMap<NonZero<i32>, HashMap<Pick, NonZero<i128>, OwnHasher>, OwnHasher> as Say>::desc as Arg),
        ("(NonZero<u32>, HashMap<NonZero<isize>, NonZero<u64>>, (), u8, RandomState, Arc<HashMap<camino::Utf8PathBuf, i8, OwnHasher>>, f64)", <(NonZero<u32>, HashMap<NonZero<isize>, NonZero<u64>>, (), u8, RandomState, Arc<HashMap<camino::Utf8PathBuf, i8, OwnHasher>>, f64) as Say>::desc as Arg),
        ("(PathBuf, Option<NonZero<u128>>, Option<PhantomData<[u8]>>, camino::Utf8PathBuf, u16)", <(PathBuf, Option<NonZero<u128>>, Option<PhantomData<[u8]>>, camino::Utf8PathBuf, u16) as Say>::desc as Arg),
        ("(HashMap<NonZero<i16>, Link>, NonZero<i64>, &'static Path, HashMap<u64, camino::Utf8PathBuf, OwnHasher>, HashMap<i16, Link, OwnHasher>)", <(HashMap<NonZero<i16>, Link>, NonZero<i64>, &'static Path, HashMap<u64, camino::Utf8PathBuf, OwnHasher>, HashMap<i16, Link, OwnHasher>) as Say>::desc as Arg),
        ("HashMap<Arc<NonZero<usize>>, HashMap<i16, u128, OwnHasher>>", <HashMap<Arc<NonZero<usize>>, HashMap<i16, u128, OwnHasher>> as Say>::desc as Arg),
        ("Wrap<RandomState>", <Wrap<RandomState> as Say>::desc as Arg),
        ("BTreeMap<i8, usize>", <BTreeMap<i8, usize> as Say>::desc as Arg),
        ("Both<u8, i16>", <Both<u8, i16> as Say>::desc as Arg),
        ("Arc<NonNull<PathBuf>>", <Arc<NonNull<PathBuf>> as Say>::desc as Arg),
        ("Option<Arc<i32>>", <Option<Arc<i32>> as Say>::desc as Arg),
        ("Option<NonZero<i32>>", <Option<NonZero<i32>> as Say>::desc as Arg),
        ("&'static [i32]", <&'static [i32] as Say>::desc as Arg),
        ("Option<[NonZero<i8>; 2]>", <Option<[NonZero<i8>; 2]> as Say>::desc as Arg),
        ("Vec<SocketAddr>", <Vec<SocketAddr> as Say>::desc as Arg),
        ("HashMap<Option<(i16, Leaf)>, Vec<NonZero<usize>>>", <HashMap<Option<(i16, Leaf)>, Vec<NonZero<usize>>> as Say>::desc as Arg),
        ("[f64; 2]", <[f64; 2] as Say>::desc as Arg),
        ("Both<i16, i8>", <Both<i16, i8> as Say>::desc as Arg),
        ("Arc<Arc<i32>>", <Arc<Arc<i32>> as Say>::desc as Arg),
        ("HashMap<Arc<NonZero<isize>>, PhantomData<[u8]>>", <HashMap<Arc<NonZero<isize>>, PhantomData<[u8]>> as Say>::desc as Arg),
        ("BTreeMap<NonZero<i32>, Vec<Ipv4Addr>>", <BTreeMap<NonZero<i32>, Vec<Ipv4Addr>> as Say>::desc as Arg),
        ("Option<HashMap<PhantomData<u32>, isize>>", <Option<HashMap<PhantomData<u32>, isize>> as Say>::desc as Arg),
        ("Arc<BTreeMap<Pick, Arc<NonZero<u16>>>>", <Arc<BTreeMap<Pick, Arc<NonZero<u16>>>> as Say>::desc as Arg),
        ("(PathBuf, HashMap<&'static Path, u16, OwnHasher>, NonNull<SocketAddr>, Option<camino::Utf8PathBuf>, Option<Ipv4Addr>, u16, Both<char, i128>, &'static [String], [Arc<Option<char>>; 32], HashMap<char, BTreeMap<Arc<Pick>, Both<Ipv4Addr, i64>>>, (PhantomData<u32>, HashMap<Vec<String>, NonZero<u128>>, NonZero<i128>))", <(PathBuf, HashMap<&'static Path, u16, OwnHasher>, NonNull<SocketAddr>, Option<camino::Utf8PathBuf>, Option<Ipv4Addr>, u16, Both<char, i128>, &'static [String], [Arc<Option<char>>; 32], HashMap<char, BTreeMap<Arc<Pick>, Both<Ipv4Addr, i64>>>, (PhantomData<u32>, HashMap<Vec<String>, NonZero<u128>>, NonZero<i128>)) as Say>::desc as Arg),
        ("Weak<Weak<NonZero<i128>>>", <Weak<Weak<NonZero<i128>>> as Say>::desc as Arg),
        ("Arc<Arc<IpAddr>>", <Arc<Arc<IpAddr>> as Say>::desc as Arg),
        ("Option<f32>", <Option<f32> as Say>::desc as Arg),
        ("BTreeMap<[NonZero<i16>; 0], isize>", <BTreeMap<[NonZero<i16>; 0], isize> as Say>::desc as Arg),
        ("Arc<char>", <Arc<char> as Say>::desc as Arg),
        ("Weak<Weak<SocketAddr>>", <Weak<Weak<SocketAddr>> as Say>::desc as Arg),
        ("Wrap<BTreeMap<i64, NonZero<u16>>>", <Wrap<BTreeMap<i64, NonZero<u16>>> as Say>::desc as Arg),
        ("Arc<Wrap<NonZero<u32>>>", <Arc<Wrap<NonZero<u32>>> as Say>::desc as Arg),
        ("Both<Both<NonZero<u128>, NonZero<u16>>, HashMap<(NonZero<i16>, NonZero<u128>), [Ipv6Addr; 9], OwnHasher>>", <Both<Both<NonZero<u128>, NonZero<u16>>, HashMap<(NonZero<i16>, NonZero<u128>), [Ipv6Addr; 9], OwnHasher>> as Say>::desc as Arg),
        ("Both<PhantomData<dyn Send>, i32>", <Both<PhantomData<dyn Send>, i32> as Say>::desc as Arg),
        ("(PathBuf, PhantomData<dyn Send>, i8, NonZero<u16>, f64, Ipv6Addr, u64)", <(PathBuf, PhantomData<dyn Send>, i8, NonZero<u16>, f64, Ipv6Addr, u64) as Say>::desc as Arg),
        ("Arc<NonZero<i32>>", <Arc<NonZero<i32>> as Say>::desc as Arg),
        ("HashMap<u128, BTreeMap<[Leaf; 3], [NonZero<u64>; 33]>>", <HashMap<u128, BTreeMap<[Leaf; 3], [NonZero<u64>; 33]>> as Say>::desc as Arg),
        ("Option<&'static Path>", <Option<&'static Path> as Say>::desc as Arg),
        ("Both<NonZero<i16>, String>", <Both<NonZero<i16>, String> as Say>::desc as Arg),
        ("Arc<Weak<Wrap<f64>>>", <Arc<Weak<Wrap<f64>>> as Say>::desc as Arg),
        ("&'static [&'static Path]", <&'static [&'static Path] as Say>::desc as Arg),
        ("BTreeMap<NonZero<u8>, BTreeMap<bool, u128>>", <BTreeMap<NonZero<u8>, BTreeMap<bool, u128>> as Say>::desc as Arg),
        ("Wrap<Pick>", <Wrap<Pick> as Say>::desc as Arg),
        ("Arc<NonZero<i8>>", <Arc<NonZero<i8>> as Say>::desc as Arg),
        ("((bool, RandomState, i128, ConstTypeId, IpAddr, u32, NonZero<u32>, u16, i16), [u128; 1], NonZero<i16>, f64, Both<Ipv6Addr, NonZero<u16>>, Option<Arc<u128>>, Arc<&'static [Link]>, PhantomData<[u8]>, Wrap<Link>, [NonZero<u16>; 1000])", <((bool, RandomState, i128, ConstTypeId, IpAddr, u32, NonZero<u32>, u16, i16), [u128; 1], NonZero<i16>, f64, Both<Ipv6Addr, NonZero<u16>>, Option<Arc<u128>>, Arc<&'static [Link]>, PhantomData<[u8]>, Wrap<Link>, [NonZero<u16>; 1000]) as Say>::desc as Arg),
        ("Both<Arc<NonZero<isize>>, Wrap<i64>>", <Both<Arc<NonZero<isize>>, Wrap<i64>> as Say>::desc as Arg),
        ("NonNull<i128>", <NonNull<i128> as Say>::desc as Arg),
        ("Weak<Vec<NonNull<Ipv6Addr>>>", <Weak<Vec<NonNull<Ipv6Addr>>> as Say>::desc as Arg),
        ("[bool; 1]", <[bool; 1] as Say>::desc as Arg),
        ("Vec<Both<NonZero<i32>, NonZero<i64>>>", <Vec<Both<NonZero<i32>, NonZero<i64>>> as Say>::desc as Arg),
        ("Vec<Option<HashMap<u8, Link, OwnHasher>>>", <Vec<Option<HashMap<u8, Link, OwnHasher>>> as Say>::desc as Arg),
        ("Both<PathBuf, PathBuf>", <Both<PathBuf, PathBuf> as Say>::desc as Arg),
        ("Arc<(Ipv6Addr, i64)>", <Arc<(Ipv6Addr, i64)> as Say>::desc as Arg),
        ("NonNull<NonNull<isize>>", <NonNull<NonNull<isize>> as Say>::desc as Arg),
        ("&'static [Option<NonZero<u32>>]", <&'static [Option<NonZero<u32>>] as Say>::desc as Arg),
        ("[NonZero<u128>; 33]", <[NonZero<u128>; 33] as Say>::desc as Arg),
        ("[f32; 0]", <[f32; 0] as Say>::desc as Arg),
        ("Option<Cow<'static, str>>", <Option<Cow<'static, str>> as Say>::desc as Arg),
        ("HashMap<NonZero<u32>, String, OwnHasher>", <HashMap<NonZero<u32>, String, OwnHasher> as Say>::desc as Arg),
        ("Both<SocketAddr, [usize; 5]>", <Both<SocketAddr, [usize; 5]> as Say>::desc as Arg),
        ("Both<PhantomData<u32>, usize>", <Both<PhantomData<u32>, usize> as Say>::desc as Arg),
        ("Option<(&'static str, i16, usize, i32)>", <Option<(&'static str, i16, usize, i32)> as Say>::desc as Arg),
        ("&'static [camino::Utf8PathBuf]", <&'static [camino::Utf8PathBuf] as Say>::desc as Arg),
        ("Both<HashMap<NonZero<u128>, u128>, HashMap<Ipv4Addr, [Ipv6Addr; 32]>>", <Both<HashMap<NonZero<u128>, u128>, HashMap<Ipv4Addr, [Ipv6Addr; 32]>> as Say>::desc as Arg),
        ("Weak<f32>", <Weak<f32> as Say>::desc as Arg),
        ("Option<NonZero<usize>>", <Option<NonZero<usize>> as Say>::desc as Arg),
        ("Option<Vec<bool>>", <Option<Vec<bool>> as Say>::desc as Arg),
        ("Arc<HashMap<[Option<NonZero<u32>>; 2], (char, NonZero<i64>, u64, NonZero<i64>, PhantomData<[u8]>, Ipv6Addr, NonZero<i64>)>>", <Arc<HashMap<[Option<NonZero<u32>>; 2], (char, NonZero<i64>, u64, NonZero<i64>, PhantomData<[u8]>, Ipv6Addr, NonZero<i64>)>> as Say>::desc as Arg),
        ("[NonZero<i128>; 0]", <[NonZero<i128>; 0] as Say>::desc as Arg),
        ("(camino::Utf8PathBuf, Vec<i8>, Weak<i16>, Arc<NonZero<usize>>, Option<Link>, Wrap<Both<NonZero<u64>, u8>>, &'static [HashMap<NonZero<i64>, PhantomData<u32>>], Weak<Both<i64, NonZero<u32>>>)", <(camino::Utf8PathBuf, Vec<i8>, Weak<i16>, Arc<NonZero<usize>>, Option<Link>, Wrap<Both<NonZero<u64>, u8>>, &'static [HashMap<NonZero<i64>, PhantomData<u32>>], Weak<Both<i64, NonZero<u32>>>) as Say>::desc as Arg),
        ("Option<&'static [PhantomData<dyn Send>]>", <Option<&'static [PhantomData<dyn Send>]> as Say>::desc as Arg),
        ("[u16; 5]", <[u16; 5] as Say>::desc as Arg),
        ("BTreeMap<PhantomData<u32>, BTreeMap<&'static Path, Link>>", <BTreeMap<PhantomData<u32>, BTreeMap<&'static Path, Link>> as Say>::desc as Arg),
        ("HashMap<(NonZero<i128>, u32), Option<Option<&'static Path>>, OwnHasher>", <HashMap<(NonZero<i128>, u32), Option<Option<&'static Path>>, OwnHasher> as Say>::desc as Arg),
        ("[Weak<f64>; 9]", <[Weak<f64>; 9] as Say>::desc as Arg),
        ("Vec<HashMap<u8, &'static str, OwnHasher>>", <Vec<HashMap<u8, &'static str, OwnHasher>> as Say>::desc as Arg),
        ("Wrap<u8>", <Wrap<u8> as Say>::desc as Arg),
        ("NonNull<[NonZero<u64>; 32]>", <NonNull<[NonZero<u64>; 32]> as Say>::desc as Arg),
        ("Weak<NonZero<u8>>", <Weak<NonZero<u8>> as Say>::desc as Arg),
        ("(Weak<isize>, NonZero<i32>, Link, NonZero<i128>)", <(Weak<isize>, NonZero<i32>, Link, NonZero<i128>) as Say>::desc as Arg),
        ("(&'static [Cow<'static, str>], NonZero<i64>, HashMap<char, usize, OwnHasher>, PathBuf, Vec<PathBuf>)", <(&'static [Cow<'static, str>], NonZero<i64>, HashMap<char, usize, OwnHasher>, PathBuf, Vec<PathBuf>) as Say>::desc as Arg),
        ("Wrap<HashMap<i128, NonZero<i8>>>", <Wrap<HashMap<i128, NonZero<i8>>> as Say>::desc as Arg),
        ("HashMap<(NonZero<i8>, Pick), NonZero<i8>, OwnHasher>", <HashMap<(NonZero<i8>, Pick), NonZero<i8>, OwnHasher> as Say>::desc as Arg),
        ("(NonZero<u16>, NonNull<Arc<()>>, Weak<RandomState>, Weak<NonZero<u128>>, Option<Both<IpAddr, f64>>, NonZero<u16>, HashMap<isize, Ipv4Addr, OwnHasher>, Both<camino::Utf8PathBuf, [f64; 2]>)", <(NonZero<u16>, NonNull<Arc<()>>, Weak<RandomState>, Weak<NonZero<u128>>, Option<Both<IpAddr, f64>>, NonZero<u16>, HashMap<isize, Ipv4Addr, OwnHasher>, Both<camino::Utf8PathBuf, [f64; 2]>) as Say>::desc as Arg),
        ("Vec<NonNull<i16>>", <Vec<NonNull<i16>> as Say>::desc as Arg),
        ("Both<NonZero<i32>, u128>", <Both<NonZero<i32>, u128> as Say>::desc as Arg),
        ("HashMap<Option<ConstTypeId>, Option<NonZero<u128>>, OwnHasher>", <HashMap<Option<ConstTypeId>, Option<NonZero<u128>>, OwnHasher> as Say>::desc as Arg),
        ("Weak<u128>", <Weak<u128> as Say>::desc as Arg),
        ("Wrap<IpAddr>", <Wrap<IpAddr> as Say>::desc as Arg),
        ("&'static [NonNull<NonZero<u128>>]", <&'static [NonNull<NonZero<u128>>] as Say>::desc as Arg),
        ("BTreeMap<char, NonZero<i8>>", <BTreeMap<char, NonZero<i8>> as Say>::desc as Arg),
        ("HashMap<[i128; 1], NonZero<i16>>", <HashMap<[i128; 1], NonZero<i16>> as Say>::desc as Arg),
        ("Weak<Both<(), &'static str>>", <Weak<Both<(), &'static str>> as Say>::desc as Arg),
        ("HashMap<i8, (Option<Wrap<PhantomData<dyn Send>>>, Vec<i128>, Ipv6Addr)>", <HashMap<i8, (Option<Wrap<PhantomData<dyn Send>>>, Vec<i128>, Ipv6Addr)> as Say>::desc as Arg),
        ("Both<Arc<Link>, i8>", <Both<Arc<Link>, i8> as Say>::desc as Arg),
        ("(&'static [char], &'static [u16], Arc<PathBuf>, NonZero<u64>, &'static [PhantomData<dyn Send>], f32, &'static [i128], (u64, &'static [PhantomData<dyn Send>], f32, (u8, NonZero<usize>, String, Cow<'static, str>, NonZero<u32>), PhantomData<dyn Send>, NonZero<u128>, BTreeMap<&'static Path, i8>, Wrap<f32>))", <(&'static [char], &'static [u16], Arc<PathBuf>, NonZero<u64>, &'static [PhantomData<dyn Send>], f32, &'static [i128], (u64, &'static [PhantomData<dyn Send>], f32, (u8, NonZero<usize>, String, Cow<'static, str>, NonZero<u32>), PhantomData<dyn Send>, NonZero<u128>, BTreeMap<&'static Path, i8>, Wrap<f32>)) as Say>::desc as Arg),
        ("(f32, NonNull<i8>, Option<u128>, &'static [String], NonZero<i8>, NonZero<usize>, Vec<&'static Path>, NonZero<i16>, PhantomData<dyn Send>, Vec<u32>, u128, NonZero<i8>)", <(f32, NonNull<i8>, Option<u128>, &'static [String], NonZero<i8>, NonZero<usize>, Vec<&'static Path>, NonZero<i16>, PhantomData<dyn Send>, Vec<u32>, u128, NonZero<i8>) as Say>::desc as Arg),
        ("HashMap<usize, [Option<&'static str>; 0], OwnHasher>", <HashMap<usize, [Option<&'static str>; 0], OwnHasher> as Say>::desc as Arg),
        ("Wrap<HashMap<i16, BTreeMap<i32, isize>>>", <Wrap<HashMap<i16, BTreeMap<i32, isize>>> as Say>::desc as Arg),
        ("HashMap<u32, PhantomData<u32>, OwnHasher>", <HashMap<u32, PhantomData<u32>, OwnHasher> as Say>::desc as Arg),
        ("Vec<Wrap<f64>>", <Vec<Wrap<f64>> as Say>::desc as Arg),
        ("Both<PathBuf, i16>", <Both<PathBuf, i16> as Say>::desc as Arg),
        ("Option<NonNull<PhantomData<u32>>>", <Option<NonNull<PhantomData<u32>>> as Say>::desc as Arg),
        ("&'static [Wrap<PathBuf>]", <&'static [Wrap<PathBuf>] as Say>::desc as Arg),
        ("HashMap<NonZero<u32>, i16, OwnHasher>", <HashMap<NonZero<u32>, i16, OwnHasher> as Say>::desc as Arg),
        ("[NonNull<i8>; 9]", <[NonNull<i8>; 9] as Say>::desc as Arg),
        ("[Vec<Wrap<Ipv4Addr>>; 0]", <[Vec<Wrap<Ipv4Addr>>; 0] as Say>::desc as Arg),
        ("Both<NonZero<u64>, u128>", <Both<NonZero<u64>, u128> as Say>::desc as Arg),
        ("HashMap<u8, NonZero<isize>, OwnHasher>", <HashMap<u8, NonZero<isize>, OwnHasher> as Say>::desc as Arg),
        ("[HashMap<u128, IpAddr, OwnHasher>; 2]", <[HashMap<u128, IpAddr, OwnHasher>; 2] as Say>::desc as Arg),
        ("&'static [(PhantomData<[u8]>, PhantomData<dyn Send>, NonZero<u32>, Cow<'static, str>, (), Leaf, NonZero<i8>, u16)]", <&'static [(PhantomData<[u8]>, PhantomData<dyn Send>, NonZero<u32>, Cow<'static, str>, (), Leaf, NonZero<i8>, u16)] as Say>::desc as Arg),
        ("(Arc<camino::Utf8PathBuf>, usize, usize, Option<i64>, Both<NonZero<u16>, bool>, [IpAddr; 2], Leaf, u16, Vec<i32>, RandomState, Option<i8>, u128)", <(Arc<camino::Utf8PathBuf>, usize, usize, Option<i64>, Both<NonZero<u16>, bool>, [IpAddr; 2], Leaf, u16, Vec<i32>, RandomState, Option<i8>, u128) as Say>::desc as Arg),
        ("HashMap<(NonZero<u16>, i128), HashMap<PathBuf, Cow<'static, str>>, OwnHasher>", <HashMap<(NonZero<u16>, i128), HashMap<PathBuf, Cow<'static, str>>, OwnHasher> as Say>::desc as Arg),
        ("BTreeMap<Pick, Pick>", <BTreeMap<Pick, Pick> as Say>::desc as Arg),
        ("Arc<[NonZero<i128>; 9]>", <Arc<[NonZero<i128>; 9]> as Say>::desc as Arg),
        ("Wrap<HashMap<i64, NonZero<u128>, OwnHasher>>", <Wrap<HashMap<i64, NonZero<u128>, OwnHasher>> as Say>::desc as Arg),
        ("Wrap<Option<Both<SocketAddr, NonZero<i128>>>>", <Wrap<Option<Both<SocketAddr, NonZero<i128>>>> as Say>::desc as Arg),
        ("HashMap<Option<&'static str>, Vec<i32>, OwnHasher>", <HashMap<Option<&'static str>, Vec<i32>, OwnHasher> as Say>::desc as Arg),
        ("(NonZero<i128>, Both<bool, [NonZero<isize>; 32]>, Arc<Option<SocketAddr>>)", <(NonZero<i128>, Both<bool, [NonZero<isize>; 32]>, Arc<Option<SocketAddr>>) as Say>::desc as Arg),
        ("&'static [HashMap<ConstTypeId, u16, OwnHasher>]", <&'static [HashMap<ConstTypeId, u16, OwnHasher>] as Say>::desc as Arg),
        ("Both<Option<NonZero<u128>>, PathBuf>", <Both<Option<NonZero<u128>>, PathBuf> as Say>::desc as Arg),
        ("Arc<u16>", <Arc<u16> as Say>::desc as Arg),
        ("Vec<Both<NonZero<u128>, u64>>", <Vec<Both<NonZero<u128>, u64>> as Say>::desc as Arg),
        ("[i8; 5]", <[i8; 5] as Say>::desc as Arg),
        ("Wrap<HashMap<i8, NonZero<u128>>>", <Wrap<HashMap<i8, NonZero<u128>>> as Say>::desc as Arg),
        ("HashMap<[ConstTypeId; 2], i128>", <HashMap<[ConstTypeId; 2], i128> as Say>::desc as Arg),
        ("Wrap<Both<i128, camino::Utf8PathBuf>>", <Wrap<Both<i128, camino::Utf8PathBuf>> as Say>::desc as Arg),
        ("[NonZero<i64>; 9]", <[NonZero<i64>; 9] as Say>::desc as Arg),
        ("BTreeMap<Vec<IpAddr>, NonZero<i8>>", <BTreeMap<Vec<IpAddr>, NonZero<i8>> as Say>::desc as Arg),
        ("[&'static [(IpAddr, isize, u64, NonZero<u16>, u16)]; 0]", <[&'static [(IpAddr, isize, u64, NonZero<u16>, u16)]; 0] as Say>::desc as Arg),
        ("Wrap<Link>", <Wrap<Link> as Say>::desc as Arg),
        ("Option<Wrap<i8>>", <Option<Wrap<i8>> as Say>::desc as Arg),
        ("BTreeMap<[[i16; 7]; 3], camino::Utf8PathBuf>", <BTreeMap<[[i16; 7]; 3], camino::Utf8PathBuf> as Say>::desc as Arg),
        ("HashMap<(&'static Path, Arc<Option<u32>>), u128>", <HashMap<(&'static Path, Arc<Option<u32>>), u128> as Say>::desc as Arg),
        ("NonNull<Vec<u64>>", <NonNull<Vec<u64>> as Say>::desc as Arg),
        ("NonNull<HashMap<i8, RandomState, OwnHasher>>", <NonNull<HashMap<i8, RandomState, OwnHasher>> as Say>::desc as Arg),
        ("Wrap<usize>", <Wrap<usize> as Say>::desc as Arg),
        ("BTreeMap<(), Both<u16, NonZero<usize>>>", <BTreeMap<(), Both<u16, NonZero<usize>>> as Say>::desc as Arg),
        ("(HashMap<isize, Weak<Cow<'static, str>>, OwnHasher>, Wrap<NonZero<isize>>, i32, HashMap<u8, IpAddr>, HashMap<Pick, PhantomData<[u8]>>, HashMap<NonZero<i64>, NonZero<usize>, OwnHasher>, Weak<IpAddr>, camino::Utf8PathBuf)", <(HashMap<isize, Weak<Cow<'static, str>>, OwnHasher>, Wrap<NonZero<isize>>, i32, HashMap<u8, IpAddr>, HashMap<Pick, PhantomData<[u8]>>, HashMap<NonZero<i64>, NonZero<usize>, OwnHasher>, Weak<IpAddr>, camino::Utf8PathBuf) as Say>::desc as Arg),
        ("Vec<&'static [i32]>", <Vec<&'static [i32]> as Say>::desc as Arg),
        ("BTreeMap<i128, i128>", <BTreeMap<i128, i128> as Say>::desc as Arg),
        ("(NonZero<u8>, NonZero<u8>, Weak<IpAddr>, (f32, PhantomData<[u8]>, u128, Ipv6Addr, i32, NonZero<i16>, NonZero<i32>, Link, f64, NonZero<i64>, NonZero<i16>, isize))", <(NonZero<u8>, NonZero<u8>, Weak<IpAddr>, (f32, PhantomData<[u8]>, u128, Ipv6Addr, i32, NonZero<i16>, NonZero<i32>, Link, f64, NonZero<i64>, NonZero<i16>, isize)) as Say>::desc as Arg),
        ("Vec<Both<NonZero<i64>, NonZero<i64>>>", <Vec<Both<NonZero<i64>, NonZero<i64>>> as Say>::desc as Arg),
        ("(i8, NonZero<u16>, Option<Both<Leaf, i8>>, Arc<PhantomData<[u8]>>, ConstTypeId, NonZero<i32>, NonNull<Option<Leaf>>, f64, f32)", <(i8, NonZero<u16>, Option<Both<Leaf, i8>>, Arc<PhantomData<[u8]>>, ConstTypeId, NonZero<i32>, NonNull<Option<Leaf>>, f64, f32) as Say>::desc as Arg),
        ("Arc<&'static [i8]>", <Arc<&'static [i8]> as Say>::desc as Arg),
        ("Weak<Option<i16>>", <Weak<Option<i16>> as Say>::desc as Arg),
        ("Arc<Weak<Weak<f32>>>", <Arc<Weak<Weak<f32>>> as Say>::desc as Arg),
        ("Vec<NonZero<i32>>", <Vec<NonZero<i32>> as Say>::desc as Arg),
        ("(&'static [NonZero<isize>], HashMap<i32, i128, OwnHasher>, Cow<'static, str>, ConstTypeId, Arc<i32>)", <(&'static [NonZero<isize>], HashMap<i32, i128, OwnHasher>, Cow<'static, str>, ConstTypeId, Arc<i32>) as Say>::desc as Arg),
        ("(&'static [Arc<NonZero<u32>>],)", <(&'static [Arc<NonZero<u32>>],) as Say>::desc as Arg),
        ("Arc<HashMap<IpAddr, NonZero<i64>, OwnHasher>>", <Arc<HashMap<IpAddr, NonZero<i64>, OwnHasher>> as Say>::desc as Arg),
    ]
}
