//! Known-answer tests for the reference implementations. A failure is an error of the harness.
use crate::fw::*;
use crate::refs::big::Big;
use crate::refs::*;

fn eq(a: &[u8], b: &str, what: &str) {
    if hex(a) != b.replace(' ', "") {
        panic!("HARNESS-ERROR reference {}: {} != {}", what, hex(a), b);
    }
}

pub fn run() -> usize {
    let mut n = 0;
    let mut t = |a: &[u8], b: &str, w: &str| {
        eq(a, b, w);
        n += 1;
    };
    // FIPS-197 appendix C
    let pt = unhex("00112233445566778899aabbccddeeff");
    let k: Vec<u8> = (0..32).collect();
    for (l, ct) in [(16, "69c4e0d86a7b0430d8cdb78070b4c55a"), (24, "dda97ca4864cdfe06eaf70a0ec0d7191"), (32, "8ea2b7ca516745bfeafc49904b496089")] {
        let a = aes::Aes::new(&k[..l]);
        t(&a.enc(&pt), ct, "aes");
        t(&a.dec(&unhex(ct)), "00112233445566778899aabbccddeeff", "aes dec");
    }
    let d = des::Des::new(&unhex("133457799BBCDFF1"));
    t(&d.enc(&unhex("0123456789ABCDEF")), "85e813540f0ab405", "des");
    t(&d.dec(&unhex("85e813540f0ab405")), "0123456789abcdef", "des dec");
    let d3 = des::Tdes::new(&unhex("0123456789ABCDEF23456789ABCDEF01456789ABCDEF0123"));
    t(&d3.enc(&unhex("5468652071756663")), "a826fd8ce53b855f", "tdes");
    let s = sm4::Sm4::new(&unhex("0123456789abcdeffedcba9876543210"));
    t(&s.enc(&unhex("0123456789abcdeffedcba9876543210")), "681edf34d206965e86b3e94f536e4246", "sm4");
    t(&s.dec(&unhex("681edf34d206965e86b3e94f536e4246")), "0123456789abcdeffedcba9876543210", "sm4 dec");
    // digests of the 131 bytes 0,1,..,130 (values from OpenSSL 3.0)
    let m: Vec<u8> = (0..131u8).collect();
    t(&hashes::md5(&m[..0]), "d41d8cd98f00b204e9800998ecf8427e", "md5");
    t(&hashes::md5(&m[..55]), "6912ee65fff2d9f9ce2508cddf8bcda0", "md5");
    t(&hashes::md5(&m[..56]), "51fdd1acda72405dfdfa03fcb85896d7", "md5");
    t(&hashes::md5(&m[..64]), "b2d3f56bc197fd985d5965079b5e7148", "md5");
    t(&hashes::md5(&m[..111]), "4fad3ab7d8546851ec1bb63ea7e6f5a8", "md5");
    t(&hashes::md5(&m[..112]), "d1fec2ac3715e791ca5f489f300381b3", "md5");
    t(&hashes::md5(&m[..131]), "cc188799001d39bf0854be3426d93d51", "md5");
    t(&hashes::sha1(&m[..0]), "da39a3ee5e6b4b0d3255bfef95601890afd80709", "sha1");
    t(&hashes::sha1(&m[..55]), "8ae2d46729cfe68ff927af5eec9c7d1b66d65ac2", "sha1");
    t(&hashes::sha1(&m[..56]), "636e2ec698dac903498e648bd2f3af641d3c88cb", "sha1");
    t(&hashes::sha1(&m[..64]), "c6138d514ffa2135bfce0ed0b8fac65669917ec7", "sha1");
    t(&hashes::sha1(&m[..111]), "bc544e24573d592290fdaff8ecf3f7f2b00cd483", "sha1");
    t(&hashes::sha1(&m[..112]), "e4ce142d09a84a8645338dd6535cbfaaf800d320", "sha1");
    t(&hashes::sha1(&m[..131]), "76382259107c56b3f798107a8acc62b32d8ec2c6", "sha1");
    t(&hashes::sha224(&m[..0]), "d14a028c2a3a2bc9476102bb288234c415a2b01f828ea62ac5b3e42f", "sha224");
    t(&hashes::sha224(&m[..55]), "8991dfba74284e04dc7581c7c3e4068ff6cb7a63733361429834bb56", "sha224");
    t(&hashes::sha224(&m[..56]), "2b2cd637c16ad7290bb067ad7d8fd04e204fa43a84366afc7130f4ef", "sha224");
    t(&hashes::sha224(&m[..64]), "c37b88a3522dbf7ac30d1c68ea397ac11d4773571aed01ddab73531e", "sha224");
    t(&hashes::sha224(&m[..111]), "1aeef583c448a9ae00fbc931b50bc0da5bb8323e616b11076cee8b44", "sha224");
    t(&hashes::sha224(&m[..112]), "01e5abf50619b5c2078e754eddedcf4de8d31185a2219313cb91a8c9", "sha224");
    t(&hashes::sha224(&m[..131]), "cfa7a2371788df3c9f779e4a2e211b64826ce071993f911fc5016ecb", "sha224");
    t(&hashes::sha256(&m[..0]), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855", "sha256");
    t(&hashes::sha256(&m[..55]), "463eb28e72f82e0a96c0a4cc53690c571281131f672aa229e0d45ae59b598b59", "sha256");
    t(&hashes::sha256(&m[..56]), "da2ae4d6b36748f2a318f23e7ab1dfdf45acdc9d049bd80e59de82a60895f562", "sha256");
    t(&hashes::sha256(&m[..64]), "fdeab9acf3710362bd2658cdc9a29e8f9c757fcf9811603a8c447cd1d9151108", "sha256");
    t(&hashes::sha256(&m[..111]), "60780e9451bdc43cf4530ffc95cbb0c4eb24dae2c39f55f334d679e076c08065", "sha256");
    t(&hashes::sha256(&m[..112]), "09373f127d34e61dbbaa8bc4499c87074f2ddb10e1b465f506d7d70a15011979", "sha256");
    t(&hashes::sha256(&m[..131]), "3acc128faf01077789746edcfd1051d90bc1591342402d9b3cdd06d7315702a4", "sha256");
    t(&hashes::sha384(&m[..0]), "38b060a751ac96384cd9327eb1b1e36a21fdb71114be07434c0cc7bf63f6e1da274edebfe76f65fbd51ad2f14898b95b", "sha384");
    t(&hashes::sha384(&m[..55]), "dcedb6b590edb4efa849c801e6b6490657a5c1e64f69269f5f63c9267f6223de24cea7aaa6b267d9bcecc15147b6c875", "sha384");
    t(&hashes::sha384(&m[..56]), "7b9132d597b8873ad55bbc30f18ed3f2c9f340e7de69fb5774056c71a06d9bc2b14137e9e1c68b6b645fed28b188249d", "sha384");
    t(&hashes::sha384(&m[..64]), "9f2c9eb7116b3d7a4ba84a74a4d4eff8a5efcf54b6d7b662693c38577914c73a214766f0a175339bb0895a863824fc0a", "sha384");
    t(&hashes::sha384(&m[..111]), "f5f9fe110d809d34029de262a01b208356caec6e054c7f926b2591f6c9780579d4b59f5578c6f531a84f158a33660cef", "sha384");
    t(&hashes::sha384(&m[..112]), "33ba080ec0ccb378e4e95fed3b26c23aa1a280476e007519ee47f60cd9c5c8a65d627259a9aa2fd33ca06d3c14ee5548", "sha384");
    t(&hashes::sha384(&m[..131]), "961e792c94027a091df880a713ecbca94e7699fa392cca3e4b9988cb95dd46c894ab6cfa3de91236188f7a372b1c60c0", "sha384");
    t(&hashes::sha512(&m[..0]), "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e", "sha512");
    t(&hashes::sha512(&m[..55]), "6856647f269c2ee3d8128f0b25427659d880641ef343300dd3cd4679168f58d6527fda70b4ebc854e2065e172b7d58c1536992c0810599259ba84a2b40c65414", "sha512");
    t(&hashes::sha512(&m[..56]), "8b12b2f6fe400a51d29656e2b8c42a1bbfe6fcf3e425da430db05d1a2dda14790dee20fa8b22d8762afffe4988a5c98a4430d22a17e41e23d90fa61ab75671a9", "sha512");
    t(&hashes::sha512(&m[..64]), "ee4320ebaf3fdb4f2c832b137200c08e235e0fa7bbd0eb1740c7063ba8a0d151da77e003398e1714a955d475b05e3e950b639503b452ec185de4229bc4873949", "sha512");
    t(&hashes::sha512(&m[..111]), "a1a111449b198d9b1f538bad7f3fc1022b3a5b1a5e90a0bc860de8512746cbc31599e6c834de3a3235327af0b51ff57bf7acf1974a73014d9c3953812edc7c8d", "sha512");
    t(&hashes::sha512(&m[..112]), "c5fbd731d19d2ae1180f001be72c2c1aaba1d7b094b3748880e24593b8e117a750e11c1bd867cc2f96dace8c8b74abd2d5c4f236be444e77d30d1916174070b9", "sha512");
    t(&hashes::sha512(&m[..131]), "325638d30c9f63d7cdbaa689b7af8d23826bfe8593b361c7042d3293926146c65c2d6092f20db5068262359860b3e3d502b6034b9ec8e7253a1fbe4b2007b77c", "sha512");
    t(&hashes::sha512_224(&m[..0]), "6ed0dd02806fa89e25de060c19d3ac86cabb87d6a0ddd05c333b84f4", "sha512_224");
    t(&hashes::sha512_224(&m[..55]), "4bc333b55c3237ed85ac21b6b3dfb70987c33ce04e20c2de6142d681", "sha512_224");
    t(&hashes::sha512_224(&m[..56]), "df1bb702813c49110142bc858073e618ab22af52faf8d5f0403d3ff0", "sha512_224");
    t(&hashes::sha512_224(&m[..64]), "9e2437140847453434acb859bc4f842e9fb4a4b55bd9dc164b74cea4", "sha512_224");
    t(&hashes::sha512_224(&m[..111]), "f8810ee322210d0f4cbd7a4e92e7d7e72b63d2777dcb531e13ddd690", "sha512_224");
    t(&hashes::sha512_224(&m[..112]), "8099918892ebbd31215c9bb5e4e53c0b52927b000ced0720d2c65a22", "sha512_224");
    t(&hashes::sha512_224(&m[..131]), "7b95414dab33d2063e798ace54ebc3b59734089bd90782098b493518", "sha512_224");
    t(&hashes::sha512_256(&m[..0]), "c672b8d1ef56ed28ab87c3622c5114069bdd3ad7b8f9737498d0c01ecef0967a", "sha512_256");
    t(&hashes::sha512_256(&m[..55]), "7dd58a7c3285d6436f4b8876a4e3ce63bae92a11a5453c46a6032c5e469bf40c", "sha512_256");
    t(&hashes::sha512_256(&m[..56]), "c06d2d4f6d22414491b36e215de341782922ec36900cfca39f4a707a5379f51a", "sha512_256");
    t(&hashes::sha512_256(&m[..64]), "c9e483b9622515e83259e1e075746b70142cb1217863fb8c85fae33256f4188a", "sha512_256");
    t(&hashes::sha512_256(&m[..111]), "bd209f60b0d04102a09175297fd255367e54b5a5605b928635c606306914363f", "sha512_256");
    t(&hashes::sha512_256(&m[..112]), "2cafeb0882cc405167e9a255b8581a66dc683212474902dd453dbca20a94e61a", "sha512_256");
    t(&hashes::sha512_256(&m[..131]), "662f168860670c947b0954e99dfafaabe57cefe784d4852bd8b2f8f0118a2d6f", "sha512_256");
    t(&hashes::sm3(&m[..0]), "1ab21d8355cfa17f8e61194831e81a8f22bec8c728fefb747ed035eb5082aa2b", "sm3");
    t(&hashes::sm3(&m[..55]), "a79cf9dcee3404abf7f769698201647fd9d3ff61d629d0f58bb4b5579a427db8", "sm3");
    t(&hashes::sm3(&m[..56]), "62f7363b15f4de76dd925c493b9d6d00d4ba0ef2a1f334c1d0f13b293aeb40d1", "sm3");
    t(&hashes::sm3(&m[..64]), "93566f236d157aae078d1ddb5cebdbba1520b5142e22a8915564345ba2ae1d63", "sm3");
    t(&hashes::sm3(&m[..111]), "46ea8ff040518238fb6e34b688209bdcd18b31672c4ba28271045f8c8c312733", "sm3");
    t(&hashes::sm3(&m[..112]), "1c7b0125f4f56aa3e7104b10b25ce1c98e7668720f9a9e2eb21b6de36bbc62e7", "sm3");
    t(&hashes::sm3(&m[..131]), "215e88f9163334a062546e92cf534d569fd6980ecafa72143044b6928df958ea", "sm3");
    t(&keccak::sha3_224(&m[..0]), "6b4e03423667dbb73b6e15454f0eb1abd4597f9a1b078e3f5b5a6bc7", "sha3_224");
    t(&keccak::sha3_224(&m[..71]), "5e31d4bc8904e6e77531e6b975d3dcdd4330c03620e5204bc047ce2e", "sha3_224");
    t(&keccak::sha3_224(&m[..72]), "0fdd8265d5382246a4eb6580df2452ffc3918cf04edd9fed88f566aa", "sha3_224");
    t(&keccak::sha3_224(&m[..131]), "c743e948dde59240651706c46b8cc6d931305dcb7cefd70bd0653368", "sha3_224");
    t(&keccak::sha3_256(&m[..0]), "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a", "sha3_256");
    t(&keccak::sha3_256(&m[..71]), "881ad9ffbd7f090efa51cbdfe93da23a0401f4446f7adf150d1c226851cbfff2", "sha3_256");
    t(&keccak::sha3_256(&m[..72]), "fe58866b2893c6c40ee832ce40fb6eb4c70ff7c4794380d95c2ebeec62decd31", "sha3_256");
    t(&keccak::sha3_256(&m[..131]), "99ec5eb5856241c7aefbff8ef9e245d32fba82e5a99610549c41cf27f3ac0d53", "sha3_256");
    t(&keccak::sha3_384(&m[..0]), "0c63a75b845e4f7d01107d852e4c2485c51a50aaaa94fc61995e71bbee983a2ac3713831264adb47fb6bd1e058d5f004", "sha3_384");
    t(&keccak::sha3_384(&m[..71]), "4bb4db01ac1c1d1a5de657436aca5275e4cae772bd6ab9b358e0ed094202be9600724a5bdfef0461ba7f1dc2427cf155", "sha3_384");
    t(&keccak::sha3_384(&m[..72]), "240914a09175ad5bed4cc2486f1cb2160ee182e3b71e17efe5b82dfc0c8f0a8ad30c1e1a03ce42f31e5ea64074cd6f66", "sha3_384");
    t(&keccak::sha3_384(&m[..131]), "060858a71d11780d60e48b47c1fc6357aa0ab77974a38d1247de8003368e5721c5a3b289f7ab2dd42ebf2c42282f5624", "sha3_384");
    t(&keccak::sha3_512(&m[..0]), "a69f73cca23a9ac5c8b567dc185a756e97c982164fe25859e0d1dcc1475c80a615b2123af1f5f94c11e3e9402c3ac558f500199d95b6d3e301758586281dcd26", "sha3_512");
    t(&keccak::sha3_512(&m[..71]), "3ccc850d53a1287af7b4560b2ef0d43eb5d9a80d62a0e9cf1dbc040135921104d4395168e90bfc871773ebb34bca1bd67056e1cc7dc7a48ff7c3167d389f117c", "sha3_512");
    t(&keccak::sha3_512(&m[..72]), "5d63f2bbe971a983ac6847480106e4e1264ee3a0befd79954914e1d86e795b2e18238f12fc5e46cb9cc78efdec610a93647cc04e1c23d8caaa6a58c21dd26c07", "sha3_512");
    t(&keccak::sha3_512(&m[..131]), "f4a3db8bfee2f2d0e5f9287137bef902d1b78c474445ca56dfd0e8c5769ac90bd427408353bf9440901931f65fbb727a91966cebf229233236e1203641ff06d7", "sha3_512");
    t(&keccak::shake_bits(128, &keccak::to_bits(&m[..0]), 3200, false), "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef263cb1eea988004b93103cfb0aeefd2a686e01fa4a58e8a3639ca8a1e3f9ae57e235b8cc873c23dc62b8d260169afa2f75ab916a58d974918835d25e6a435085b2badfd6dfaac359a5efbb7bcc4b59d538df9a04302e10c8bc1cbf1a0b3a5120ea17cda7cfad765f5623474d368ccca8af0007cd9f5e4c849f167a580b14aabdefaee7eef47cb0fca9767be1fda69419dfb927e9df07348b196691abaeb580b32def58538b8d23f87732ea63b02b4fa0f4873360e2841928cd60dd4cee8cc0d4c922a96188d032675c8ac850933c7aff1533b94c834adbb69c6115bad4692d8619f90b0cdf8a7b9c264029ac185b70b83f2801f2f4b3f70c593ea3aeeb613a7f1b1de33fd75081f592305f2e4526edc09631b10958f464d889f31ba010250fda7f1368ec2967fc84ef2ae9aff268e0b1700affc6820b523a3d917135f2dff2ee06bfe72b3124721d4a26c04e53a75e30e73a7a9c4a95d91c55d495e9f51dd0b5e9d83c6d5e8ce803aa62b8d654db53d09b", "shake128");
    t(&keccak::shake_bits(128, &keccak::to_bits(&m[..131]), 3200, false), "4b2d4ec7ce37c3e43b2114250dc7172249bbf7cff3c5b506e79da9ffc7ae3ed8dfe0289fc9fa6f308376ede1d1b2e1937fff0d8663457ae90363f0a50908302571dd180b6dd5d817a5431c6c87af9e19fb88dc738dbbff16dc49b645399825ff647ac59937190b2dcaa36bb34e61f5c2ebc86a05779e15280c43c64e014313ecbdc8204351da2ec2d3cded5905b875b6a346010f399c4ca3747817160818a676a933c4745fc7a7f0c7a5351951f6d0424750e311f8ddd6bfd13395a603df8efab13fecfb65665ec2439cbb21b25e44eb9567d1b32bb9718ae8cbc08c575323b4a27ef8834b606f40e0e407b7929930b4bb81f4436bd7552e6e722df60ddcf24dc5b1d1120657733667fb64c6e6542fa164a7670613d311bffcc781e56c482db4806921ff152ac0818dc50ab437bdca63109d05a05c74e75516bff089e208c3b3d56e74fb1b1573359ff6d8c85c9d59be82e9b5df53ac02b80d4f58bcc88f780e889db9e8a13da2b6b27133770374f29e8bfb5e63987d03f8a197d6a1418021e5319d15a42980d42b8cbb9212e6259d0c", "shake128");
    t(&keccak::shake_bits(256, &keccak::to_bits(&m[..0]), 3200, false), "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762fd75dc4ddd8c0f200cb05019d67b592f6fc821c49479ab48640292eacb3b7c4be141e96616fb13957692cc7edd0b45ae3dc07223c8e92937bef84bc0eab862853349ec75546f58fb7c2775c38462c5010d846c185c15111e595522a6bcd16cf86f3d122109e3b1fdd943b6aec468a2d621a7c06c6a957c62b54dafc3be87567d677231395f6147293b68ceab7a9e0c58d864e8efde4e1b9a46cbe854713672f5caaae314ed9083dab4b099f8e300f01b8650f1f4b1d8fcf3f3cb53fb8e9eb2ea203bdc970f50ae55428a91f7f53ac266b28419c3778a15fd248d339ede785fb7f5a1aaa96d313eacc890936c173cdcd0fab882c45755feb3aed96d477ff96390bf9a66d1368b208e21f7c10d04a3dbd4e360633e5db4b602601c14cea737db3dcf722632cc77851cbdde2aaf0a33a07b373445df490cc8fc1e4160ff118378f11f0477de055a81a9eda57a4a2cfb0c83929d310912f729ec6cfa36c6ac6a75837143045d791cc85eff5b21932f23861bc", "shake256");
    t(&keccak::shake_bits(256, &keccak::to_bits(&m[..131]), 3200, false), "0bbf6d41d61b71bf8f0412bce760e177fab14bd2c15c4ca2ed18fe0a2c93f160bef28bc2c54dffc3463de4883bc2de5cfa10f13a43cc701462bf9268f01ca61ba0c42feef18125d31339763ad93ac0bcfea29465cb6295a2727e1ec627e1c09b7ab56be25ac741390571767b6404394f9f24d1c318ba887dc89cf48c5b1853707a9638f2c965f7d646ef3bd34ade7b0c9ba40cd38b94ecfedcd3c27e60f57b90ff9ba561170c02e4b904891305df666f1aa4772cfed2e5a0554791f8c0a67aac72576b5e9f9339d9060a14caaf9c8c954fb085f4eb5f8b7c568ec7f178e69e10df14d561925b5ee864098d7052e13a714114abd33d87e377730a7585711b1a0d20588d37ce88e26daed802035d70d27bf194f04c287584957022b96cc59c147b53abe0ae153effde09d538b77aacca8003d42b93b1c0685ffdb2350306f40682a4a8a5c86634b5320dae009462ae0c9bc4080dae827581b409d3f2e45ddd9bfb262a381200a2531bf48a125713460d27b5eaeaf55ad02e7d78b2a4da88ecda9ac9e7922adc0d07f8849e40b5d2ab7894", "shake256");
    // t not a multiple of 8, from the definition with an independent implementation
    let b: Vec<u8> = (0..200).map(|_| 0xa3).collect();
    t(&keccak::sha3_256(&b), "79f38adec5c20307a98ef76e8324afbfd46cfd81b22e3973c65fa1bd9de31787", "sha3 FIPS example");
    let five = [1u8, 1, 0, 0, 1];
    t(&keccak::sha3_bits(224, &five), "ffbad5da96bad71789330206dc6768ecaeb1b32dca6b3301489674ab", "sha3-224 5 bits");
    // ZUC test set 3 and EEA3/EIA3 set 1
    let mut z = zuc::Zuc::new(&unhex("3d4c4be96a82fdaeb58f641db17b455b"), &unhex("84319aa8de6915ca1f6bda6bfbd8c766"));
    let mut w = z.word().to_be_bytes().to_vec();
    w.extend(z.word().to_be_bytes());
    t(&w, "14f1c2723279c419", "zuc");
    let ks = zuc::eea3_stream(0x66035492, 0xf, false, &unhex("173d14ba5003731d7a60049470f00a29"), 24);
    let p = unhex("6cf65340735552ab0c9752fa6f9025fe0bd675d9005875b2");
    t(&modes::xor(&ks, &p), "a6c85fc66afb8533aafc2518dfe784940ee1e4b030238cc8", "eea3");
    let ck = unhex("c9e6cec4607c72db000aefa88385ab0a");
    let m3 = unhex("983b41d47d780c9e1ad11d7eb70391b1de0b35da2dc62f83e7b78d6306ca0ea07e941b7be91348f9fcb170e2217fecd97f9f68adb16e5d7d21e569d280ed775cebde3f4093c5388100000000");
    t(&zuc::eia3_bits(0xa94059da, 0xa, true, &ck, &m3, 0x241), "fae8ff0b", "eia3 set 4");
    t(&zuc::eia3_bits(0, 0, false, &[0; 16], &[0], 1), "c8a9595e", "eia3 set 1");
    // SP 800-38A F.1-F.5 first blocks and SP 800-38B
    let a = aes::Aes::new(&unhex("2b7e151628aed2a6abf7158809cf4f3c"));
    let m2 = unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51");
    let iv = unhex("000102030405060708090a0b0c0d0e0f");
    t(&modes::ecb_e(&a, &m2), "3ad77bb40d7a3660a89ecaf32466ef97f5d3d58503b9699de785895a96fdbaaf", "ecb");
    t(&modes::cbc_e(&a, &iv, &m2), "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2", "cbc");
    t(&modes::cfb_e(&a, &iv, 16, &m2), "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b", "cfb");
    t(&modes::cfb_e(&a, &iv, 1, &m2[..8]), "3b79424c9c0dd436", "cfb8");
    t(&modes::ofb(&a, &iv, &m2), "3b3fd92eb72dad20333449f8e83cfb4a7789508d16918f03f53c52dac54ed825", "ofb");
    let mut c = unhex("f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
    t(&modes::ctr(&a, &mut c, &m2), "874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff", "ctr");
    t(&modes::cbc_d(&a, &iv, &modes::cbc_e(&a, &iv, &m2)), &hex(&m2), "cbc dec");
    t(&modes::cfb_d(&a, &iv, 3, &modes::cfb_e(&a, &iv, 3, &m2)), &hex(&m2), "cfb dec");
    t(&modes::ecb_d(&a, &modes::ecb_e(&a, &m2)), &hex(&m2), "ecb dec");
    t(&modes::cmac(&a, b""), "bb1d6929e95937287fa37d129b756746", "cmac 0");
    t(&modes::cmac(&a, &m2[..16]), "070a16b46b4d4144f79bdd9dd04a287c", "cmac 16");
    t(&modes::cmac(&a, &unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411")), "dfa66747de9ae63030ca32611497c827", "cmac 40");
    t(&hashes::hmac(hashes::sha256, 64, b"Jefe", b"what do ya want for nothing?"), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843", "hmac");
    t(&hashes::hmac(hashes::sha256, 64, &[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54", "hmac long key");
    // curves
    for c in [ec::p224(), ec::p256(), ec::p384(), ec::p521()] {
        let (gx, gy) = c.g.clone().unwrap();
        assert!(c.on(&gx, &gy), "HARNESS-ERROR generator not on curve");
        assert!(c.mul(&c.n, &c.g).is_none(), "HARNESS-ERROR order");
        assert!(c.p.is_prime() && c.n.is_prime(), "HARNESS-ERROR curve primes");
        let k = Big::from_u64(0xdeadbeefcafe);
        assert!(c.mul(&k, &c.g) == c.mul_affine(&k, &c.g), "HARNESS-ERROR jacobian");
        assert!(c.mul(&c.n.sub(&Big::one()), &c.g) == c.neg(&c.g), "HARNESS-ERROR neg");
        n += 5;
    }
    // big integers
    let mut r = Rng::new(7);
    for i in 0..40 {
        let m = Big::from_be(&r.bytes(1 + 7 * (i % 9))).add(&Big::from_u64(3));
        let (x, y) = (Big::from_be(&r.bytes(40)), Big::from_be(&r.bytes(33)));
        let (q, rem) = x.divrem(&m);
        assert!(q.mul(&m).add(&rem) == x && rem < m, "HARNESS-ERROR divrem");
        assert!(x.mulm(&y, &m) == y.rem(&m).mulm(&x.rem(&m), &m), "HARNESS-ERROR mulm");
        if let Some(iv) = x.rem(&m).invm(&m) {
            assert!(iv.mulm(&x, &m) == Big::one().rem(&m), "HARNESS-ERROR invm");
        }
        let e = Big::from_u64(11);
        let mut acc = Big::one().rem(&m);
        for _ in 0..11 {
            acc = acc.mulm(&x, &m);
        }
        assert!(x.powm(&e, &m) == acc, "HARNESS-ERROR powm");
        n += 4;
    }
    n
}
