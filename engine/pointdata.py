"written by tools/mkpoints.py"
S1 = [
 (0x0, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaa9),
 (0x4, 0xa989badd40d6212b33cffc3f3763e9bc760f988c9926b26da9dd85e928483446346b8ed00e1de5d5ea93e354abe706c),
 (0x5, 0xd3c6da1211ebe797bc0790f1e6e7d669b180a8e59196825506d2bb2185f53715df092c8a7ceb64843ea7df67dbad60d),
 (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaa8, 0x963d0cce692ef96d010fbf28e5fba2e7d1701f0fb5a88b00972e73c52ba49928552d797695fd01f4253a9849d045ba1),
 (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555, 0x34adce4b9d7b18260003fdb6604ae266e18cbd396670efa462208bc5df081743995536a171ccff0c3d4bfc5f1c15dca),
 (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd554, 0xd9e920f7d67148b4b5180cdec803e215453c36dd2637edc602cb61a22590c43b305599fbf621503924c25e472762fb0),
 (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd557, 0x3700fb0f93a1a29a1ce6b38aea02c0ae54f11b468dd0eb6b24f1594a31bcb1eaa0da0e47a325cc7a0bdeefb6c618534),
 (0xffffffffffffffff, 0x18b1b5956a73ae5177c71b0345d8f2562024be25e84d71502f69eb9204bee84dd39f0dc4ec92576e8281ea7411687878),
 (0x100000000, 0x97b57f2b2fb7ab10581688f503a37a6212a6298921d71a942c070d46c0c373c36ae6bf0a431af3906522ad2caa8d0fb),
 (0xffffffff00000000, 0x1422c31639b864941a659233912d556ea10ea7b1f619aa3694ba0e24609f67c855321c055ff2b22c058b14d11ce7e530),
 (0x80000000000000000000000000000000, 0xf18c11ac3c78ed0f6c1430cbcd31084750578dae82c05128dfd9df07817fc715be42fa71f1daee0d3032b8ddbfe7995),
 (0xffffffff000000000000000000000000, 0x383aa66f2a4e348cf2ddc1ab09a7f3f891a4253642b93343e08f90a32833b7a4bd081c3e95a6098b3b9ee6828776cbc),
 (0xffffffffffffffff00000000000000000000000000000000, 0x6f7c2adc10901d8acec5fea2a63415cf61710d82a686aa738090277067f1765377d5297ce6114d185e4346734788b17),
 (0x100000000000000000000000000000001, 0x174b0e927699ffb2fadad3249ac85abadf409ebe649a742957a16d431dc8ae2c8938b57ccc3e6e7d1b99db8df6cd564e),
 (0x10000000000000000000000000000000000000000, 0xf8a62468c3a439718a441be7adb72b705d4c61c1dcb174982f67fc3253ef87020eca6804523a886e9e31a882895cdac),
 (0xffffffff0000000000000000000000000000000000000000, 0x1202844e8fe53e528d4c22f1d85d972aee8ba3c355dd84935495e23ca3620e09cbf86f9fa7404e685da3f8f096b11acb),
 (0x1000000000000000000000000000000000000000000000000, 0x1781cb60f7c15d8d9f3a07d4fce62d17abed9fa535848ba77ad9a5b481b316468138b7fe66ffaf3d4a48d1d7b94edc79),
 (0xffffffffffffffffffffffffffffffffffffffffffffffff, 0x4226e32a57cd9971198a84ce60eeb8b966b6dbdb07411c1034bea8b810ff8f5b2850ed351b109f51c961f51768599be),
 (0xffffffffffffffff000000000000000000000000000000000000000000000000, 0xa81b0ef9591ddc465652d4568c4c3b43b6fd695e40acdd0e157879c9e78edebd98788f2cd213dd111ef346b8b645ad2),
 (0x8000000000000000000000000000000000000000000000000000000000000000, 0xc7c2dee799d989e74e76250ee300dd1d1bc7c72ce477ebcc0a9ab3f180731f00516dc080bd871f8f94ec4b028b90c6),
 (0x10000000000000000000000000000000000000000000000000000000000000000, 0x483555ec4a93dc3e2099856a91d1d57b2e52cc995f39f7d7235d86ebffd53f2059be212cdf78e6885ecfc7374ef2c8a),
 (0xffffffffffffffff0000000000000000000000000000000000000000000000000000000000000000, 0xfd637a4a2dac07f8b3462be52fbd097d26339eb972cef9f42b1841d2312af4f3a935f0d77188f259ce81bd420c64e9a),
 (0x80000000000000000000000000000000000000000000000000000000000000000000000000000000, 0x1477b7b73020d011ad946b724776b05285e2126fbe60ac492066c0fc67828bda50f8008b2973188c577d061aef7685ec),
 (0x10000000000000000000000000000000000000000000000000000000000000001, 0xe447fa9d14f3ef691315c01a74732ac7d90c966e5f6c5e6ab6fe2b0ef492f06cb8e2a6df51e733a2c815a43518a653d),
 (0x1000000000000000000000000000000000000000000000000000000000000000000000000, 0x931f71cf6235511182dc7bdb5461bfaedee26353f1118d159ae5459035060e9a8d051c54c9b20e4ac375d502b99809e),
 (0xffffffff000000000000000000000000000000000000000000000000000000000000000000000000, 0xe9dad25389ebf5a19394d08ce3d78109b09d476e6ccdede700b7f9c162c31255b56cc4e035c16ca1caf78a75543eabe),
 (0x100000000000000000000000000000000000000000000000000000000000000000000000000000001, 0x2c7ae2b9d22415c511dfb7f7e9934def216987ef003195a1cde9058098c29b9620470bacbf4e648710e27cbb734c636),
 (0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820, 0x11fa07314ce188d3f12439430baf70ba5d9b6c7d5ab12260d90281bca65563c1f3ff6ba46a9c79fe1d318adebfa2f07f),
 (0xffc7c19987633398fa120983552fa3ecab80aa3bdcc0913014c80513279e56ce11624eaffddf5f82fa804b27016e595, 0x832a16ab8084a8fcff6d65a821f91087ce2d606723bbc3551058d98bb567dd5b1bacd1b592a847051f540edcbb1a586),
 (0xafa313147f1598931e3dd092e56a0f27dd86a3322ef843cce5a5729505e5d11424b37612722f0f46a7c870ba822830a, 0x13f2f54dc4991bc378d95ae9407659032b0569fdabc24e92c8d47134f4e66796859e02fca7cca5c9fa83049bf55d56a1),
 (0x551502e54ddd4616ac265690023f030cb97982458caa4960ade410ef3e08b64b96f5dfe2712a66052adc4f0aa518092, 0xe8d60ae72189561defb05b880211ea9b6bfd36d6657a822811d7614f178cc42c1921bc05d6a8946386b58118e8b3be0),
 (0xac5442277c0ed4118f845de932c9d0b18c393da7ab4e416a877d3ef7d7ded2f8ec4c3e7ce18c12f2248fcdc23db76d1, 0x34b89872b87fb1416e4aacf8508abb04d64f6e17182fe2c9718af48e12014c321afde4ef2d74bf93498c551a31ecc81),
 (0x120099d045ff4c6833d82a5783e2afb7eb8db4a6039f71b6659b67c4e9b10d57cd4f0bd09fd962642e14b9eca501b9bf, 0x27f74b61ec7985ed07ee536f18747a5376a53b296f957d5725a0077b6d84c80f17ba6a9c19c5bf0f99dae4c3b207e5b),
 (0xc5cf6f334ab520bf52138cef58b99775aa7686278c12f7692b56208caab00762d7e91174a7f9e1d3a459a28e575f732, 0xc4493695c3cc726d2284bd495ad252cc492e7446937ca8cd265c1958a4d3599570f5de7ee3fd4ce15924774394e87a8),
 (0x5a3a2dd1153fa5c3eb6f1888e57164090e64c438ade423fd2e605bc1f060ce19fd07ab95559c446f3cf1fc3bf8bc28d, 0x112d8852e2647d875aaf753873a4afea51f535bd8b425c62afef97b917cd91d563d19b3b039a866ce471e17d325cc1cc),
 (0xf5e718d8fc43dd77596dce44303cc75cd481b3c41efc993517450830eefdf5aabcd4402632eb33f14a3761eab5ca987, 0x15c8f5db43395321ce19b03da96734427896bd98233247f08a5d70090e76ce83b27eb5fc5f802119cbde1b97aa019425),
 (0x7a4732b06bfe8411bfe910247db3c8e6b2539da5c8c2cf947194069bcdcb658c04cb5581565b428de9cc174c19972c3, 0x90ae251312918f838ace2ccf0587b3cf49609054bf1f16909d7c245efd8cef292524015817a252f863058377bfd3f57),
 (0x19b34cf604824c453c7ccc1a2ad5510fec358b2ca65f3b16c0ea900a47dc1d749e978f73b271e0607e8fa868ca8da6af, 0x18722bddad6a2a4e69082f69fce5a07ebff6dc01016c09642e55dd08f6117ca094d77ff31f18574954ce8e80539e1a1f),
 (0xdd6b243b50359f61050a1011154484f834103619f80bf7009a9b3f0914c8c60c6f24d66c92c728b004dd35a897cfa41, 0x4dc13ea0d2d08c8eff2d14d6aeb8077a155cb34ca51b3cff04608aea48113320162426d2900d9e7a79d6ec86a17b35c),
 (0x756ae36d1c24dec0d5fb5662f64e0c6f2e379820f665550a0d2fdd30e07dda9403844cd16839489a32d69dd8c276ec7, 0x1255ff9d10c81f9837c39c6dce1e5125302552692404bd7bc92493ad645dcb303e882c402ff156797096fb147459417e),
 (0x121382c8be8c943ad9c4c62bede187be41107e29cfa78386c0f3990a7d0458021116b0334fbeda75b52127aa43cd3974, 0x12c1411ff1a59facb49ba41314fcbf3b3c3fd336617a6d6c3ab0a5a4c9020defa40c84572847b9bedf5b68771567d4c0),
 (0x9b4315ed2bd64fb6cd1b3a25ce4ce2c8aa46eca809608573d0feb2589edf64dfbee93c7723e87ddea2474c50e210be3, 0xf62399211511eb497e46f8414ba9c31f965de76ecca7a231ee4802ac05e96a0110973acda83549a519e5b4dc511a01e),
 (0x17acae9bb842725e9b7935df1ae3255cbe7372737efb4244f94ffdf5cac4a0d67d3ea8bb738b7079dbfd13c93bcc9e6f, 0xe77b3797de3d678a87fea393909bb34f9277a820c6ea80b485f944c120d8d08bb0a523274d2c5658c05849e67ccc20d),
 (0x41b058bd90786d7ab1d43ef2fe3308e0d417a80d142499904b3863a3c2dad798fc69b3f4e71f1d9c34888a61621a6e8, 0xb8decbb2ce0c082b9131a4003c1a85c52d6fc52af91ccf2fed7285433bb5ef7b8470e86951b5d5e7dcd9510ad903fc3),
 (0x91d5074298c608808da877e36df89da5a211af16c1ece6f37a5af621e4935d52e9188c9272cf6dd8874064cde160973, 0x131b91d6c66311905714ab8c80b17f2c5047b7518618acc62e95056d96dc1d232cd82a4e2a5f772581a9cf9e7f717ecd),
 (0x9e8560f44f935b681e2891ff236e6cd5275571151f8f1ca5d6fffaa60e24136cd886e4ddab1c7c9a702216ea7e5fd20, 0x7c611405161eed897c866ec29d70a1f6c6f1d4da75c77abf5bc09a523ccc657625f3bc12ab8fa7b4f35078777739583),
 (0x701adcd8f005e47167fe687910d0badafdb68c9119d9db1b111c2f24e87f7582ea784c69491dcd1b525550a5f03d204, 0xcdcabce2dbaf73ee002d54291df6cae5a90c9ec9852cd3fc48f9505847e6a1a0cac4257edc2dc383c97bf99693d4750),
 (0x1919cc8dc20293c1987ba8166c32841924d9259529ead78238f22fb350c31b420fa7adb4270aecd5b81c0aff4e2cef08, 0x11f8c836f358730faf83d231b9ed17d8db67c78adecd90a2c63034a8daf73193203432691244cf07663d7ea198f87e04),
 (0x16202514de465607c5a8eeb2b65a67856c84db6ba064bcaa40f40ee7ec89c130e130841dd06de91addb3b460e662617a, 0xb42771e73a684a11523e725d828047ac7478f979410f84f61c9de52777f3b5476c5b70eb5a63025cdebf2d84f12f84),
 (0xe035b9b1e00bc8e2cffcd0f221a175b5fb6d192233b3b63622385e49d0feeb05d4f098d2923b9a36a4aaa14be07a408, 0x11363da5b5eb55013e619143f5bb90a68625355415ed365873290ba5bececf2e1230defcb5881a28fcf7cbb0d5b41c32),
 (0x1305a6836e85963e8abd109e291670a7ac967202be17c0399515af0c7f2b770bfc19f71701debea72f7627bb85fc0693, 0x15fd20712ea5250c6c202d2f44c1cb11e7b103eddf5bb135ccb59abe658d080d1902994b4681f4c1b500c7322180954d),
 (0xf81ae6945026025546c75a2a5240311d8ab75fac730cbcacd117de46c663f3fdebb76c445078281bf953ed363fa069b, 0x176567ae4205a1ef9862d96ebf3d8787adf76ba979be3abc3aa672ebd2a16d3f2f7d8ff073a80fc7ae5ab924c82c1cc9),
 (0xa7f6380f47d8674f6af32139e27a9c58bcbd58a2c5446f49a1f54bc8a4ab6e43ff0893a6c4c7d7dfa69c12c9c05a410, 0x18f4c83d1565f0a982b99605fa30b1e88e835adffa49c256c216f97ae9ee36ae257cb1194d6790c775ae9b78a210998f),
 (0xf1ca20c7311d8a3c2ce6f447ed4d57b1e2feb89414c343c1027c4d1c386bbc4cd613e30d8f16adfffffffffffffffff, 0xb522e69eb51ddbe45aeba3be6ff29c3d0d7165728e85b127a80d1bd5a5c06a9d4363a05d0f81ffbe54a890aaaa0c67),
 (0xfcedb8b58253d68b2b7dbe99a05b1f4d3f51b27b73474ab673a58c1d1f8ddb8a3e82c627c3ed1e350b8b397173d47cf, 0x1ad8ff1936ee6b7076eef70f2e0f16f6e279f0dc2949b43e91f50b91a10c6022feadf072e4796abad9907ebe887048b),
 (0x7ce637164a4a3369b745e8ada9cb4d55b0b8448c74ed3a265a4ede5c4f8f4ec528b38346ac43447c4ce6d83bc3f56e3, 0x8332d6d4923c0a85e1b1ae6c6b904efe6bff64e32a2536b0cc5586a492345304880094ba84700739cc44ec722c7090b),
 (0x190cb53aa67019f7c1cd9dc7c2712734296a16cf7136e809c981d9c987618397710684c0195c1d01c457391962a2ee47, 0xb72099c24d58a17220403dfa4f0779720f92f534c7000a848ac4e76b04b09d0b6c8798aa8f24e1739b4e6f91ee3cc47),
 (0x818d762762c5dd4c91a02477abf52fbce6c54c7ff5f6a0073862eca07daba23e12e3a0c050f6226c469dd133da9c06c, 0x33a09028337ae8ce630e5a4794828b7a1f4984ea30977e2f1457e029e31c75a3dc4ba87f784f73d632cf898b732b19d),
 (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f62400000000000000000000000000000000, 0x1595b2550a4b380a0cfa7c2b0ee28ab55d33b0ed25e6d93db108379a644f9f5ef91f0e68a106d13f5edd90c3f07f31ed),
 (0x4c7a26cdb88f5be4c579701683420555ea1cb4b1ed2e62243fb356a44e3656d1d6722ede2f57abb955a4cb02043e875, 0x13f4ad6c6d89531cb82df5a470a88c0812bc054a24dda6592983e9cfe9104944c01ebbe26881fede6d305e94b3c0cf5d),
 (0x479dd78a68b5b693db8bb654fbdc48de6600af2d1ad0e799db4f2d3960e8cbd9d52b262e4135b1c59eaf518ead1e479, 0x6e8d3ba7493af2916b7e58090ad220fe8ffd4f7eb48b6d71e831e78561984a6d43ca2348cce86749e34e4473bb93ca2),
 (0x11b106917eed8d14f06d3fef701966a0c381e88f38c0c8fdffffffffffffffffb9d179e06c0fd4f5f8130c4237730edf, 0x9660a66a8f3550ac14c26d01c014b2310409edb01829258d2386cc3fee02fc2734afbf81b3aab3f9092f149eec2222b),
 (0x89bb345a914860d0d4a3660f80d3453d7df0f9a8f2b48d19a2d541e403bd71a27ddfd90bbff4fa0d895934bebc5b5d2, 0x36c3b05b8b2d92ef8d0ba1fc67e1ce7591952e8dc6e21e0d0960a29cd371e9d52748fc28b7e226859864c8a11957154),
 (0x97c07b6dc2574bdb94067edfe175330000000000000000019999e3fa46d6753ec148cb48e73ca47ea90a8f0d66b829e, 0x76e2f728fb3a7c9b037e23b64c0e1edc402fb59974cb0902d29fd525742662bced1713576ae482d55da40af03521b6),
 (0x97c07b6dc2574bdb94067edfe175330ffffffffffffffff19999e3fa46d6753ec148cb48e73ca47ea90a8f0d66b829e, 0x1730b7320e6ddd1a96f092e408e256c2b10066eaadb7351a4eb99abf899b9e5909cd2e8fafd51303fb9b892977440065),
 (0x4be879818fdb14c82c85aaa6bbf3ddc67ee28b0bd88d5873dfff8c4e081e867a2a0e2df7988dc3bd2731ccdede1b489, 0xb7552cb28822e392a5e8bacb846f5303411340fc31788d948163d433f30bcfe9732fe48439a5f6cdb3d974ae983fcb9),
 (0x32340631055abbb1d2acf5b468dd820094fd81b2f6f162f3f336568a58201a98ea29b357953fae909fcf29672035625, 0x171f1ae954f8d079759d211aef6c575ecd227516c1cf37dcfff2abfbf71e5fcdbea9d4b2e12f02baea5a2f0bbd949dc0),
 (0x154594356a107b75ffffffffffffffffbe6521cc3e2434e37af027bc08d6af57da71144896c8da1964b2d2bc815a47c5, 0xb131481957e9a7490445fd7a8dae4faa8b173a234cb0065f1ec44ec92cfb3c9ae94634303a6e87588cdd25f65aef717),
 (0x75ab9a3915f2137c066055a4dd9abf72c184d477dd69c6a9374549b993673b39858f7def268b3602514f4c8ac99df6, 0xd1b9ff21b829408ba1a30cc84d2705e92bb8f82470766b391f337eeae9820ad36cc20a337e8c1058a64f5e4bd17c5f1),
 (0xc21cdb1a3b20486467604a028eaacc54439f29283abea402b6e71edafbef78d279a11dc905f4e7a18e9d42d20d7445d, 0x32bf4791389f312f124e21c22170e76a1a974ff0d5c72f11d3b1aaf5c2c2ca887b6ad906816ea1c3ae34b761ad3f17a),
 (0xbb968a437d5c8dfc5eda92d864ac5db9d707107e855c384429e821a4c74803e31ba1621582283d15, 0x1852d4d041df9bb1c9669b9938c2fda70a9b996188e7ee7e5dac636fa2c393b0863dba76da024b3bf4b18342f671cf5b),
 (0xfcf1035df70aca8413332d47e09a03d9d3a877b32ca23f48c8b49aed4de14ccdcd4177b8a874763365840808687892, 0xf7f19273b3a3837fb8bf6e0b378cbf75814133593f4b35e42e4a783afd1503c17e50d9b1571204e305745a31ec2a8d0),
 (0x0, 0x2),
 (0xfb1245b813f57ebe91389bec8f80c6c6a82e3c89e795d816c61150e0d6b94f06d2f77d912a02eb0ea718b9720000976, 0x7),
 (0x1a9bea365870aaef684ba91c00d7819aa3e9b2a43c6e7c2980b82dbe31ddf21de29f5c50a7b106704eb4c88c46c839a, 0x10000000000000000),
 (0xa8389ea183126725d35bea5e7a423fbac16b9f41ced30d07914cd759287ea7c49754481877c04031116f2232c9e9519, 0xffffffffffffffff0000000000000000),
 (0xbef93598bbe2fbcb08c5f579f9a2ba3d95fa761bb8d21727e6f6efe98d895cc02dc805e358165e14a7672181e152764, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab),
 (0xc6254718b993ab076f4d11f462be6f367134b52b0f4e4d3d4fd172cd7943e9996ea5fb8578d2c6662c6c6e950b499bb, 0xffffffffffffffffffffffffffffffff),
 (0x6220384d103c438a9d891bec269cd872e6b68ab01da432a82a23ccfbe408676507156a0f84cba8c40f851cd9ebdea3, 0x100000000000000000000000000000001),
 (0xdf63b5b2461eaac5a74c372f030b27506ce78f06083bc91a6ba87888a892243e1628c0da7bbebd5869fc3c489169162, 0xffffffff00000000000000000000000000000000),
 (0x14c5fe0843126cc85d4a9324c17bfe0e3e656bb63e82a122a84ff00505df7d438c4eac878fcd835fe3227457c9908a91, 0xffffffff0000000000000000000000000000000000000000),
 (0xb691963a0cda56971a0322907c87ec6d72e1dc595fc00f092aabe551e8904fcd4552813e54da59e50bab4bfb9cff38f, 0xffffffffffffffff000000000000000000000000000000000000000000000000),
 (0x1479c5b9690c38ab364dcb665d27701eb80ed54b297d74a4b14bd6080e474a134cebb94c22f4f937c324903da9ad4209, 0x100000000000000000000000000000000000000000000000000000000),
 (0xfd23ee7dfcad5a1aaa68874f07dc24dacb73e4d720805156924b54faf36bf72aa74cab30c715dbcc6a8e767e8e3549c, 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff),
 (0x1812a10d935569d93beae57441d245d947d500f48a6951f24cc70439dd683c45df676c58edde7968fd547472f9b7acfb, 0x80000000000000000000000000000000000000000000000000000000000000000000000000000000),
 (0x7482483e877f55a49d5bc27c314d6d0b3f746ae5b3eccb0965c85e1bc64e5bc590d670aefba671ca5982ef110cf7f0d, 0x10000000000000000000000000000000000000000000000000000000000000001),
 (0x12ef893a8904cfc8ef004392f4be15ac2c27aee95d1fc79e7d9447497100223f075fe2de59a2fb1eee0980eb72f9a0db, 0xffffffff0000000000000000000000000000000000000000000000000000000000000000),
 (0xc072f89ea60ddfe6e6f5cdec7b9ce1f8d3413394980890a4b129d89b60b336f5638d2f8e7cbd217c2808c65e5aad955, 0x100000000000000000000000000000000000000000000000000000000000000000000000000000000),
 (0x570846bb7066aabc0e86fbe6f41128a30e884ffd8071aba54d231fed43705a6ad7c59a482c2848449837880ec2ac036, 0x10000000000000000000000000000000000000000000000000000000000000000000000000000000000000000),
 (0xedbbc3ba345678689d738ace653ee26e8643d59cf858f642431fd3ed0c1bb3195edf2dd0eda0046db18476f35bdfb84, 0xffffffff00000000000000000000000000000000000000000000000000000000000000000000000000000000),
 (0x68f711a182599cc5661a86d386927cba9ab348b801fa8c1d5a47b311a2bd57c2dfcc74fcbfcb38e7cd48da32379eaf9, 0xffc7c19987633398fa120983552fa3ecab80aa3bdcc0913014c80513279e56ce11624eaffddf5f82fa804b27016e595),
 (0x1061651294107c7e08e12ee113262325114d73f4b8b8b60f6f93370f2cd62a01f4b5d5ce630fe8d21c73f35edb011122, 0xafa313147f1598931e3dd092e56a0f27dd86a3322ef843cce5a5729505e5d11424b37612722f0f46a7c870ba822830a),
 (0x153d71ba345243c9e161ab5a13bb1e295b6762b15d095057d82d5c8a19ccf96aa9f428ab1d5c094bad4039524ef2edf3, 0x4dfa722827f95321a49c88274179ca2cb4b3cded1bce9eba036d7564c5eb1f582e4e59e58c79095483e0aabf8bbecde),
 (0x12b165ea8eb10b7229ac9cbdc0f6b5fe813ee3264bc678710bed3e0015f1faac42df3e8b3991743aeefe88091ab9412, 0x120099d045ff4c6833d82a5783e2afb7eb8db4a6039f71b6659b67c4e9b10d57cd4f0bd09fd962642e14b9eca501b9bf),
 (0x107d0a50f80849fde0e1a6d5acb71fa6316f6324ef7743453d634cb04e27dcd9485c56c9a6ebb6ecbe46fb5f22c2a4cf, 0x15114215b1d87485f20a6b9a06f71a10f22ccb4e0d7d4118a138ba0ed6096fe90c0e3e71e5557928cb8a1e6fcd2881c),
 (0x19fbf376e8b1dcdbc00f911b6763fa34938c7e603a0981239894d8d02f25da89a4f11726ac976c7f2dce4b64f648d23, 0x16ff974fde66facecaa603a0f5d379d8f1d698ab2a5678a2a871e426b26c173fa05d4d1398a4eadddfa1240a3a18f856),
 (0x78032fe60dfb707fc466696f5d37318d2d4c77f0430ff2ae24ef5ccc7512fb3a5b94cee778a49d98174f3c309584a38, 0x12a31a7409eba1dd7d138eb943443bd5301ec88ba44e83d36f06a5595f62aa6d0b6aba19ee447c2ef00f61b6219861e),
 (0x27effc1beb841ac5c819cfa9194228ee56413e9f793f2eb9aacdb1a7e46967686de6b7dc57b7f8f6e543b96067c12c, 0x17a0ef449f361b7aab9fb19a7d2e36cd35dd447e1a58360c4865c0baef569bc5a162da431543aa210e44c62731b05858),
 (0x1544a4e1e3df03df92789a150e51c350fe2a5a86a0c96676b415b549031c42ea0dde3348279f75ea6573eba9770385a8, 0xe7ec2f505ba00dfea6d788c5a5fec02873a2134c88e23c9cb67f35b9150bf10f92709db25f01cfa97b318dc3ab5bca6),
 (0xfb427212e002e88eab96c6c12927dd7c21d7e7cfc210072174562ae67fce1765c46a85ebc375f3b254fc513e6e95847, 0xbdc9ab24f7ef24f2c2c2b19198108c068f487cb06de7ba6b740dc19b68f9113d7a5420ce9456dd57e41d50e4110ac6e),
 (0xb3cfe9af431f899e18e2b28095ac4bd85cc1a2310b5908b04d8eedb85813e3322c6a4cee15cf733868ee4a7abf03454, 0xdd6b243b50359f61050a1011154484f834103619f80bf7009a9b3f0914c8c60c6f24d66c92c728b004dd35a897cfa41),
 (0x2bf9b18818f535be04b6a2d67a1989cef252b5fc5a07fdf8f1357ed3b31a804130c10b40e24e7adc36b5a305da07259, 0x1c6a23d57ca129bfb7ad218077aa913673da16f5cb8791e96d2b18f1041582bee5943fc10a96253e5469c6f51ee9aac),
 (0x2570a60e3f64cfd5c2448287f83d615d72fb1a0220d9845a920039e1fff022da64d06a979caa2e3605da3751cfb6b05, 0x17532a506a3881259d00d5fe64b7db05bd9b8425cd325e63a21f7e244081c316214e69b816618a81d2d56e8ffc3e545c),
 (0xe2ef876a2e9c191564935071d7624fae0687b597f8b37b35f4f6122739928059f6c62ffb9f464fac07a3681d768cfae, 0x41b058bd90786d7ab1d43ef2fe3308e0d417a80d142499904b3863a3c2dad798fc69b3f4e71f1d9c34888a61621a6e8),
 (0x68a26ba134ebfd6c70060302ce42e90cd0a9b44aaa6ccc366589c7de918fff69d1ef7c5c41f799e3b1692eb761bcd51, 0x91d5074298c608808da877e36df89da5a211af16c1ece6f37a5af621e4935d52e9188c9272cf6dd8874064cde160973),
 (0x16cbf377662619d2b89762d30ffec62c8f9d06813e3492b313e7e67cdd9518388c0472f5a4195c4c2bc43e67aa71c4c, 0x701adcd8f005e47167fe687910d0badafdb68c9119d9db1b111c2f24e87f7582ea784c69491dcd1b525550a5f03d204),
 (0x14c90ebc98ec6d41088b8b06538d7a2b994e2098efc18b678501e84a99b1395cfad24e79da105361ed1476ae2633089, 0x12051f89053ecf301a8baac3867736f75f4360eacf2273113c4088adb05c13b75169e8de81fbf7411a6b2bbad040ba92),
 (0x2e653d3303143381c0f783f89d9835f790545602d8f4fdc29f83dde264f7d65ac9efbfda81b772e336dbdb5a143f76, 0x15e60c5e60785fc29ffe63c713687c495735d1042242c926627d4c66ba8348aa8ee564bf62e20e25f6b67759e9de03c3),
 (0x2f15d9a78c8c467dad7a4beba6cd19cfcffe279db70628f39e48950dc6ced62c698d785c41800976bada525a90d54ea, 0x1305a6836e85963e8abd109e291670a7ac967202be17c0399515af0c7f2b770bfc19f71701debea72f7627bb85fc0693),
 (0x9817aa6f1f8103910662f3d4f980d4d0f7c081978b88901f99aa404208b38dafc85c3466c854e9c5b8dbc7d7197266f, 0x90110b2cd7be2ddcf4289801b1dbe0f12d73121885eb68d2f315cbcbaf46654be841c035068b49fa51f2c6df613417d),
 (0x1993e3e5728674b7ff9d20d387eeefb0c7f18bc4f0717876a0749a615619b822e205edbdcebfdb1b2ec445330300690b, 0xbfd684b97bd47cdbdcd458548bbd47634574606c0551a3df23fdeebac2bab7dfaddb8012c3032643bb927ef13fb06a4),
 (0x133a9c94077e8c0c28c6681d79aad41ff4d4fe5c7c07b7fd07c7e0c828ec15f397951da0b709c6ca3a37c383bcff446, 0xa0495d0a109b360bb7a871e0df8b29899bf40e135b909ac65e4524fc43710b73d95db13b1760a078a56fb4d8fe8c516),
 (0x140319cfcf0aacd7fafeb528faa2a4f4b8828f2c06b60f9df6b6816d54ad0d852bc24d8e18eb8b8e9214fe49983cc445, 0x1623ced6f0dd884f30428698afd93f56ae607eca77431f645c1aac501487784455bb5256f7c99793b621e5c3bd10c911),
 (0x5143d69c0d825f621bb600ca71aa3fffe9701148890bd1289fd4f4d3c7043cec11ac9b2d77de3085c4e77c376885822, 0x911df0e187c3510f42b2646d2f411fa20f921de7e883fffb33f346341f5aa9c751b908098cad9ba9c221dd5440b3a9c),
 (0xf0de02f54530520b181f57e5e5740405581f520bf6155e640da40207bf6d9779e2356c1cd69692ed9a95a3dceca7070, 0xe1429f669010ec151e869d5d9f06b466dd8c24f1964c4d5e6315d8b241132f813e67e0a7185debe614d9b7c0bff9d27),
 (0x2ca8466b45753149b4f92e98cfd16769d7e69acf7c9a916030a7cafcec497445cec65681c6004dd88bca91b0227da01, 0x34571e3f1fd42a29755d4c13a902931cd447e35b8b6d8fe442e3d437204e52d0000000000000000c4647159c324c985),
 (0x109bee313490cc4a9756a16eaf33f29564d16df20c78a9288f842785a420cb4b184fd000e703b885740db3d6c64b6be6, 0x7ce637164a4a3369b745e8ada9cb4d55b0b8448c74ed3a265a4ede5c4f8f4ec528b38346ac43447c4ce6d83bc3f56e3),
 (0xedb98ec531f84d86e624e489e6f8ad262053f90da30f27b1d8953db7255a76a736b87480055e3c3d974c90798b4d494, 0x190cb53aa67019f7c1cd9dc7c2712734296a16cf7136e809c981d9c987618397710684c0195c1d01c457391962a2ee47),
 (0x55ba2f87a405b3a1b33896992f03958529338818155c80d32effe0eba4c2f3dd35c0934a60e0935b0fadcb6709266a5, 0x11b106917eed8d14f06d3fef701966a0c381e88f38c0c8fd0000000000000000b9d179e06c0fd4f5f8130c4237730edf),
 (0x1504013028e84f1d41b03d748eecedb42303c6e3ba083364997111760a4b586e209901a07e5f5b59b8fd207efdde8971, 0x11b106917eed8d14f06d3fef701966a0c381e88f38c0c8fdffffffffffffffffb9d179e06c0fd4f5f8130c4237730edf),
 (0x16fd00be79e2591287b2b90f1c1bb0a8250a68c414013778fb7e6598a0dcef777dcc6b2404e86f7fad6633a86de07a39, 0x5f57063f22b3c5ffbe67307518cd151a34b2a36455f7bdfd1816c72df0847ab8fc421767da85eb961e9543196080fa4),
 (0x41581e64d648de1fa1d73cc34c419f6e2ed7d36fd7d7b9c58e16cd4a4bde51ffbc0015762e45b3815510460dccfef7f, 0xf3b306118ca9d772307560c806787fc18c7cb487f3cfae4ea6e83b1d49e5b7d093a4f29424c18ba1186b8de840d75d1),
 (0x1bfcf6c5e021444247d4434b5abe8bf974cc38d8e06ecb5bd8788a9a1543a7b592999752ea81668500645a0352667cd, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf000000000000000000000000000000000000000000000000),
 (0x700c7a6aa425abae3c442b4f1d91c43c8cffe447b5cdd2ebbac4e4daa9d13eb587a8cc290febaf25fdfdb94c951a9de, 0xa62558300de98a908c50878ff87dd673f1cb109ebe3c1f0310005ad507d2f461637418ccca8b1f4bddc2fbb3db4507e),
 (0xe56a42e436558c4fdd1c4b1757556f246b8738a73c607fc1443793c56ff894982acb049f0592dbf7d62459eec27f8de, 0xec76c96049d32b1da03d007d802b70eeeddd5c8442a294bed8c9f3b682b4c270e850bcafcb88f5cd9e6155af3da6531),
 (0x19be7e729ee63675f9e96c4508a34069ca68e56b7c830daefa2142fb071a60e0e8f77792ccd3c0275f0911de2c2cbef8, 0x803468b6b610a9f7000000000000000000000000000000000000000000000000),
 (0xc761bc57851a91bc495c002412adfddb36f91bd54566fc37dc888d45addbc43d8d26b1ee37c869807351f9e6b756157, 0x32340631055abbb1d2acf5b468dd820094fd81b2f6f162f3f336568a58201a98ea29b357953fae909fcf29672035625),
 (0x27e56149b514d45a1d4935f2dd1e3e6c761ac347079c00f14e5e4dcc20b10e344947cf83d195bf58b0dad2cb5a5357b, 0x154594356a107b750000000000000000be6521cc3e2434e37af027bc08d6af57da71144896c8da1964b2d2bc815a47c5),
 (0xb59e2d6e28a7ac532fcae5057ee4c2802ffaddf76f94b9289284ec8026628c36e167a1e479b53799644f35e38dc0d7f, 0x154594356a107b75ffffffffffffffffbe6521cc3e2434e37af027bc08d6af57da71144896c8da1964b2d2bc815a47c5),
 (0xb33d5a7577b585b23a8e4ddc9b1ca77ac21b535077b0319f37274aa950bf935e597998934bbd57c948aa795ce274b5a, 0x1622bd795fec898f0000000000000000000000000000000000000000000000000000000000000000),
 (0x2c39c81214aab9d6368dfce2e2046b272904dcfb192426c75cea4027e29b407bd96f3e7382358379c5191fd6f4d9856, 0x75ab9a3915f2137c066055a4dd9abf72c184d477dd69c6a9374549b993673b39858f7def268b3602514f4c8ac99df6),
 (0x78f0be3f1a4b4e458a2b0d847cdca87f5fcbf96726604f9984daab935ce4ecde3c05e18d90f260610f3af18b8cea721, 0xbb968a437d5c8dfc5eda92d864ac5db9d707107e855c384429e821a4c74803e31ba1621582283d15),
 (0x141dac527df2f950f4f9f285c32d5d7df2a3cb2c8667d9f39f454772ea876c19c9d6766b211a409cfaa0ca9eb5bb6012, 0xb69d691c475ac8e6637c3fdb6cb5535a2f5a675847e63d25854de29c2c2658356282951c78dcbe2205cf3e15720b382),
]
S2 = [
 ((0x0, 0x1), (0x135203e60180a68ee2e9c448d77a2cd91c3dedd930b1cf60ef396489f61eb45e304466cf3e67fa0af1ee7b04121bdea2, 0x140d2a0ca7fdc0223895aa4843747ffad8ac19034879ca1b67e64a4501b6c551cb36cb8e58c411de58318ef3c9ab641b)),
 ((0x1, 0x1), (0x17faa6201231304f270b858dad9462089f2a5b83388e4b10773abc1eef6d193b9fce4e8ea2d9d28e3c3a315aa7de14ca, 0xcc12449be6ac4e7f367e7242250427c4fb4c39325d3164ad397c1837a90f0ea1a534757df374dd6569345eb41ed76e)),
 ((0x1, 0x2), (0x1899caf44161c210a1c4f08957970a98c9a4584daaf9496b5b17c6356d6be1ef99217e6733545ed74c7b3a820a067fc4, 0xa66db42c4d58e571cce45b1ef6d0b32a87393eb22a9f56fe52514a4df0abeb49dbe4886d632ad5ecea2c1780fdc54ff)),
 ((0x2, 0x0), (0x18c6b864ae17dc9da64203ffefb966306425a7bc6aeb7c75247438372716284a4173830420cd476ba1a365b95bfcec38, 0x172e93db764a8400a7d5071b6b6f5de0da2f0f4a063119abca014006b7c40a2cfe291a1924e65db0d6d0fcfbf3bf3d5c)),
 ((0x2, 0x1), (0x82b95a5b7241be6e2b581a2d5d91c5c67b197400602914879aef30a565535825c3bbc70165b18a65e1252d7b98e580d, 0x4f0e2be2f9d6956e890a15fcc71632cc8ee88bdd387daeddf980ef9b8597131762c3997c36f0d8f5ed079e44e35044)),
 ((0x2, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555), (0x141fd1fd157b1751a5ce0b68dc7ebc20e5a81b7fbba8045f43be6cba031e0eeb305ffb568d410df1189c0e44c22331db, 0x6a3b1830da14cf29773593cd6f6fe4b22c2b5927020965b8f905480108a1cb3e79bc85b387187c16e4a6459d24965c0)),
 ((0x2, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556), (0x141bec77bd3a2b6378bd31380b3ae40149720796ab4234cecf7c3475868c5b35a4f02b647bf5b99111dc2ea53a474efb, 0x610da60f1796819d866777e0d285a0fe6e16a0c6b027a21b760fa65a060920edb7abd8cc8aa04629fdcd74e2ace22dc)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0x0), (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaa9, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0x2), (0x9d2e4fc914369a1783f144bd35f141f07fcd49642f5f90a3d69bc3c1060c4d4fa5e5f5e25a6e438c82936f715425240, 0xbe63fed241cfb766fbd1332ed644c80d63a3b918b2a676bf7ba6080e4058b207d5282da85433b2001e23f66e64a90d9)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa), (0x1911762473223d4c883215d3a7ed8124b9e615ab2700e3c80be3c429a3bc6ac76f776c424fe118140837b0a375538114, 0x59f445c0797134b8ff86d154239ad508ebcf720953aa8f03d05a497cf92a78aa9588ffe2e2884efeaba6b6295205ea4)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555), (0x7e1ba38bb645bd9d6e66565d2f0e8c5c294c1ce1129e1c2885953146f248e9c1186c46d0d99d68458e7a610880ab34a, 0x5f4ac33246a9ede77af7f1664ff0f6c8a396dbfc635c0ce92730a667da6b9cd3eb2e8e69680766cc45ee13c3145ab3f)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555, 0x2), (0x1707c4c58526b13f338a8867d9268d3e5cbddc8af5dbce7107f5039d69b5db9b1fe2a649d94c21929a6075a0a3c13709, 0x98af0cfaac0031d48208b4cd377baafa5e21cba4f9769c78b23c40cdb062c726dbb69af799ee6379efa2a2df0d37d)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555), (0x29219469c929a030afd22cf1c667bb1491ca45ca99cff7dc4c12edad3226e17d7fafa41ec7cdb3e71316b70f2df3477, 0xe6f519a26b76991dca1426cd2d820a824e0da2d96160051948194963e69c2f1972ad318f8911e1d8a68697f609fabf)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556, 0x1), (0x4d10418af6f9a91dcfce4af799dbd1ba5c5eaf797566ba9081bc9d1d3ba977c9fe1696e52432e64c5a1f5d3d3482968, 0x1559f37150104a72d208524dd2c5b5f1119eb883c71d0e3fa0e0a29f36dbb6d9d3a691acb811d067b05d745c085467bb)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556, 0x2), (0xd9e920f7d67148b4b5180cdec803e215453c36dd2637edc602cb61a22590c43b305599fbf621503924c25e472762fb0, 0x18c4ffb57831a41dff944dd0ad96dd6c2047102e424327c60e08390da8afd3c0d74d4cbde3e3d5f84f65b4371b12f5f6)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556), (0x14ed2e7cdc5fe71f9165f66382a92c3cc036cb4bab4f0c36ca5928083027dc4f153999707c0b284f99fba68715540334, 0xaaebb3ca3c69303f7e1f821d57a93c386fe2f28dac6446b22cfc25d210aa64415180be07ac5438e4a18c069bb4ce99c)),
 ((0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820, 0x1), (0x1507ceb5221eaa7e1a4429c312d05c04d6e452c89645cd7bddeaa95be125fa241f9821ef4c8adac74b530c2c56653483, 0x767996e4a2753fa75f807ff25c16a4ef9d06dc4ff17c66867affbb43e58a6b214129ee3653eccaafaff5ca74ecde903)),
 ((0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820, 0x2), (0x13b7865f5ecbd21541abb3459e082a6770b5639cd7690502342c3a41e44db9dd5f070d22c69942035a8b22accd31c22b, 0x90a6aee04ec2af279551f332fe94837ab99e7d426fe7f8b922f70b581ab8c2a6cec62131e7d405650d8f7b37b3d8f70)),
 ((0xffffffffffffffff, 0x0), (0xea06b92faf23847cb389fcaa0fad61bf12b45369c53fdca01352d1d76f2e63a708fd106c8030028e9854450c5caa447, 0x1893ab0b088380fbc1f013d44c479197c524beaf17a92b18e25bca672639d9f0de7356198e0467cbb0b489988d1c338c)),
 ((0xffffffffffffffff, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa), (0xd4e862ba1e497a5bd190046d31e0a14b4e46401d7850753f0d53c76d203b97609c2f396cd693e80919d08bdb42c60b5, 0xe96b9620bac4e4446d2209f4bb50543768ab42cbb0887b7a77da9b9612abcfcf450d80689459e3430e572c72f77c4f7)),
 ((0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0x1), (0x15b708b59f80ab3f37d2efcb65d2fe0b5f2ecb41a07db730b94cdd277ccedfcbf155bd0235ee13030969243f73393c9b, 0x750b3a33e3bfbbca325e877845b4b86ca06f71459a5ab9e965290743370fe16004cd836802cb99757d2beca856af8e)),
 ((0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa), (0x125d1f566f31de6158bf4f7ff6b09cdc80d796686c405d7a34ddba6af79ffd4e3018e83127fa1c7dbfaf026116445be6, 0x34f094cc0507ffb2a6a56a89dde3911c2e7cac8fdf0d11acd8c0e01f22eaded4aa31d075f28b608648bcad9a6d2c6b2)),
 ((0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556), (0xe47ac04cdbdee76ae26c6abafdbae6881f1cdf2156d56fc5abf74c1cb922ba802fb773a78ab31cf803ef29489f63b11, 0x831b399e56bed370ab868a8161eea64fcbc18960be809b9019d1c65a2debb6e54bf11203bb2279ae8217e8937bab529)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0x2), (0x1073509176107a33a28ab4b2402e7ba09de6b8011d6c19ca356319b5f5faf5eeeb0e58152d5642c18f8b1f1862f44d26, 0xc49f4f19509c3b7405bc3e4046434fdcc86e8fa7cf9dd4c84dd629819a285ad4966ebbb642c8d92510ccb0b635d038e)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555), (0x12af75ab2eaff01d087a4951d14244cdf048ea826c5934c8572486252c5c21c9de5bc432c1bc1d7a826ab6b3be10cb68, 0xb2166a268b0235cc94436db5a23e72a171f9ff477267db1bd38542b4c42b4bb6b8fb7cfdaf07d44ebc57109db4b67c3)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556), (0x149178ef2399ab24571322d04a950619d3afd02de35091eef1a98ea1951b3248b5b3d3a1db9c905d27b2e72ac6c8b0b0, 0x16ba47f1b1f155f60b231a97a700e359a8e6c89cfc9a3713ad16167cbbe5ad4df35915ace6cb47cdc68920e1801641a2)),
 ((0x2da2b124d536956906c5748016b4405e8f9158c3a62876032dcdfb895a333da9784c3840248e24baf88b0ed264867a5, 0x0), (0x15a051c055fe7cba1d3b02e9d95bceaa5fbe3657e9be545bdae37b3f49fe0748d5977f0ca7e95147fbebd036cb8c2689, 0xa0d98cc778cc209b57fe47845845d4373018a7f7028ad11028a77bc94a8b7d128d468ed98520cba99f87e7af1b6c79a)),
 ((0x131406c5bb808b4dd68758d6b47402189d75f47a978d5a7a9b1fb3251e6e25762b560805ebd675acc27b231f34dadbd0, 0x0), (0x1263e15d100b7d9cb1553b0d07907d1ca074ebf877374e6d88791f1b191a9798f05d0a393755298d3a62f4010ebfd89c, 0xea60b3dc7aa348873548de10d017b1352fd419bb00a1c8d8978f4b334f424dd85a01029934d88acbba4dd055ed79e2)),
 ((0x12dfc2f92fcc46f098c6444b143d8efd4107e203b0d975054e5751f6a10f7115706d376fdf1c955338cb9d0b7cb7fb92, 0x0), (0x4affd9e6fd204dda2d643513d1a30b42094fa6bf410016b4af570722ba2ce81ed263b6ff80c2c7566b90db7355926b2, 0x51ca2c9da7b8540e6b35996c64fbd91f16f6108886793e139db1b7b9b44852dd23c78cded57b4fa54e2c7c553151a96)),
 ((0x192c0240a7c7a3d928ddc12b9aff35402a4bad8f8f4cba1603874c914d57c8c803acb8e7d6bbb067fdd9ba2885a108dc, 0x0), (0x65a891f30a6d6347659e42909e39847faffe7a99af61a32030264f967141dd2a92b60be246a9c7ae8e15d700f28ff89, 0xc44da167201d63f0c00d2537705f66980de928d64449452cc54dfcca275b2573364f772da4ca8395da9848609a3d245)),
 ((0x0, 0x135166710554e65d3e4320c89ffa271d1cda05dcb1e95fc94fcb04ac5a076aa2a3c961e214538b6d4540db7ee8e8e218), (0x6059d3d3e7a437146e9c99cbc3b66d22c00dfe9f2990692bda1baff008d9cd92ba125aa96adc17bc1bc7691f9654cf6, 0xa09834ef508e81f4ee733f1cb84395b3f0ac9b116be2a7e16dddcc74d48b2085ca26444d7f85e161c6991feccc4f312)),
 ((0x0, 0x1fa358a89935546f0535fd27a2d8d14fc863e97b88d6f73e43c6f08aac5285567f374da2642647efaa946bc7c31d2f8), (0x6600ad8e08743e83aaaae26dc1bbfa23acf96530829d5b79e7e21893bca14e4c961b4f0a303c3a85db42398ae1f5fea, 0x10fa8e36471b4a7227f85932840318104f3e36239de9288c4895cc7e96aeb0f71bcbb3d6b2ed5f2df73f6dd9720ca510)),
 ((0x0, 0x8434960a989d96fc58d164a814f26463384ca760b58e4589924c1339ce0da6165dd599ef4d32534fd08a935c541f125), (0x59f536456037789ed12989923ad135c6d7eadfc630f39e4e6d5e133074706bf7c7c9515890d8ed3914e7bbf146b5951, 0x30f5cde45cb63d5b2dacb2ab52da2ceee5fa2f630ddcbcbb0a691e7053c21fe03bb1cb28c551160ae3ce493d079ed63)),
 ((0x53438a4ab86504dad4027d39d3a05bdcee56acf9dce60636e6fddc05e28658f2cdd2806af2bde2980c73e9b54b632e5, 0x53438a4ab86504dad4027d39d3a05bdcee56acf9dce60636e6fddc05e28658f2cdd2806af2bde2980c73e9b54b632e5), (0x1a008b070b5d493e90816de9092343863796bf2c85e65ee105bb5dbba5563439a77ef7b4df6a4c00e223a15e99a41925, 0xc0f9438c8f1a06c41cc65838ab934dabb3388e999705262b9c610b21c5cd077cb5593dcb338258b013a64e783048421)),
 ((0x1655afa27c8e7ec80383200a2589643bacdfef0edc267e9302ef94d6ca213e4ca693b2958a2af9c177ddc0a2a6e047c7, 0x1655afa27c8e7ec80383200a2589643bacdfef0edc267e9302ef94d6ca213e4ca693b2958a2af9c177ddc0a2a6e047c7), (0x1415ea8bb449880053d8a1b35bc0fd13e675327bd99fcd6e268b07588e2ddee34f9e61b7556ecaabac29bef88d14e370, 0x1134cc3d31d060f26ead085275d63db83ac9426fc77c74f5c428058a678e0ce10c76522085efaf91c9fb1fff779152a0)),
 ((0x1, 0x20668196c1208bd9a360e10c1e9b343bf38bd225c1caf70f794ec4bf9cfa417a955d99a09ac00b777fa4a9728cae2bc), (0x14c5076a2bc359ed2beb8044dbf00cb491fae1a2ee8b4b65ab45aaa9cf3fdcf29e14f00b0f3837a5ac9d72f9f75a922e, 0x14e9c93990dc0d44eedb70e09e5f6b2ea90dfa67fb76d11f194a0e56d5aedff7a4441fa5df38048632a1acce3ef22dc8)),
 ((0xf175db4c79c7b935456c066f5ba019d6201e3383622b05f47b471edf1cd6cfcf6e5e96f406e4e6b371ba98f82d1c8e5, 0x1), (0x175dea781b77a3a8026335cb5bb901f743aa85fcbe2fa24eff74d22862cdda546f233d8bfd4076b72a3441e19683e7a0, 0xb189551f0e0588a6d53fc167cbfaea08d6ae8224673a87c7ed758c4cc74ed096c64f895cc6d496437a8863b02fc81dd)),
 ((0x2, 0xcea3a3454baaa398445a3d19b9ade50386eddc45507e454af6341e7e04793db980460dbbcf457658758e553df25b852), (0x1387e6721f6687453b91d36bf05624e914fa14a8a92e7a4cf95e9d11ca53f1fdcef0310daf7c5dad394878825168f02f, 0x175ab410288396fbbe840ef1995275bc9301a13538922fbb5dbf67835077f7759218bfebe2b570c8555d7fab375a735c)),
 ((0x141245f1be162ee4d0a1a0f256fed9299f0c826a3c87f6781e8ee7c0ffeda36ee0d69f1d4490857dbff888ddececc8a8, 0x2), (0x1e63451877fed265826e2ef84ce90b4c7d9a2dcf585190e21c3f4eb2aaedf2961448b29eac56a5c24ddabc04e2dab91, 0x1805e4a84f4cb37cea8e9c19ceff1cc02ad5b97590c0accff9530b8f0c0ee0348c249727562cbbd788bd2c7593f8af2f)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0x115b4a815b2f708c96ae99102dbdad1181b3b3a96100635f9363d894b63025238b7cc4bf64b8f4afd30542f5aafd8de2), (0xd3df691e74a156f46479518926bc2fd0528ee326694e7027169bb9ed69eda954c233f792ae53cf3fc4c3950a2fb701f, 0x1075749721256d590d3470a90ad6cf29a1761c4dfc96e3af5fe17194922a8598738c8b0273c1e77f66d86f0802013ed0)),
 ((0x177695d136db0b3411edd937a37d07448a37058d5fc893721097ba5dbcb2e130953d5bb6e0f13314a0459a58714b9f91, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa), (0x16ace127fcb26f334b86629d531f4fedfe3ca4ccf74b2b631cbd47847535bc0f646adcf5fc42375cc47f41c1eedc42ff, 0x2234e110831d36189ac8c9ccda6c93cbab129b9932f20acfdbf4135ae1c987b514e63f490a2ed2afe926d4cdae70d89)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555, 0xba17b4cfbdb89f5bf274e2625c3837807d54ccc893e4d63664d0a4fe964fbb64305488a28f987c4cfc960aaf1686a2f), (0xec2c462594de6170a0c40924c3c0872a3fc4f05c7b13e35bb4cc3d2eec888dbe0b2b48499891a129ed9028379181c3b, 0x96b971c28d24db889a673d4883a2a517442c471422a5dd59414c1fbf18b5d0bca235a3134bedea58a4ed78bcdbd3b8f)),
 ((0x10a655a7e3eb53ae34bd9410ca972e261f2b7c0a22460351c0fd4bf542852b9701093d7fadaa2474cd56618032eb06bd, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555), (0x41e08dae9b497fa36f509ead57e3bb660cf67a4e3988baa4dda66c51e16e06069084c84f5d5bd327994068333b58289, 0xf80c0b43cbdc310a1ecb2b1e7a044971d41a41847920357187bb2f89cd14af6c5e3dc3614db9c12f6fd0a639aa8f51)),
 ((0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556, 0x17a29cae53e6b5ae8be0087aff80b4f15b8a5312283b5aad9f08bb76a476ecc017a20056ac4acfe01cec5267e459698c), (0x11817ce4512af1a606625d0bc519579ed0757ada7f894e34e26c908201f81e90383c7737a5de4ea983be52b141739fee, 0x146befa46865f3e8fced7fb0868a36d20472795a1a5ff340aa883b45dbeeed163a13ed70ad3dc769d9a5e5a4dec7f89d)),
 ((0x16bacb4d69d1219f06b01bf07946c962f23b96bd85d60b6ff22b7de050fd698aebcf4151068b2d65e0c212c2a372a788, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556), (0x95cc33e76483b467d446bbd54afecc56ade530c3eb20d24af543831a09ae22decdfdff0cd35abfc370f677676f9bebc, 0x78a29329c621abdc83800ad5aa4cb4a983b1435f64e4ec1d209c97dd20c8f306a6a9f710f29c2d1c654f9b2342a1c0b)),
 ((0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820, 0x5a5fe0e5e4d28c0c9917c381cddf42a6edd96765acf58a21ca85698a5640a14e87d6bd304e10e8900ae7c3861fb94ea), (0x3dc132b95e719aa48b82eabe81c7cc35f4c077ba6f0a3d7ec3e5bbb3020266687c8b07823017e11f5adc4fe74f0cb47, 0x17da239e9cf675d6082359de8f264c2fdde560115a9722af8040a97977383fc4d3ce4f288e09d2c655893c5deb035a68)),
 ((0x28d4e84965a456dffb26ff6eb5fd32e3498c6581bbcc1643f5ebaf52cb07110d1c2dc8e2fd3d317a3a167f331b9b110, 0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820), (0x8fa6b27ea1d1e5d159fe99623578171a3b779b77488c0da15daa9dd369278d7e20908d52db26cb6905c964471bee78f, 0x18c2ffbfbd6299af3e719bcf859f18cecfaad8bb52ea39996ff6eeac7a371c5e842033428926edfc0e3d58e5638b0c86)),
 ((0xffffffffffffffff, 0x54c0b697317550d5851235107e91734416ae95fb9d29a842c351aae090aa9c2fb8099f9000f4f0d1a2c03b705a3beac), (0x180190d80b139726d48dd0658589709496051662e51def9a7a2bcc3e6fa12cd419162eb86f305dea394fd7e8875d6830, 0x14f8beb317b05c58d05a95e15ddd6a29b2acf51284076adeee44473804565e2c4541ea00d921f7715ff2a4e015436c43)),
 ((0x17c95b75c14099ca3e631318f44bf0fc6a010b2af0964952beeb121a4c20668a7362c9f05ee1c6aeac320b5f84b300be, 0xffffffffffffffff), (0x13aa4bbf4a203ecfd2e87d2d37e6d0bf3f3e8694fe44905c0f5b3aff8c6e5c428ed64dce8c90e06bad0f7802e0dade8, 0x157ae7674716f13aa464191b3427a7ef1a14fcd8b47855f78f0ce0e3d36d3f306c0cfe54f687b2ba01357e727222e4fa)),
 ((0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0x362792b5642f698b8012fac14d8fbf78921cce23568bdb17feb59139b959778aca202c563c5984ee37339ce1a94f40d), (0x1307fd67f2764e7f3bd821084dbb7233484f86e8a8f49ec54855eff3914a9bff5decad15e0a33351011ceb2b717deb37, 0x18f16e644ec7906c5a3409fe0efb4e132ef5a35b6c0eb33d506286da506bdefaba1bbe2d174892afa4a64f1219b60fb1)),
 ((0x10554fa3b594536c88cca97dd46858c48b04312027b0b4c69d01f9e67eb9694c8061e29b8dcf755bbc5134b5551158dc, 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff), (0x10a7f77378bdc75acc5b7069de172477437366a17227a07f277b948d1f0d6b7da77feaa58157ebd1501b1f4b3efb2ee7, 0x3232b7b7293deaf0251c7987a128d11b4f8cb60beea41e6a67f6fa6f8c3a45a8e19018f6f098a34ed22458cf45fd093)),
 ((0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0x15053a642c7edf241d7069d91eaed64d9d84498a7915ef5c275aef47e6d9756f0667f05edd94e99b9c05e0b03d044912), (0xe900f5d6e90c9321a85b44d9fd53fa78e5e6348b4124045fd49a4a2a8a46d1b5f986537c3fc85354a77592c98ec4882, 0x183da3ddf8a8696e2a75e0ec15c983126cfa21e9a66f9537d362ecbd56d8a2ca869098eb8e8c6372c38286044a3b9592)),
 ((0x10c760c8650a3ca5c0b42e5349adce2d1e9118d6ee8d98c0146d05504a07ada232e1e9f431f477c1610cac738a725f88, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab), (0x15243a50341ff6d4acd98e4ee95aaba334412fe13b34d5180001a6c3380794a4e6cdcf9766b345165f018b28526c74ce, 0xce8bc836ed918546f0f5e05c8fe7bf7b93649d1ee688664c6a7a1362c0b9d7abd7284bfe7f9e4ec7da455b61c2fda50)),
 ((0x68da969a07220b2d0f62e5afbe0cd44a7da69664bc385b66b68365b5a9830fac3db8d8de0f3611a66ec7180b824a72c, 0xaea0bcf6bbac2de4856c9e8e82d5861cd6d65a346fb5200a807546d2f2b85d6e51bd4703855d66546c8ae3d20cb5263), (0x0, 0x1)),
 ((0x180a1f093f9b3e7c804f2a9d45ee6bad8319bcdb5f0c6bfb88afbc074f518bfdd146688fb8d1a660e4141d3b7855234f, 0x55afa3a2535382ab0e143b59da30c88c68671cdb28abd26102a4a044fbee6131913170907908de2d221f7263864d368), (0x0, 0x2)),
 ((0x100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79, 0xc2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced), (0x0, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa)),
 ((0xba28bef1883c7093453471171153281d10328820cfcd662eb8fdf12ae127bab320cc840d993a9560c9faa74f7c45d08, 0x0), (0x1, 0x2)),
 ((0x1a0111ea397fe699ec02408663d4de85aa0d857d89759ad4897d29650fb85f9b409427eb4f49fffd8bfd00000000aaad, 0x0), (0x2, 0x1)),
 ((0xae36d1eeef65e82470e570cb8623f8f8bca008361d7934f1464326cb639eb20a9786b6c3da7e8646a516263c3bbdb15, 0x186545b40e94e9e8c618aa7b6d913bdff3c1f0876991a41ef4214d302aa76513d9fc767a541b4368d11b3a15a753bf91), (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0x2)),
 ((0x4bfec86aaa4ae89905f2999e5cdad16de9f70d5401fa1fe816581d1607eb6b37f1916faf98ac046f9a63effa3beab83, 0xc4b37aa3ae41b6f3422bbcdc62bfa6ec8fb37d80799cacb361c458b50df8c1695b2afa051c42addb0320e4ec180a9a6), (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555, 0x2)),
 ((0x3cbbce333f3901e11f5e357c041052c1c9799d0b646161d455b39940bf7e88d9cb7949d5c6a1ef08ebe77fcce9a3f9a, 0x1518b3b7e8f51be367aeae80d923471ea659be3a5f0257d7e72160519f0720c3bea074ec54d50b01bdbc3ce21f9ab3fd), (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556, 0x2)),
 ((0x189487b42af7067e174265c493fe7f58bbe68a482450afe3a3537f080ca9b34dec82f858d4ff70d281385b564a06be4, 0x15ccda75a7ce911cc99664425814d5abf0e9897956bd92b33de3640eec38b49bbbf44572d06424c442d3cc327b27ffd), (0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820, 0x2)),
 ((0x12133dc3413a7c20deee1af4cb1f1b03e8bc76610cdd85557d1ad8b10263e6f82b3f6c76df2c1864adccddbd4578867d, 0xf9fac2546f1d0949648d91ddbcc666e8cbc7d07d99de06854ed02b90cfcaf5bfdbe0ba8d9c325da944c23499f454e70), (0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556)),
 ((0x4114b06427c831e0a13bdce356c68d2a74916600e41a92b82071d0577a28b047e9bbad0796a4a519f4d5dc261ad4ff4, 0x8ddc84e5b20a47f1cfc2ef8478487ba73f2532edcbe93c4d9695bd34a54890fc95c71324b04b2fa85aeff5c88cea5c5), (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0x0)),
 ((0x5d1aeb520b3634e550a6083914f898ccd1e5545bd5df01e9f016d786ecfb8fd4ea1b2c0e9f19b611ee067fb2874b2d, 0x1053ea3802656761b2361517abadcb3920ba83effe14bdaa8ba1b14f0e34922d77e4601c54c08175f1f52f14b1022e68), (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555)),
 ((0x51531411a873f43ac540a2051afa56a5b53f4cd7d6dbfceaa71c12a5c00dd99c49193fe9c78691e16d2533ff10d44a4, 0x15a391018a8b066abd3599ea6b693e504e4d16f321f86e40d6bbd3b61761f984d00cd5c8125bf281281c2b697e6126a0), (0x16dbd37e3eb84a2822349e005fef0ec6290fa38a2a2f39619c4d3f50965abc74405417c6574095fe9931477009fb837f, 0x0)),
 ((0xd4e2ef4db81cda5581b55284276f55560d85dfc3ee637ff494b7086a0bd57584f599019c2141199cb5d854289291b81, 0x21e8a0ffe1eef7b3d415074f04bbf91dfc6998898f424d95fc946552e2f381f09dbbfb8eb4ce6b196c8ad0ffa85ba1e), (0x19f5a0a030e4b4a786c3f6eed70e0a9c4ac70fbf34360baf3b3467467d6b2b1452fa9d09c974449a5d9ff7b4fd937870, 0x0)),
 ((0x4bca8d95e5512d5a2d434cd50dde85ca97d01b6ce7d0e73d87af9da1ec74b4c28fd7eb8720f824576536c047a338384, 0x184f73c7544f6376bcf8bfb3f41412bd3c9e812f499d39c5d7fad48f2a2209a93cbeb747f7296359f47888473f4e7364), (0x91be336438743bbb56ef61af876b8a8041fd02d8c0edfe80b3f13930d4ff1af615d501bf9832d4d206255caa1a725aa, 0x0)),
 ((0x262788416588ccbac8e95d0dce6b2c2696234d6f6057c7fb5567bff2ce1379547e24287c2c26d2a54f8339855ea00, 0x137c52ea07337bd92fbfadc3a05dd0efd195bb1dd3779b98ae3290dc0e4fd5955c191cb8c9edc522a78727b5b58bc57f), (0x1695c1bfd0c6efc5fcfb53464cb203566e3b1f661d5ac6be55d7b8bf0edd7b2ee9ba8cb305847ce18778c6ca659071d9, 0x0)),
 ((0x11d0eaf644dde9a5ec249b994d2e57e7a5a68dd182d7806941073ad361ff388119b5b6a6cc9d34ce707f4c1cbdcdd73, 0x15014c17f127339fda78bcff84da61a43579420ab3febd85a5769bd6fe8dbe9fa1e7679fb6d969927bdcd295f4270801), (0x0, 0x11307fa43298aaeef8607c3054d709b2c4a2830475f93a8dc615de3675d9e6f004416a97485b989ca5516550b8dc68b4)),
 ((0x10bd61ee897fcd32dad6e5d3d74fc6e35e4131d6734371f41c2d95216df3b28603ea411b66c3acf0eb017e72c0a6e79, 0x4bcd4908e4e2d264e5bc13608a1de21d650eabc9b90a0e3caade9058f779c1ea7a0ae255ba54cb7f3ae2d6fa893713e), (0x0, 0xb59a121ed178c45437a01269101fca03610520d566941621ef22b91024bda1b22fa8ad58af2cfe91a05d89c49cb48b0)),
 ((0xc6fdd37c0515308617db785382a58790a3b2f4bd41ee6b3d97477390fbfaa39f553cdc322f19f1c2a33a0de1c81c334, 0xceca9980fcca9e993a36f2815735a30728f4a96203c5b5bbe9a1c9c2b3015ff375001246b58d597f7d2603554d2e425), (0x0, 0xba4f8f504c5ffcd0e6fe5d064ccbadcfbe2ad16722d822f3edc077b96a9b415927b6e6748b284b6f028512e2a53ddfd)),
 ((0xfaa348fad74c4479f41897acf15f1905b2bfe6ef9746e12825424f56ea28f0f5817506561504ecfa6920fdbd1d4f8e, 0x4446e8861e1265b63bb0facac2868367c30171ee72f907d4a7052039affc9f2977026de28baeb630b2b7a9163d5522c), (0x1398ebd47aa48c193a9ee52a28ad0bff64a9a1aa94811a6a81af2b0b5de3d9b99f3ccb595b7b7759569ebe567a51b3cc, 0x1398ebd47aa48c193a9ee52a28ad0bff64a9a1aa94811a6a81af2b0b5de3d9b99f3ccb595b7b7759569ebe567a51b3cc)),
 ((0x5879fbcfc17a61c33ccab3a8b0c914473a614fa74bcf16922ce4d4b35df0b4c70b54d78aa099e58aa043618f9bc6c32, 0x117168b77845e32ce500a14fbf1cd4463bdcfc01c1e0ddf6d9b7e46a520a67d0df5ce0f25fda1f546a461b765adb2027), (0x30a5379dcb93bf79525b993b24cd304fee6db045396f876e9afd7f202819083c3cbcb6e2c096d6b62c13f01b2ae9379, 0x30a5379dcb93bf79525b993b24cd304fee6db045396f876e9afd7f202819083c3cbcb6e2c096d6b62c13f01b2ae9379)),
 ((0x6e5051421965fbe6b2d1bc9178a4bdc233b30879ef37fabd5df53aeadc0a1ac131f948f5e2b1863c6cf9db49ee66731, 0x1363a5a2c8d0c1818277aaeb378606313f664db7ea49c2a7820bddbf0f037a438ff53ecfa4439d97694b0386a7146e53), (0x192dd1a9c3ebe9b68cd1de58d9c96108ab7631bc47bc32e888eafbbe5c55d1fa4227108c2c9010c6016d9040fd18d451, 0xd340407593fce3be49c95d69824bceb90119c8abc8dfd6de45d6e29a5b2429dc84ef7284c3ef39b8916fbf02e6d65a)),
 ((0xd230fbf87aa8d3521a91d71b2a6c7d9c26e890d86f557a0a3c863575a829a6b02d3fcdb34a60fffc610675af4f4cfc5, 0x18c5d1d4216e1f21ca8979a402395c3e0d02d9740cb950576dbc492034d067ca0c92a5aea263e657e7a235d8a459e61f), (0xebeca025ccd496582de3db4c248b741f1eed860cbeeea7ec17b9b69820bc8c10705c2c886b99249dcf8ccc93e92ddf8, 0xb4247e7dcb29d34c83d6a018102f5957288732427962840a5b5373774a52d6317a63d362a9a6db5dd063336c16cccb3)),
 ((0x14c15d5e5854ecc3a9819b76cfd76c3c4d4c767f8da879c7d3dec59384a56c268979c3f97f90e2d4f5dabb79d73e4cbf, 0x501864c682db05b44eb86cfa2c5771ea5ae24661f5a5f2772d805f85399a199bf177f090fd425ac0fc11fa5370aa380), (0x1, 0xabf291c43dc5ee93679b7ee5344cffd590bcb1b56aff48ed8eca898bec595ab7c688a4f0c4b029dc57013d98a7b7cf4)),
 ((0xea6ac36cc9444247848c7be4cda6186b2e7e8b23c1f1e7068872d4c4cf1b7b3334c7dc5bfec3a83560ead967e376439, 0x57cae5dfe97d83b756f7d892a70c54273f42bc1ef710ff203010b6f88c5af774f405c2ee98471906b4ef7559882e0a0), (0xcf388c3e45613d9a62622fd4d4f6672a738c6266dee9ad85c41114733b19a2a3193074f3958c853181f73db1c32d3e1, 0x1)),
 ((0xc862c110b14771d1cc57d83b327c6fa0d5659739d20ad9132989bd0727e2a7e5c530811e00c4681e0eef9abe5a7a935, 0xa18176e3a63c180555b9e27322a0223540eebf4c79f28e6dda1da39cf42970fe4072b38e23c42701cdc5ceb7eb2097a), (0x2, 0x6a785d98c987aeee287a4bf952d0063dd45044567dd268d6fa935f0bde5ad9e6a69d38857abe2073e1550eca6b924a9)),
 ((0x82af1e55bd5865519f6f74745b150d27681a2bf4dc4938b6a78a0bff29b644135451de2e2e4a160a51b9d08f3581dee, 0x193767f3ed19311a2a904f1e8bb276e36c470be8a4d7a7dd9dfda80b6e412ce5b30d146973c518c6f5386351d0845aa4), (0x19c143fc1392cd70fa36e34391f51f53a916ac1e2b88c0ef68de9bda6d0be2d7e13ddab8f137e96cdfceb0fe30b9c9f8, 0x2)),
 ((0x10fe83b169aea3058c9fb8f0e0bea4fc4dda4d47dcd8ca74dc7ebeff5bfe34a7e87bf5f5063054987fa4eea3fa912a9f, 0x3ff85f0deea74b2619153f42192facee33549cd40446fd91020f515fc40da77be57f092967c2989e1e814046f2c62b8), (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa, 0x60b7360a60d971f74e538a1cbba17548308b6c12c2dfe2d3cb24dd9045911d1205203d115ebbef510fdf3c9f9e90e77)),
 ((0x9717fc9557621ebb8d647d26048fba48ea955a5a01c7dffea060f9a32e8a8c13bc469cc3e4ae7a4f42efef3333c0add, 0x2780b8d565cf1e62e71d6b0d575647361ee09e4dbd9efd2c94016d4d079be360d0b4eaac367167c0f2a6a003a0f0e21), (0x1215dcbff8fc0d70fbedf08ae5e17e9c312d77a76f76d31621cacecaadf45b67ca23f60309e6c991a191019057442cd8, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaaa)),
 ((0x145e3daf189e39bf051704310788a137fe12f2b58f5328a0f5f6ebe6dd2b9a9dc32de9501e36de85d8173f6ab93cc71b, 0x836ac8f86ed0b75c0b7ae0e23ba9b0952bfecea04eb45981c286fdf2242b7071ab471b57d04e39281e4cdd36791d154), (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555, 0xdfabacbf8f3f10429580648e085084761933a8a43d4b02b858664cced72f34b9115b417a33afcddfed6bc9688eec3ec)),
 ((0x40f53ab6bedc4bfc3933fd531210e1100276deb5e6c900910f878668c3cdc29a587fdbe610c7187e8dd262867c4cbf8, 0xe7bed581b4b63a0c6cdd34ae0a96d7080d2005f24bb7953a2f9efe127f73a3ddfbbda7c33d34f3c9ac0c21eae895e09), (0x7aad21c0465a55173223088c8da11636c3fdbafdc71fe3f5339e1e98738c6e88fa02c2e1810443992081ee65324a40a, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd555)),
 ((0x5d6adf4d14ec34eb0d940dc585e4766390bdef45ca8cfd1b16509d3993c5a7ee771d2f268765d3b46191d95a6cfa5d8, 0x819a04a35b3551f9558c2188945f795366d083e15cc8ea7374e3d2f1392d0495f4927e5b28aacb03125c4c7b2215388), (0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556, 0x107af3a9226b85e8a4949199bff16bc1832b9c8083da790df51613496eef8a640ac2426901d21284715ee253ffdf5f11)),
 ((0x128d7789118db0bd958bf43469275298e1605bb09989b0f0349de9600328f871a02178b6b9268b247c9a95bda7df1e03, 0x11e4ca00c09bc86dc6a810092cb3efb99249bbd27d96c340b8f63ed739b4c8255e4058681f088aa39cb439c25fb95fb6), (0x1981dd9e0d030cf7b8fae96495405fd243774ff23ee50b275f74f169a62f582226082b728b55c7e21bb3740c1f71c334, 0xd0088f51cbff34d258dd3db21a5d66bb23ba5c279c2895fb39869507b587b120f55ffff58a9ffffdcff7fffffffd556)),
 ((0xbb8896d890d4b18418e9a6c1e28fc8a8758aad584a9ec3d27b2acc06075f20b0a7e104320fc18786a6f9bc5e6d6690e, 0x190dae7db7b177fce78fa2617710b52af92bf3a79b39f66b8e564f3490a3373f5b7af4a1b9d19cf9d2c75fe7444a3e1f), (0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820, 0x36aa0d5e975edde01f0a72af9174f2a19e2f5c700fc7688e873acb399f7356d2b154f0bd02e5f3b3bd146da734b33be)),
 ((0x12c934d32f974711f81b92f088890aa0b67ba550e6fa78778b95f150805110907f35c679de8ed9998450c311518769fa, 0x3440e2aa711be6fbd974dc996b4396b598bea18051adbc1fd18fb14f898f4998837a72b669211abca1d302df0f8a3fb), (0x171369032f4ad38d1e29a46321a81a5726e9a8d5f03524ba06446b2ff485117f6a5bb329310ccf06b769e19649efba97, 0x14fec701e8fb0ce9ed5e64273c4f538b1797ab1458a88de9343ea97914956dc87fe11274d898fafbf4d38259380b4820)),
 ((0xd0d786606ffde72020f633da7364831639c7f47ec619f22c962a8fa7162ec9a550eaa0c175127342dcdeeec08469a2b, 0xf711ba3e7eaa0862f9e1cbe58f39243130c28f8a931869a8043c0495b6e775e3ec3a435710c5b259cc484acfd0cdd17), (0xffffffffffffffff, 0xcfdd90f914dd0562eb68997a7036d5bf154aea040ea63d5db4aaf1e4b87f38ccb081eeaf62aefa620c10b8b5483f1d5)),
 ((0x1450cec45b41d423e3cdd1d84b8f6d015763d11189bc3f44b22c4b882b5c903a43750523a8f2f1ddcaeb2f76dbc3d26f, 0x1800b8aab63fdbba20b2cad15c9169144e6199fb88f3c7102d0c3efe465776928b83fbfb10f2bd0c76ccea4d8600bac9), (0x9a6702e761be85b1bc30cca5bd6ddffd8392140e7fa3b9a8dbbd040337a858cbe44ce3f35b33d8c235cbff5db14a37b, 0xffffffffffffffff)),
 ((0x18619882cad717095ac7ad77c1f7bf7ef754b4f2915187c20b320d5092242eaa384a21c367a44396c4de2b6f5b6b99fe, 0x152eb0153f748ddd427ed84f66866c1ac0d25534e25a1528ba611f02cd0b3f6edf5a0a6f8ddae2c87514273b631ff344), (0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0x70bc8b5b299c21f526d6d54e570115de8f2cbd97908ee9432e9cd540e996cff4abdf597a065dcde8dde5e7ee8afc3cf)),
 ((0x177c8064b82b3b71ca214ce660d7026ec4dd44e3056ce48bea42ad5ce78dabf3d435053a72b06d33b9984c4d4fbb78d1, 0x179cbb7bb27a74fc6d997a2b2d8369ae683df50f3624714aae9050f07cabcc3b797d2817fab532512d95f6fdfdd07702), (0x189637b3ce8ebf8fdc648a7bd1d4fb0780a53e3393733dc451b38421feeaf53586fe77612a582b57fe630719cedab285, 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)),
 ((0x142595a0290ceae7c142d074b8f85420df2f696574ff16d69ad86c9292692b12fce8f72ba3248473d8b3449f0b6b82c9, 0x148a81c451c7084b4d53475138219a0af876d2b881c231c9b6ac62707d5ce14b0e5988fe22dc2f3b5be62f0b1455be27), (0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab, 0x1576ca48a53e42398267170e7294ea618c038fc67871b94268b354af056fa9e673ab2047ee9164807b7c623be33f6bfe)),
 ((0x2645ee453fae65bad2bb5963ce38a24a078847077be4fca0e450e57eecf3995f1bd12244b2304ff0e19549b921c57e0, 0x2d13a015fdf81e2befae43f65340827642c9daff2f4d33bc732baac34e5f8300637874847722eeec0f549c550410ee6), (0x15c34eb2594be34ecad1a35a398b8c8492e3be7ade1aff9251a45b4841a2e3465eba27389006b289a8382aa2290c2468, 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153fffeb9feffffffffaaab)),
]
