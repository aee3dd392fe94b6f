// Reference data computed from the definitions in FIPS 180 (roots of primes) and Python's hashlib.
#include <cstdint>
static const uint64_t REF_K[] = {
  0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull,
  0x3956c25bf348b538ull, 0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull,
  0xd807aa98a3030242ull, 0x12835b0145706fbeull, 0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull,
  0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull, 0xc19bf174cf692694ull,
  0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull,
  0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull,
  0x983e5152ee66dfabull, 0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull,
  0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull, 0x06ca6351e003826full, 0x142929670a0e6e70ull,
  0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull, 0x53380d139d95b3dfull,
  0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull,
  0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull,
  0xd192e819d6ef5218ull, 0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull,
  0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull, 0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull,
  0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull, 0x682e6ff3d6b2b8a3ull,
  0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull,
  0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull,
  0xca273eceea26619cull, 0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull,
  0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull, 0x113f9804bef90daeull, 0x1b710b35131c471bull,
  0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull, 0x431d67c49c100d4cull,
  0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull };
static const uint64_t REF_H512[] = {
  0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
  0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull };
static const uint64_t REF_H384[] = {
  0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull, 0x152fecd8f70e5939ull,
  0x67332667ffc00b31ull, 0x8eb44a8768581511ull, 0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull };
struct RefVec { int len; const char* d[4]; };
static const RefVec REF_VECS[] = {
  { 0, { "d14a028c2a3a2bc9476102bb288234c415a2b01f828ea62ac5b3e42f",
    "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855",
    "38b060a751ac96384cd9327eb1b1e36a21fdb71114be07434c0cc7bf63f6e1da274edebfe76f65fbd51ad2f14898b95b",
    "cf83e1357eefb8bdf1542850d66d8007d620e4050b5715dc83f4a921d36ce9ce47d0d13c5d85f2b0ff8318d2877eec2f63b931bd47417a81a538327af927da3e" } },
  { 1, { "505ac657b400452e962169d8b2e82f568eccec75aa2f8b555aa44e98",
    "4bf5122f344554c53bde2ebb8cd2b7e3d1600ad631c385a5d7cce23c7785459a",
    "8d2ce87d86f55fcfab770a047b090da23270fa206832dfea7e0c946fff451f819add242374be551b0d6318ed6c7d41d8",
    "7b54b66836c1fbdd13d2441d9e1434dc62ca677fb68f5fe66a464baadecdbd00576f8d6b5ac3bcc80844b7d50b1cc6603444bbe7cfcf8fc0aa1ee3c636d9e339" } },
  { 3, { "f2e706a75a734a57491d66af2bab4080e3b8a2478f40b3d0a0b10a2a",
    "d71caa65d53e400d34d3c867092f40b207b05bea2e06068409ff8fa5c5d3757f",
    "5d74d9bc30e95747743af5665f42a8fb0fc55a480507254736111c983934ec44c8e41ebbf04512e2e4ba33f31e056c08",
    "321802437fbbbe3eddf64bf7db8448ae83eb72e34d3a56818d7149e476773157bcde7d332643f3ab5d7af8441d033a104f63f7a916c41b3a5178b4e8e4c5f2f4" } },
  { 55, { "0d860748207608c5981f065104dade12753d5f435d69f01702d2e4b0",
    "0c74b286e2c8b409ed0fd89f5a8344aeb274bda5d9bfbe7b8e537cfc6142736d",
    "d7703ce14b2b2552d3b09ed0f74cc8e8a1e190aff38bc1e1cf17aea37c65631d7b4f1bb226bfec9e8e096978fac3bf24",
    "645e05035c3f82b2f0a760fccded155d51d286953f4ee988faedf5a4acab0da3b42521d47a1a993a7c4537f2fa8e381d9340165e8e6b2af7c2c0f4cbe156629d" } },
  { 56, { "7c0588a87d182bec8fdcb1b5b36bdcbfba84386b33a4f28417882c9c",
    "8136496fb4867a08f8c0f1afaf000ef4093ecc2d544f4f808ef9d5945ca4c2fa",
    "1050d08599e91bf58849fe7ee0907e03259d2b4565797e236a7beaacbc65cf9647cbc4eaaaddc8a474a830bb7d69e4ba",
    "ece54cf320f6fde4aaa6d071b47d5284873b95cc0ecbfeb7b0a00a0280daae32667f1ad053cd3b0e4087ed753b478a33ca292bceed8f2f9a3687495db2843b3d" } },
  { 63, { "e0d8d9bee4b04b802df633266c9a4b43baae38d3a15a8aa872cec5f0",
    "a7c6fa71b10f6f7bd8ce26f79db5693d265b2cde42e61955077e77c8764bc26f",
    "2c05ff9e1a4c9b90013d439d585c28eb5dda026a2c1267b4cb5a8de9320ab1d85b54a7502930f816ade290aa45fddd3b",
    "7d4336bba23219750ea0aa9cc24db7606060601d53e2aaf072e08e206ff0a8059da010f540804180b7f86dccaf83daa3181a4036d3551e7e3506178edfb4c240" } },
  { 64, { "f3290f7e719ad82d498e329805f80b63559c09d3da9356adeed2bfe8",
    "3ea97ec766b8247739939247b4d4cb362cf13c100deb0cc2ba5391f762023852",
    "48d7333eef9a7ce321b9d7f7fc215af30863d202dcc26129feb8f8af3a599ad34992eb8abfb604be0e8c8ea64eb077ee",
    "f0329105c49386a26c6ae6430ea95c9b6193e2f8e7285c78894b6c10c574fa143b0ec53d3d213e0046397e7a458f87592b1208d88667f62a31879c64517ac844" } },
  { 65, { "392ddbc5f3e75f7c2b0d031fe299d39b2461077dc4f3582188958152",
    "7fc8e770811fb1035a2279b782a7b04024fe6a2229e9bb11a99686d3ca65f4a7",
    "128075d9eb58fa9122efaef9917b185f0aba51f5af180538055c69b8b4869ed1180a14b19b9ef97292bdfcffd64c41e9",
    "7fd0597e35fecfb4664fbc332af359e7117f4e98d36ad69ea89475a8b01642adc04b555047513c595f110a9b7398dca59df5401addd5060a959c6fc54ead76a0" } },
  { 111, { "6c6fd3a3d390e5e4184445aa4ddb2532543c92509f92ec6bd68e2139",
    "c49e87f4dbda5512feaf56f1ab3b2813a1e950f48726564d5290c0c72e4947c5",
    "7b8b9302982450cd2ed201f54e5e9bcafd2ba218e7e8d261875bce2e270ff135926dcf69a38ce0801d351381c1b5235c",
    "f02935b9eff885ad93b40a21691544a497c0f79ea78ec048adf04c503fd4647196caf761f383482a32cfaa666a09a77a84997cf66c95f0b9a016d0de3d21484d" } },
  { 112, { "1e970d3f0cfeb068bf93f3c3a3e159545d3001912c03be81f2ad3227",
    "1fd5f1e32d3e8fff16bdf575939f903fc52804002253a36f28058cadc491cc40",
    "b223593f3c7c8bcc8e78b21e93389b161105f2c66fecea0a0a2dd861299880d4bbd22464845402fd9fa55efdc05b2d2b",
    "d2a41957e85e8dca4f642ffa10ceced900ad64035184c23df105c7c89509c4fc853800a3c5951ab849ec075d116c782d561a24264de7395d0b2efb5e28d2b562" } },
  { 119, { "cf7b2ec6d930192774f622cc34dfef0b6e4fed87802c20c29b680179",
    "6cf3e40eee6bd154b923dbbe0b421de7934af82282113dd285bb895e4bb3f8f7",
    "e50e00bb8c3299234b92086f0f17f16a45d976bebe7e79668753eba5789a807d00bc6b3195cbf10886f7d966048236ec",
    "9d60f275f7640f3aa76d2582230031e0a960aae0ac00da9bb0d65a36cb57b94fff9fd08f076b5aa1543e15f1f6400e27efba2d34bcfff6ec5f0cb3c1595178c1" } },
  { 120, { "b2859d7ecb8ea88b782c4e16931dfe46329cce0d8f74b1375424e924",
    "696e486e83239a511feef5f0b438da322fa51490489668162c6ed9a9c6ad8055",
    "5a1ef4b2107df1f0a8cf2dd92666a50689f53fb681d9d13766c674dd9e0f25fbe425b172a768a60cf6967c6584769150",
    "e91f1b7b44a1c37e562d3048a2d910c958676477b6209aab65e9bc24eaa5b2c02bfb49c684d6550ce6dc861c1f94890bb6dabead6820c653be64c1c373cbdaaf" } },
  { 127, { "eaf6ba174eacbccc2083f42b4f95f04ca35017135f1b86f9ade825c6",
    "2bcc276222962a8489f66518df75ceb051de1e5fcf9cec388ced69ef82dcbe12",
    "55b23324d9bfe83a78ae0462f36e7e96aa720d831ee4e5c3b390a5ff2e4d39f4e7ca4c283d9a9626b941d1de8823cde1",
    "8de81fa2318600b24d451e5ffdaa7831b807fe45dcfe4a6127590b0e32ea313405ac9ec24c5f3fbc61d6e1ada11fd67785c0e45f386a077bc9722241937e1604" } },
  { 128, { "52c882e09c3ad34c624d509abda9a08a9619bfe6b7fc24df151ec024",
    "3b35116c160c0ffdaf1287960af39caf2760811b02a36e3bd5294bdd61eea9a9",
    "270c723fb72409cf712aed5848043bf075b7d59eb7fa211d8b88bd0222716a9487528dcad44766816e1e69fb5cdd32e8",
    "19a5ca60c1b81d070e81980f48f2b856f0fa8bf1e85b79e4796c68cafcc92b5a7b1da3d7a6c96e3ee831b32d9655df5ce14a16822e72aaf7555c88c1b2b49b9d" } },
  { 129, { "43b13ddf1ebacff7c751dfcc5a0b69f804bda1a45ffb222b8c9dba6e",
    "2f8375e93af8ad9fa693f5f28f1f0d218678da7fb5554be6431c2f3ee245eccb",
    "4d122072c80fd9451e0beb2cf5a1d61d7faaed78536aad0ca26f2e56055b703911079bdad64f512ac64d3d85631c929e",
    "ed312e1560888383d74ea21104bf6bef41e6c47a6b3eac2e7f2e8fcc88b472ba2307c8b8921dfb519addccf0b0da1cf80ebcbcd86235d67eabce1d016a571db7" } },
  { 200, { "89f2bd248cfc09f72529a977ce07a832205c3a147c63cf41614c9d23",
    "251c65811fcc946ccc3ff8d8d5b7123241c9dc9f4c9a54871b4a274d046d0950",
    "5116f3bd506d00c10f16e3ee46c3415b6500e3b901edf507eeb077666887682cc34d2ca34f1062e59e30081c6579d973",
    "5d935daf0a625b7fe063f94dcdeeed3a9a4044ac32e8034c335931025f1c8d68762a51e8ef840380f18bd14c90aaef3a1e3eb738c22732abd2a51a42f4e58ac2" } },
  { 256, { "a82a41fc78a7c8f63ecd80bc150fe90ec08800abdec4236b37517f1f",
    "41b5522dfcce5e658659f6d0f7d12e0122b2489b86da252d1ae3d85d98e7179e",
    "0cd9732e43e2611cfd6d8691ec54e4a1fbfa8e4bcc0f13b0c4bdd3eaa99a7b69f4da71040e2142f894da4b06f14c61c1",
    "59aea8bd5b3b2cf76a24a4fb598eb57778b617c51d4fd749663126fcb7acd2a427981d1b6f54411d07e9db1b74c8d1bf69a6989ca4d56cfdf887708f9d4f103e" } },
  { 1000, { "2004aea98b23953d7a44d110d169659494d876f09b47256652d38786",
    "8efa33fc1c434291a4b485be54d30a2c7cbe2165d4c3469e3ff944842218bb91",
    "03b159e0ebfc83cc01b8b44939ef6b156c14566a3b14d8d743e1bddd9424f899efdd7c1f67f4ebc8d442ea9b3b040a1b",
    "ee6c2cab048b8e8c763c1b6e0ddd161eb5ce0a3fddbdb29e1616b528c737bda752145371a71f634d8cf5daf0aa3d94605b67d0a1c561cb38452e354f906ce606" } },
};
// 536870915 times 'a'
static const long REF_LONG = 536870915;
static const char* const REF_LONG_D[] = {
  "5c36fd3477c5f178b09740a4a5e03f5df1ec7e94b4a1a9a1db35c0d1",
  "408d61601718387fc55efc508e8a2537b138b43a9f67330c526a82d5d5f7d183",
  "3489d542f848ff336791b50eab344405b548eb69236f2fcef886b6b3e038be6446cb3c903f87856c368e212b73784bce",
  "5783ceec8b9ad654c801bf9bb6f404075c5a99d60a09a493834517efa6dfa6a173ec39fb5a8a99fa1f7326b32cee47e5b36ea3d9dd7c05dd08a14eccfcb70dfd",
};
