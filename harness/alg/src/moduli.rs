parameters!(StarkPrime, [0x1, 0x0, 0x0, 0x800000000000011], 0xffffffffffffffff, [0xffffffffffffffe1, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffdf0], [0xfffffd737e000401, 0x1330fffff, 0xffffffffff6f8000, 0x7ffd4ab5e008810], [0xcc7177d1406df18e, 0x7545706677ffcc06, 0xf47d84f836300018, 0x38e5f79873c0a6d]);
parameters!(StarkOrder, [0x1e66a241adc64d2f, 0xb781126dcae7b232, 0xffffffffffffffff, 0x800000000000010], 0xbb6b3c4ce8bde631, [0x51925a0bf4fca74f, 0xc75ec4b46df16bee, 0x8, 0x7fffffffffffdf1], [0x6021b3f1ea1c688d, 0x509cf64d14ce60b9, 0xbaf0ab4cf78bbabb, 0x7d9e57c2333766e], [0x81147668fddd0429, 0x1da2136eb8b3f20e, 0x1f0d9dedfedfda50, 0x1b2ba88ca1fe18a]);
parameters!(Bn254, [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029], 0xc2e1f593efffffff, [0xac96341c4ffffffb, 0x36fc76959f60cd29, 0x666ea36f7879462e, 0xe0a77c19a07df2f], [0x1bb8e645ae216da7, 0x53fe3ab1e35c59e3, 0x8c49833d53bb8085, 0x216d0b17f4e44a5], [0x5e94d8e1b4bf0040, 0x2a489cbe1cfbb6b8, 0x893cc664a19fcfed, 0xcf8594b7fcc657c]);
parameters!(Ed25519, [0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff], 0x86bca1af286bca1b, [0x26, 0x0, 0x0, 0x0], [0x5a4, 0x0, 0x0, 0x0], [0xd658, 0x0, 0x0, 0x0]);
parameters!(Small, [0x1fffffffffffffff, 0x0, 0x0, 0x0], 0x2000000000000001, [0x1000, 0x0, 0x0, 0x0], [0x1000000, 0x0, 0x0, 0x0], [0x1000000000, 0x0, 0x0, 0x0]);
parameters!(Proth2, [0x1, 0x0, 0x0, 0x7fffffffffffff0f], 0xffffffffffffffff, [0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffffffffffff, 0x1e1], [0xffffffe6ddbec7e4, 0xfffffffff2a6a2ef, 0xfffffffffff8e8f7, 0x17a93f65ce97], [0x2556d4185042dc87, 0x583e523b6e7f5644, 0xffa6e6ad44b039af, 0x594225c9f242c7b8]);
