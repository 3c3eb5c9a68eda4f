---------------------------- MODULE Params -----------------------------
(* The FESTA-128 parameter set of the paper, as independent facts.         *)
EXTENDS BigNat, Integers
BB == 634                                  \* masking modulus 2^BB
ChainLen == 632
StoredLen == 632
D1F == <<<<3,6>>,<<19,2>>,<<29,2>>,<<37,2>>,<<83,2>>,<<139,2>>,<<167,2>>,<<251,2>>,<<419,2>>,
         <<421,2>>,<<701,2>>,<<839,2>>,<<1009,2>>,<<1259,2>>,<<3061,2>>,<<3779,2>>>>
D2F == <<<<5,4>>,<<7,3>>,<<11,2>>,<<13,2>>,<<17,2>>,<<41,2>>,<<43,2>>,<<71,2>>,<<89,2>>,<<127,2>>,
         <<211,2>>,<<281,2>>,<<503,2>>,<<631,2>>,<<2309,2>>,<<2521,2>>,<<2647,2>>,<<2729,2>>>>
DA1F == <<<<59,1>>,<<6299,1>>,<<6719,1>>,<<9181,1>>>>
DA2F == <<<<3023,1>>,<<3359,1>>,<<4409,1>>,<<5039,1>>,<<19531,1>>,<<22679,1>>,<<41161,1>>>>
RECURSIVE ProdF(_)
ProdF(f) == IF f = <<>> THEN BOne ELSE BMul(BPow(BNat(f[1][1]), f[1][2]), ProdF(Tail(f)))
DiamondName == "full"
Cofactor == 71
M1V == BHex("1121232ed4f9b11fabf6ca5a23696fc3b771")
M2V == BHex("52c628ea69735cd23a8a70cd")
PPlus1 == BMul(BMul(BMul(BShl(BNat(Cofactor), BB), ProdF(D1F)), ProdF(D2F)), BMul(ProdF(DA1F), ProdF(DA2F)))
PP == BSub(PPlus1, BOne)
\* supersingular curves on which the first ten or more abscissae of the entangled basis lift to no point
HardA(z) == << <<BHex("e1abf8beaf1b1a041e4e3fe5a882d1b56d71f87375ba465ef9ebc732ffe1521d619eb12ca6a439e620f6c4112449b3c27e13b5ec01b5c68f952605ae65be8902ab12fe83e8afb39579e7c55d667bf18aba08778a145d0eee85267231f8d41e25ccd9cd0d8d473dcd670396919ba72af48e86b584ed567e490910a931d0264349372df80f22ea23329f1a8eafbb619c5fb239b0462955b9d225b9dc3fea39169634b"), BHex("141fb736b51c47800ad41d21a7fcec013f3b4eac1a5506cd061a3bf42782acaca003c449acc6df563b8394654640403342c39136303fdb8bfcdbaef4904800f4f53ee95ed10554d34742c26c10d5f51d67bfffe8cfc9a6cba2dff3e7732b58fc2a19019fd8a2cd2c6877d25324f7ce0f5b50e3646f3ca9aa68f4f3dd7f4ab3a8adf06a2131e432487116abb7af8243e1af816b89dbb51c3c3741e9c3513b42a5ffd8")>>,
     <<BHex("546c6bbefaf93e4593f7a7172392e3af1c8717e3d1a2d268f0384cfe9f46a632183d1d4e601ae0c0395fcf2a17f991edc373f5bea7a905115b9da07b705186d119c042df7a07cd68379e93cd9e319965e65dbf12e3edc15b88c41ffa86027e334c6099b69d0aab0254f28066af8b4351975b43b51002fa4a1c5b9417a16c0d676387f7b93234dc04b4c8873a684d26d300cfc73ca660a480f8206fac91031006152"), BHex("12191d0d0ebbd5c6f016becaefc0e65bf16770b517360ef53e2cad7752527a98b79f0b4b0c453b47debc49e3ef80b0a0360af8f29ccf156c2725a8828c3bb0d295441cd2d8920981f07e92802984b7798ae99cbdb1dfcaa65d6aae9ce70296c9c9b1d56f300a1805df0d17ec1cb94145b0ec404c9a93d2adc54c17a2b19e6b7c769e18409ed6cb704b7265e2906bc8be456a36b103d32282f004692620dba98ba840")>>,
     <<BHex("15fc168552e765f7ce2334af70a94aa1d4be4e63ae1695ba438d9cf71d021dc9caecc0e5b2126fdc17f6d987d5522a7a67480b833548b61a15729e571d55ba2c03d4127bc6aa8d9d2219f482c65f479971bcd99989a3da4b0705a973f8054cba8c43e6f1209aaac639183dd10792b34ead4da0c8532c46521138b4d2982ea0606729aa505b9c834f97fa3ba603b74417b24adfee7c2729b29ff47305b78a9f38cd75"), BHex("1366f1ba34dde9ef2a440861eae6469325dfa5b26ed5ed65a6671ec8e710fb1cf64898f485f65f454a117492d54ef3993e175e646901366591ceace2493473b55a504f23e86051aa69b6f80ad5b03212315cd2ea54116ee83fb76f93355fe9d22b9891e9606c7828714951597551cd4e4cfa72faa161dcf35dfb12df5f4db5fa807507517e1cee5781e60b97c86dc1cc45bf00e332e5e6f96edb74f03cf7fa30006a")>>,
     <<BHex("f4dbc074ecf623d356c2e3d80b2ce8eae37fc115907d5e30b35978bf5b230ca14f42e377f530ab3648fcf17de99a5a10f6fd2763f3228b079262d03acafe672a2610f56ee940416220bd1a77932270bc52426eaad3a0547af915bb5e48592b16e5bf58195fce7557e2179cc7417a5f4f8cff777f10bb467577d0d14a07e2e1ed38a3ee3941022b349fe3e7524d68741732679fa4bdf42027c1a49e79d7d837d4812"), BHex("a92aa89fa5a0c24bfb261699de835cd5c2bb00cf58443ecc1b869f4e36a599bb84bc184776edeb33e93dd57b2bea50803e1b57544c551e8fa292c80bd828798813f4f6ad3c70611b39c59137127d0b5370258c8477c90df60939f5e8e0f487efb76a2ef498c4173872f2a9ce144e245e91e5a9586850d603109c0376c48d8b1c0fa5ffb19ea5542453bb1b72459eed67647e27726abfd21b11873065bab72629d35")>>,
     <<BHex("1300c06c63d72a684e8e0301bc5c4d94a23080e55106b66533e1688cf9cad8ab91c95f340bbf1a64289798db40a8cb18267e0d11b8253c3a6b3f1f69d842c026c8cb9d9ab2e6aa9aaac0acf9ab3269e434f7e3c3a5fc99da4777c66eee443f9d88de8dca12e2a1173066705eda722aa3b66e5f1e66b46812e2a7cc98a7713f328db721e341d0dad59d26964aa82eb677ccdbbb98bb70b567a92e8defa90e711b440e"), BHex("47980d0b6bc1bb25623f2616c9d95686027eae4ddb5d81d0b787c70b2ea4cc4bb294b24177a52c4cad987bbf8cfa3078bce8fd02bc6e1eed3388818c75e1163cba78c94215853613e7577be7f5d8280550f0dffb8d33df1676aa05325333d877fbaec8c767823be456b3a60f205cac07851f89f447b1dc5a859c347f26af958bc23fa399b1edda3433e2d438fc5c36da4de0c98b938495794176b284bc8b8fbe51e")>> >>
=============================================================================
