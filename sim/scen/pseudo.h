// generated by tools/mkpseudo.py
static const char* PSEUDO[] = {
  "bfa17dc7", // passes the first 4 prime bases
  "1f51f3fee3b", // passes the first 5 prime bases
  "32907381cdf", // passes the first 6 prime bases
  "136a352b2c8c1", // passes the first 8 prime bases
  "351591274f9af9fb", // passes the first 11 prime bases
  "437ae92817f9fc85b7e5", // passes the first 12 prime bases
  "2be6951adc5b22410a5fd", // passes the first 13 prime bases
  "204b212272807927b357671aefdd4b4b7a0f12749625cd71b549d6b8b9895e97fcf9fadcaf26c618da83c9ec7f6b39020661ba422e6c820ac14d3b8329d6c71d16a1953afd60a0aa4c63019f9c29c08d05b0c4fcd041febeaa5b0e8475e6e96cc49478ef6e9ae877b4d3be8107bd3c64b35ebc7f2bd719c6417207aaec2151812719b5b5bae64562bcd2ed44177a2ac314a44f344df4a12e0d4fb8ff99c4099bfc77924b2b", // passes the first 62 prime bases
  "9110b669", // passes the first 1 prime bases
  "ccb775df", // passes the first 1 prime bases
  "f95da5e5", // passes the first 1 prime bases
  "dc5ffddb", // passes the first 3 prime bases
  "f32ac1e1", // passes the first 2 prime bases
  "f20d102d", // passes the first 2 prime bases
  "8432295d", // passes the first 2 prime bases
  "dc5ffddb", // passes the first 3 prime bases
  "dc5ffddb", // passes the first 3 prime bases
  "8931d861", // passes the first 0 prime bases
  "8931d861", // passes the first 0 prime bases
  "8931d861", // passes the first 0 prime bases
  "8abc77829f0f741b", // passes the first 1 prime bases
  "afb91e5a81225e81", // passes the first 1 prime bases
  "83895b0803d7ae41", // passes the first 1 prime bases
  "fe54c3c75fdb2411", // passes the first 3 prime bases
  "fdad7f4bc1bb53b9", // passes the first 2 prime bases
  "be86452f2b07a035", // passes the first 2 prime bases
  "bbdfdf302800110d", // passes the first 2 prime bases
  "9b5b1580d68ae695", // passes the first 4 prime bases
  "c30d94472eb974f7", // passes the first 3 prime bases
  "c4bbebc5db8f2241", // passes the first 3 prime bases
  "dad4aaba89710825", // passes the first 4 prime bases
  "f9b8a10c015f32d1", // passes the first 4 prime bases
  "9e3affc799d1e47f", // passes the first 5 prime bases
  "c39c0a1a2bcc4305", // passes the first 5 prime bases
  "99953dbc5d27cdf1", // passes the first 0 prime bases
  "de3f955263e434f9", // passes the first 0 prime bases
  "bfd6735e714dd351", // passes the first 0 prime bases
  "b67410c5f69dcda328b19ee1", // passes the first 1 prime bases
  "87094037d46b7c6972d73ce5", // passes the first 1 prime bases
  "eaa37131d0bbd8327b696921", // passes the first 1 prime bases
  "fc274e235ae3e14510ac0c49", // passes the first 2 prime bases
  "d58f70105d745354a081be3f", // passes the first 2 prime bases
  "be041e43a0946d12d2e3a181", // passes the first 2 prime bases
  "a75ed1569b324e9aa6f3dd8b", // passes the first 3 prime bases
  "c08ed3d8ac26ff49b2707d39", // passes the first 4 prime bases
  "af477fbbd91981d1dc06c74d", // passes the first 4 prime bases
  "e2fb6447d869d9246f551061", // passes the first 3 prime bases
  "9edb9f7c5eb4014fdfafa679", // passes the first 4 prime bases
  "ae9917144fe43b47f932cc83", // passes the first 3 prime bases
  "a45b6f1854b15eafdb9e6c51", // passes the first 0 prime bases
  "854a3b22445048ecc5ba8ce1", // passes the first 0 prime bases
  "adb88e84ebfcfb9a59045459", // passes the first 0 prime bases
  "cec87fb4d78954cc25052088bebe4d6d", // passes the first 2 prime bases
  "e15cd85847d040e8861e42489571c851", // passes the first 2 prime bases
  "a2ffbba78e536a2cda6c2b0af6481341", // passes the first 1 prime bases
  "a98f18e9aba47dadc750c0a09d931201", // passes the first 1 prime bases
  "f6720705976a47580c9a9c7a8f6e1369", // passes the first 1 prime bases
  "d64d0a2b69c804b7a4bc08442752be49", // passes the first 2 prime bases
  "9a94dbdce58d51d941734d04cc8114b7", // passes the first 3 prime bases
  "b0f87d0c177e51e3f2a2dbe2b1505a61", // passes the first 3 prime bases
  "ad68fe1106a8cc235ebb183dedce2ee1", // passes the first 3 prime bases
  "927d947dced278bde35d2b9a5ed6c93d", // passes the first 4 prime bases
  "90cad7ee3b89fc0fa3fb4bbfd6d4e7cf", // passes the first 4 prime bases
  "b2465cd7afa054f7f96162d28cf2128d", // passes the first 4 prime bases
  "88c0eb9b1524049868431834c082b29f", // passes the first 5 prime bases
  "de806e1959ec86cf2a2e84982e3858c1", // passes the first 0 prime bases
  "89ff91f447a7f28a4a0e0f4ce4536911", // passes the first 0 prime bases
  "b674924e07faff6d5cf2ce8018a132c1", // passes the first 0 prime bases
  "ca79ceee0b9db5f47384139dd0c41a1b7b4274d744587666d4a3ac8b19183651", // passes the first 1 prime bases
  "c1c7c286a03d2b8dabdcbcb70330b3b94302bde6351d895460d39a011f652665", // passes the first 1 prime bases
  "fd5c37ed7191d0010fe01c63b35f3bf8be57b566b13486ae934dd59a2f913a81", // passes the first 1 prime bases
  "a496df8dbf31a4eda1114c6ee5dc82ab85629afb675c33071e2484e86a936d21", // passes the first 2 prime bases
  "c4ed3955a48ae519a615eed9914347d554cf94f67ca34bac7c8e77704e839247", // passes the first 2 prime bases
  "85408dc25b3b8edfbb16110ba467c66c6736ce3e62732fe0ce12c0e8675dbb23", // passes the first 2 prime bases
  "b9dafd32b1b0a7821b9dea4c673b14f8e4ce1a8436a1dac9874350b85587830d", // passes the first 3 prime bases
  "bfe3e135a0197b37e289d9488d47e03886041980e14a29c2421530c577921131", // passes the first 0 prime bases
  "efdcc1f2ae5527fbb5cc9543fabd62f90da740f939b2c96e2f95f7354d6639e9", // passes the first 0 prime bases
  "eb385c0b03da0bccfa4faae59a08081aeafa42ded5939c5cd59a419378584801", // passes the first 0 prime bases
  "cb88868de9a633728d073957640b432fa526ed1aa34c3bba38c08a7f48ce80af3dd2a82f6940b3dd85b3781a94cf41bfc033076a0c2cf33e02e2302e489cd085", // passes the first 1 prime bases
  "bb302c487ac306781c96db2a034efe17c4a930fd73250939628e543a8ce6612eb51ece4bbda77749b201dd4078c8387aa4f43aff62e194767944b1caddf82e01", // passes the first 1 prime bases
  "bb76b1c693ece44401492d888290f0c77f5456ef9e651efe17c01f04a105e61d5b0a73eafccf1eb4b08648677a3cd86101a28ee7a4fadc16f0e9c821c6b9460b", // passes the first 1 prime bases
  "a3369ec659057a1d8c2ab4216e387898c5a093e80b471d2a0314dd0b3c672d7233713563e4ea9ac0c37f7cc17844c6745498287e792e0b6f45422f937ab3e811", // passes the first 2 prime bases
  "e242267f9a8ac0d99e9a4c6af7f7ea520e86c62b1733bba1c8cfd6f8a404a840578826d6df4175a01d51ef4d16b28afec66948a6916540c1c0a653ace27d0399", // passes the first 3 prime bases
  "a1868bd0e6b097c5f624833bc3d937e2ebe49cd8da050dbec78caf427ba00c754aa43e2ebf72727eaa9217cedfd61e5bf59d8116b37a10681707b999c6b7a091", // passes the first 2 prime bases
  "ee39ec4f32fb858ae369d89d50ad075d2a206408a9a950e381675e4939194ee66272d85b03ceabdc49553918278f70296026790af765abf478b867f21bbc4461", // passes the first 0 prime bases
  "f45e1e867a2cafeef7e01ec49befa1b902a65802c0c7acded26bca19764e6be25b32148d50cf546cda51581958dbb46379d54ffd5a203b424c3af9ffc0709499", // passes the first 0 prime bases
  "8fb340bc7ee4232e25d4cfc210bac63ffd2bdba98dffafcf4188bed8a4d08be0cdf6085cdcad0271b4a135be24d6a2edeaa22ce7bc7dab3da9cd196e8c3c5819", // passes the first 0 prime bases
  "f79d13cb9d1f2c79f1c3796ef3e58a6f52391ec3", // 160 bits, passes the first 7 prime bases (Arnault's construction)
  "cebaaa97b748f17d6b94e293bd3bcc70535add2a908f207dffe5fa38c735048b", // 256 bits, passes the first 11 prime bases (Arnault's construction)
  "eed9aebdd9753d5eb1dd8eadc7d2f264b34c86ac3766abfeaa036e3c8e3a9c3b", // 256 bits, passes the first 12 prime bases (Arnault's construction)
  "b70fa57c744b1e2a60922239f334d19e4a8a957521bddadd5841f88d1de9958e4197c4c43e4e09d5526aa1cba57f106e5e9344b0aa75bc703aaf62298242477b", // 512 bits, passes the first 22 prime bases (Arnault's construction)
  "b41b9163e7be3317bcd69a7a1152e814c2e2e26a5175b0a4c8530f6f749cd6c47ab8f1efe771d026358ff5a2d20d367fbbb23286f7552089336449d6a4fcc05b", // 512 bits, passes the first 22 prime bases (Arnault's construction)
  "bf63dc140a59b3714b5e511ca504191fb90a93bfe1dce14a362f80182c7b4700a0674166e729096a7c5be8361ce152b39101d5c5dfbe8bdf02e492f1525b60140e50b0e761ebc48a0cce697ce1a1205b033f87f02facea5d131681d49427389dc8a44409a1ea7c3e88fe569688c06f55f3da73379646c2ae38dee5eddd7693e3", // 1024 bits, passes the first 40 prime bases (Arnault's construction)
  "d7631bbe98fe7ac9e4b92b771774bd66f8139a621f62e0e97f355289fae1a603f6ee731577ef296bec49cecddda5fbc8f188d694898c809b55e9ee8bdbf4a1dbb57ddf651c75fc08bd3b6c4210dec92e5b9f741a5172d2f0860c2045db804f01d59e7fd8f829f738a62dbce7e0cd1162855652337da9e702151360d601bdd84b", // 1024 bits, passes the first 42 prime bases (Arnault's construction)
  "ae7e2d76cd37b96ce58443c662db539424f30e5fffde532e26d03dbf97629f19c3378e80039580aae300ad07a0a68d29b313875006eeb641dacbc6e9bfe59906bff2126b2ca2f1d4de64f0d370539bf94a2db8c03746579b2facb1553a0440910cb4f45a1ba5dc20cfbaa0657663d0f07376d42877df432076b789603de9df540591333c3e003c75d652272b0dda243b638f91b3eda58e77a20f515bf65acb2b009c1029de69f237a918204b9f0d5dec3d35d62735cec9ea03cae620b3da688761188b1269ed6929d206cb868abf8d524182de6c72fb3b73bb55a709a2521bad1a2a58c8062ab2156dcb22fee97796ce5da67cf85cf0860f1521cfc3cd918edb", // 2048 bits, passes the first 75 prime bases (Arnault's construction)
  "ba883b1c2398ee799972db067d5323d1018c1dcbf89f28a2fd02882cf42b5cf420674e5c4344ebae57dc2190cb63cf7c424938c37d4e3258cd6b634759d487f5131b5b24eedbe27c3e64a5026d1425379c29798cc4c31de729c1c935b70f1e1a957cf1e9537c94563af88f3d7ac50b831c0e3edb507a0b8f3d3d97e1961c832483b171268cc09fe29ec0cfc970f121e46a4e1b4603c6179b21ab8e8ff2e91d63907a8de00aade6a53e6ee9079fab7234b9435f192bd4950219f45b289330f14ceb02dacda1da5679de2167413004d3c1bfda66506999f751adf0870c789be74c11b07753d1da33fa391a28ce239425234f7c8b1ca4e943d96af7e3031ca09e1b", // 2048 bits, passes the first 82 prime bases (Arnault's construction)
};
