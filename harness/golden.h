// Encodings written by the library when this file was made.
#pragma once
static char const * const GOLDEN[] = {
    "62000000000000f87f000000000000f87f000000000000f03f0000000000000000",
    "620000000000000000182d4454fb211940182d4454fb21f9bf182d4454fb21f93f",
    "6300000000000000000000000000000000000000000000f03f000000000000f0bf000000000000f0bf",
    "6300000000000000000000000000000000000000000000f03f0000000000001040182d4454fb210940",
    "65000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f00000000000000c000000000000000c00000000000000000000000000000f07f000000000000f07f",
    "65000000000000f0bf000000000000008000000000000000800000000000000000000000000000f03f000000000000000000000000000000800000000000000080000000000000f0bf000000000000004000000000000000400000000000000000000000000000f07f000000000000f07f",
    "630000000000000000b8a4072daf4fc0bf62a365a136bdef3f9fbdb7bba1db0f4062bf1582dd100840",
    "630000000000000000000000000000f0bf0000000000000000ee204189f7c6b03efca9f1d24d62503f",
    "6343db159eb273e7bf584f8f802f63c13f35b0a1555555e5bf98a4c210f180ae3f514690b52a52cf3f",
    "63abec621fa45fd0bf70475ce653f3dabf9c3eadb28cd8ebbfe9f2425f02d70f400000000000000840",
    "63c9850390ee69e5bfa546da762602d5bf565555555555e5bf4516d597161ae63f78ac1bf9166deb3f",
    "6300000000000000000000000000000000000000000000f0bf00000000000000000000000000000000",
    "636c38da0f3d66ef3fa0c2ebfe4b48b4b95c467d05f8aec8bf76ca10fdda4fe43f06c35a3ce738ea3f",
    "6309716b0bbfb0cc3f8f0693c17d90c03f15bf4847dde8ee3fdbe36041ecc3e73faa3db6a9bb82ec3f",
    "6300000000000000000000000000000000000000000000f03f000000000000f0bf000000000000f0bf",
    "63d32250a5875ae0bfc35dd7b270ace93f5f0b4813a8bdd3bff6fe7deca98a08403d26c21953120140",
    "63db918118ad09e0bff0b35ef286a7e1bf555555555555e5bf4dc5a18f4136853c392f6b97ae0d3a3e",
    "631d339045a779e23f1d339045a779e23f1d339045a779e2bffeffffffffffff3f182d4454fb21f93f",
    "6546d2f2dfd1a2bf3f8b99b552b10bb2bf6bd465c3abacefbfc71c4e56bdffd4bfcf727f45f007ee3f282daaa59898bbbfbe0a894dfcf7edbfd8db38a750a3d5bfa8157c86bac4b7bf45cf57869d07f9bf71fd4a46a407f9bf92e95fb197dc323f36766f341a6b6340d065b71d14706340",
    "65000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f00000000000000c000000000000000c00000000000000000000000000000f07f000000000000f07f",
    "65f8b7b62c5568bd3ffd902783ae8aec3fbada8a1f64fddbbf00000000000000002edbe215242ddcbfc6b332835fbbecbf2ce4722fc5c9ef3f64be2bff7b67babf63866368c6e4a93f0b9a44b75cf7e6bf4e2ecd5f2427e7bf3642de2bfd78bd3f2769cda49befeb3fe42927f03b44ec3f",
    "65782feae24fcfa4bfdb7ee47f8d2cecbfd701d4590c3cdebf126bcb51effce3bf8929ab655d2fd6bf284132ed8a64e63ff764b30ea9f4e83f898d1b789fb4d4bf46e4d3f1ba25e13f182d4454fb21e9bfd221337f7cd9f2bf9baaf190b95fe63fffffffffffffef3fe69d3f334f500340",
    "65e71c0f47a65edbbf0006cd1bec42ec3fa5a2c68ac4a9c83fb1a8700ae86ce93f2c424d3c8502de3f1b4e6fd6abb0d8bf35a10f4e7f96db3f8e2668666e58883f0f837c3130dfec3f013f4354fb21f9bf3e3f4354fb21f9bf2d757d354c4a653d25a0aa5b19343142bad1ced682383142",
    "6566fe5be83e51e33f57212f67bc4cba3fd8554091814ce9bf768d4babbde0ce3fce0d3cf0b2ffeebf1c9d2c64e0dbad3fe6068317cc50e83fb1940116feeacc3f99db61998b81e33f9eb117c1185ce4bfe4e0faa7c063e4bf0df124ea74bca93f9a2e9e9f96a3e73f96ac56266eafe73f",
    "6583151ee3b5d378bf9693cee2d65be43fa8e977c10eb0e8bfd781032c147974bfc86d66b040b0e8bf6408aeb5ad5be4bfc6de6447bfffef3f0000000000000000017358b5fa1680bf74211e110592f63f4627b13200daf73fb53133ad82c5c13f8f489ea25ec3184052a7ff8374ec2840",
    "6500000000000000001ce69a6f5554e6bf648ca580e9ebe6bf327a68f98f92eebfdcb7a9133714cbbfe7ec7cda2461ca3fbc838457ebe6d2bf0025d86226e6e53f565555555555e5bf00000000000000000000000000000000000000000000000000000000000000000000000000000000",
    "65e636effd20a4eebf229538f15432cf3fc76caab93cb7c3bf991ec8fcefc5b93f2b1d93bc39e6cbbff340a1f86210efbf299ecd726c4ad13ff6a50fa6b93dee3fbe7e9786e592c7bf6c34f1bf29ded3bf57b688bed11cf9bff0f3e19f702af43fa708ebd51988d43f51483fad61cb8840",
    "650000000000000000d9edbfc5259fdc3fd9edbfc5259fecbf354675cff4d9e7bf919e2ad9c314e33f919e2ad9c314d33f555555555555e53f555555555555e53f555555555555d53f00000000000000000000000000000000000000000000000000000000000000000000000000000000",
    "65eaf21613bdc7a73f7fa11d9b8fb1b53fe28fca3da9d9efbf96cabaadbc0fecbf83bada2fb7c2de3f000000000000a1bc52c15590dc9ddebfa02513e91deeebbf8e7f7bdf05bdb8bfdc5e551794e8f8bffac5ccb54705f9bfb99803dc46db883fcabcdbc268d65140743e562aa2d66140",
    "65000000000000f0bf000000000000008000000000000000800000000000000000000000000000f03f000000000000000000000000000000800000000000000080000000000000f0bf000000000000004000000000000000400000000000000000000000000000f07f000000000000f07f",
    "62000000000000f87f000000000000f87f000000000000f03f0000000000000000",
    "62182d4454fb21094075a7bbe9bbfd1540182d4454fb21f9bf0000000000000000",
    "6281367d60b3141940ea2ded8de78f8a3f182d4454fb21f9bfc2677331fb21f9bf",
    "62000000000000f87f000000000000f87f000000000000f03f0000000000000000",
    "62943e37a0081d104010052f5ef09515405452a55c5844cabf5452a55c5844ca3f",
    "620ab842700128e43f481f29840728e43f94fb5be29ae4e9bf549c3ca099e4e9bf",
    "62dd33b875859a0840375bb410d8a5094046ab3bc23c0bf3bf47072248fa5ad83f",
    "62000000000000000000000000000000004a83b7664f23ef3f4a83b7664f23ef3f",
    "626a39b1643db80540a99bfc765b8e144034e5d83bc9b2dcbf182d4454fb21f93f",
    "620000000000000000182d4454fb211940f3b9727d1c4ce3bf182d4454fb21f93f",
    "620000000000000000182d4454fb211940182d4454fb21f9bf182d4454fb21f93f",
    "62000000000000f87f000000000000f87fde684fd0ed59e73fbe6e95d95f32cdbf",
    "7057cab9f30b2bdc3f549eb9c4c43fe33f425555555555e5bf52cab9f30b2bdc3f4d9eb9c4c43fe33f4a5555555555e5bfc4c9b9f30b2bdc3f349eb9c4c43fe33f8f5555555555e5bf9ac9b9f30b2bdc3f3c9eb9c4c43fe33f965555555555e5bf7ac9b9f30b2bdc3f459eb9c4c43fe33f985555555555e5bf",
    "700855b4dfffc2c4bf3c95827110ebd0bfe539a8620d6cee3f9200c32bd68be5bf2c83e52f348dd7bf15d059c93e85e43ff5403362a8cbe7bf8f0b35585115e5bfa7ede639e423bd3fe260596b377dd4bf6500642b725fedbfae61502b6b02cebfa254fa0018ced13f00a11813fb66eebf7b0741745e16c2bf875b0fe7423ae33fc2ad3b9c7965e7bfb671e767ebadd43f253aaf0d48e9d93f3384c44df342dbbfa977956825e4e93f",
    "707d83b4d20ebbd5bf42c4743a8de9c83f848171608f72edbf369d23ab2041de3f6dba2c4c49a1eabf93cc08195b8cd2bfcc739e345217e03fede92d76290aebbf10c7ad4fdf4cc7bf05696ff018a9cb3f482391b26fd8b1bfca132f81062aef3f",
    "7000000000000000004da005e82883afbff897c11e78f0ef3fd9bcbaaf7b9ed3bfeb2206f2785aee3f9b7ce69ab14eb43f1f6987623176cbbf430954d76cdde33f31a81f603e21e83f",
    "7071d5a0d48e18e33f100dc93ee177dc3fc136fafc105fe5bfd5eead882907e33f8ff078c8aa6edc3f6a2dcbec9d71e5bf22e6a892d105e33f116b454b796edc3fbce10076df72e5bf6d22cc802399e23fa1b5fba0232fdd3f397edc5a6891e5bf0acb30cf8618e33f33a1773c6b6add3f0f6cc3e05a0ce5bfec7c754b7232e33f01953fffccc1dc3f5534a34eeb2ee5bf",
    "705eea5335c177e5bf72312417bb39d43f5eea5335c177e5bf75f56f528255b0bf902f2850e10b94bf47bf2620bcedefbff473408ce0d6dc3f7a39e20f699de0bf67ead0f3003de7bf18c86cde4ad4cebf8d39d0f61cbcd0bfb6731c13dbe8edbf",
    "700b74417f8304ecbf46ba1aea1f0bdebf1db6f9d9b73dbd3f77c47e83f513e0bfaece1999903dd1bf48de8d445e4aeabf76c47e83f513e03fb1ce1999903dd1bf48de8d445e4aeabf0974417f8304ec3f4cba1aea1f0bdebf1db6f9d9b73dbd3f",
    "70d6cb3d97558bbdbf2ecc1c17cc7de7bf712a0a40b969e5bfe87e71a68fa7a83f7eeec1195394e1bfe3f4aba5c3b1eabf84bfeee136c1c83f2e6180eabcf7e1bf45741188ffbee9bfa119a9952f57ca3f301e566be323e2bf680787a79e86e9bf85a84fb6851ace3f0e5594dbe8b2e2bfbbf2ae1995dae8bf5ce5cc7d72d7d03f410f70e6188fe3bf84da5413cbe2e7bf6afb54f73e3ad23f245495a9f008e5bfd3f2cfbb9353e6bf18f594c8288cc83f08ec4f16ccc5e9bf273e677589f2e1bf9ffd10dfb2cd7d3f5a846b276882eabf58bebaf206ece1bf5cdcbc376501bcbf724677c65cf4e7bf7877c4c439ede4bf",
    "70a89c5cabf0aba4bf10d718b293a5eebfc5d0357b803bd2bfded507a4ce6fdb3f9f6886c2e824ecbfbce24f862572ca3fe97479130e18e63fc2814bd6a211d9bfb4bba5751b76e33ff8ed86866feae33fbc9f5922c3c1d13f1ba2bcf8bb6be73f410fbb79ec67d03fd042e7843d13ea3f7458d25b21a3e03fd591477b6341cebfa88462c35802ef3fb60ffd35f946b23f5608b788db01e4bf296972c92d5fe53f15ab775ca1d7d9bfbc56c79b084ee7bf737c58626ec2aa3ff96c80b07fdde5bf43e91a83c0d3dfbfd161b6af0bdfe2bf83797f8fcf5ce4bf",
    "702e5d61334a86e23fcbe4ac768b10de3f9255d8b5e253e5bf755d3ebda683e23fd198429b9e0dde3f0a33b1d43457e5bf55e31e58fb80e23f8f278464e513de3f8c52e19f4f57e5bffa11bdcb2983e23f60c8ff6ec118de3f670fc387b453e5bf007979263c83e23f17e67eefb718de3f91b7edf2a753e5bf",
    "7079d4c97289fde0bf55a49a1e236fe23fa64e45a92ee3e33f6346a9a6a225e2bf4f91498065b0e33f47d9107dae85e1bfd1875f80f913b63f7e5b55413da2eabf47d9107dae85e1bfa7c5cf36bcabb43f8051b96faaefe8bfa64e45a92ee3e33f",
    "704c490ca0678cdbbf261a52b910cdecbf98e4f3275779b1bfd7aa9b1e658cdbbf2934b71a0ecdecbfa17bc4a2aa7ab1bf077e5afdcb8bdbbfbf3a51b832cdecbfa17bc4a2aa7ab1bfff2ebd7ece8bdbbf4c75ef5635cdecbf98e4f3275779b1bf",
    "75710000000000000065bd9bf9c14b15e2bff7ee924124d9e6bf1a6c8ad44d74da3fa41b0ae8d93cd53fd63410ff7cc4d03f8958f450caffec3f587fee2dc82be83f6bdc14a4d6c6e4bf78a315460ec1b6bfe46a3ede2f47dcbf78409908af59dcbfd8112b67aeaab13f9575f2033a46de3fe9b402d6df5cde3f7900000000000000704dacdf0b099fe03f7ea3b035978dc0bf7df25c16a007ebbf17e86fc609f4e93fa1874b9aeb74e23f594b70dcbd03b9bfd9873d09f1e2e43f7a24706598578cbfb99a17b1563de83f98cb8b7a1625d53f8a8b874d194ee1bf684badd002c1e83fe6d2618b56b1dfbfe2fc816939c4eabf50e1401c730dcebf",
    "75210000000000000062000000000000f87f000000000000f87ff7871713cba5e13f000000000000000095000000000000007529000000000000006300000000000000000000000000000000000000000000f03f000000000000f0bf000000000000f0bf5b000000000000007529000000000000006324c2f628d0bae4bf2c0d4f634bb2e13ffa641fad34c4e03f27d759aa428a573dbaaa02684168a33e210000000000000062000000000000f87f000000000000f87f000000000000f03f0000000000000000",
    "75710000000000000065a858d0fc3a80e5bf0000000000000000f506c6a450b3e7bfddcd6c93cd57b6bff469912becc6efbf83a6033ff844b43f99c6528d0a89e7bf5990f05dcb2abe3f082bdf40e159e53f90309753fb21f9bf90309753fb21f9bf000000000000000026ee21899badb74126ee21899badb741630000000000000075290000000000000063d0ab4f8b0a89e7bf8ddadd6ecb2abe3fa44db742e159e53f6f3cf0ac6793383c7d2d514b60d4133e29000000000000006332ae148b0a89e7bfa55d546ecb2abe3f315dfb42e159e53f2839c6fb8c2f373c91fe5dbcb842133e",
    "75490000000000000070a28fe5060da3efbf1afa71dfca0ac33f8e2e8f41af4a953f94bb33633364d73fb998bc7455c7edbf5915b8af354a953f07eb7ef2f2f0e33fbcaab508a204e93fc5c4c8ded24c953f7100000000000000655b3e8c33e1f9efbf00000000000000000aacb226a7c9a3bf9fbfa5314d7554bf71147524b9fbefbf7c5b37d6a087a03fd239ee2002c7a3bfd29c0bc8ca8aa03fda3d68299bf5ef3f826c55459e77f83f826c55459e77f83f000000000000000052ac5d296207384052ac5d2962073840",
    "7561000000000000007081933c031ba3eebf480c71ce21c1cbbf6d6d6e676767c8bf8b315a69681889bff093d708930de63f9e98a0452c2fe7bfe2dc130f7cfeee3fbd122784c920c83ff373241d0fc7c43f7e4496af55f8973f51126a1ba9f5e6bf3d1a0e331647e63fad00000000000000757b00000000000000692100000000000000626b2664a056a8ff3f33cfac59bb5a0240dc2e44d05e1ee93fdc2e44d05e1ee93f4900000000000000700000000000000000000000000000f03f0000000000000000000000000000f03f0000000000000000000000000000000000000000000000000000000000000000000000000000f0bf2100000000000000623471ef54731701403471ef5473170140dc2e44d05e1ee93fdc2e44d05e1ee93f",
    "757900000000000000706890783f3feed63f428c68ed26a0edbf16a1c0ae8cd9be3ff504bc805110c8bf428c68ed26a0edbfb23393a623fdd4bf1c12050bfa1e673f428c68ed26a0edbf1f032b203631d8bf3f62820a7f86cd3f428c68ed26a0edbf79a78c5ea82ad3bff975851ac227d33f428c68ed26a0edbf30df65e7048ecdbf2100000000000000620000000000000000182d4454fb2119406315a1e59cbe85bf6315a1e59cbe853f",
    "7521000000000000006256bbe6c008f80c4056bbe6c008f80c40db1b48d62342ed3fdb1b48d62342ed3f6100000000000000703856265ff5b4efbfd0a3612c073dbfbf1e429256949ead3fb1cdc0b54b0eefbf9c86351bb0bcce3fad7fcfb0065396bf3d37cef4792cedbf1c10b6038f40c43f798f384d2145d8bfc5bf339e23d3edbf6548b0ada41acabf3a4f59571e2cd3bf",
    "7529000000000000006300000000000000000000000000000000000000000000f03f0000000000001040182d4454fb2109402900000000000000633013dc1c75c564be1c55001c5c0031befaffffffffffef3f10b49a1fadcb753f0c0a39efaeadb23f",
    "757b0000000000000069210000000000000062989e9f87f98512401842e0c76d8af83fec7b8d3c586ec5bfec7b8d3c586ec5bf490000000000000070f7c76933427fef3fad5b609474e8adbf51de4766bf54c5bf318706f23be1b73f59f1d48d0dc3ef3f9809dab92e08b43f446c20c2f9a2e83f9ca08a186138e43f0cd7c84912e1b63f710000000000000065d941c1ebd9eec3bf1be21bcb439de3bff9ea7482bbc9e8bf453de2863822ad3f7cb86ab0093be9bf8eb344143699e33f354793439f8eef3f565b6e47b043aabf44568a76402ec4bf4a98cda77c13f3bf709215942e14f3bf24ddf28530ca873fe5294c035c1d0440ffd514a8e71f0440",
    "7571000000000000006506000000000000800000000000000000000000000000f0bf6bdfb04282bb8696000000000000f0bf0000000000000000000000000000f0bf6bdfb04282bb861606000000000000001b5f40a6913ce8bf1b5f40a6913ce8bf00000000000000004b19845b8f41ee3f4b19845b8f41ee3fdd00000000000000695b0000000000000069290000000000000063000000000000f0bf6bdfb04282bb86160600000000000000e46b8ae1894a0a4095da779bdc270240210000000000000062c5bf907b55230740cd44dfb5ea520b40d3658b14e8a1ac3fd3658b14e8a1ac3f710000000000000065b538e4706600d33f03a1c24dd914e53fbe76e378cc1ee6bf013349320793d83f4066328c60d8e7bfc2ea39c9ac72e1bf5c06782455faeb3f96bf9973b581ba3ffd9150274559de3f2944e440420befbf6492154ff22bf8bf29ce4c480f23e33f0efbef6e7b5af73f7f646b43c4a03040",
    "75710000000000000065cba26a9496e3e9bf879c2a24bdeac3bf127357ff2d23e2bfa8f8edb62278cfbff8482bc58929e9bf117357ff2d23e23f9123d9098315e13f26ee08e10522e3bf26ee08e10522e3bfc419c703bf37edbffddc136beddef3bf49ac11b47593e23fb80f36b651b6f43f49205d183a710740dd0000000000000075a30000000000000069210000000000000062892336a4ddc315404568d41f03f70a40bb802d5f1c82e4bf42beabefa704ea3f7100000000000000653dd06d869ca2e33fdf9ce6aade3ee93fa5bce7457aeda03f93aaadaad26ad9bf1c957871d90cd63f02309a2e5d38ebbfc1757bead3d6e53fab27a4833948e0bfab0be53689cae0bf9b63c6e26af4f7bf94a41616b8f4f7bf961d739f86fd6a3f4af6d240ad1d2b40324ee58aa6242b40290000000000000063cfba4ba745cde03f3c7fe34f690ce3bfbd18aaeed276e3bf1ac83efa7a02643f19769f99924ea93f",
    "7549000000000000007036cb426cb375d63c3c1bfa2c11e7e7bc000000000000f0bf1dec2e751f70e1bff881c7c87430e5bfa09868bac175e0bf5163efd6ffffd8bf9b63a3a9bf0dd4bfd0b87339d7b2ebbf210000000000000062000000000000f87f000000000000f87f8b61a8ef5b01f03f896bffcd4e6de73f",
    "697100000000000000654c1f4e0a26c4bcbf0000000000000000f2cef4061eccef3f271efa1b8b26debff78e82b0cb2cecbfa85aaa08c346abbf40a2a2551dffeb3faade9836bd57debfc4065018e653b93f72440086bf04f73f72440086bf04f73f000000000000000085afc3e25e181e4085afc3e25e181e40710000000000000065000000000000f0bf000000000000008000000000000000800000000000000000000000000000f03f000000000000000000000000000000800000000000000080000000000000f0bf000000000000004000000000000000400000000000000000000000000000f07f000000000000f07f",
    "69910000000000000070459307f5827ce2bff03cda9a1f1ce23f1af4635990d2e2bf6394e0de337ce2bfe8fcabb32a1ce23f57d19657d3d2e2bf75d7a381277ce2bf4dbcdc71e61be23ffceb422621d3e2bf69198e3a6a7ce2bfb9bb3b17971be23f6429bcf62bd3e2bf4b18b550b97ce2bfc1fb69fe8b1be23f274c89f8e8d2e2bf39d5f1adc57ce2bf5c3c3940d01be23f8231dd299bd2e2bf2100000000000000620000000000000000182d4454fb211940182d4454fb21f9bf182d4454fb21f93f",
    "696100000000000000704d214f2d0ed7dcbf81f5e9de751fdebfb10717561546e83f54bbf4cd7fe3dcbf4c727007bd53debf24a53bfd1332e83fdce2c6b6d1efdcbf3f3c21fbe287debf573acd22f81de83febb09fbe7fe3dcbfe6dda30ebd53debf6c978dff1332e83f210000000000000062876289868c870f40d3008bd9628b0f40b3328f905267eb3f4bebe607d268eb3f",
    "6971000000000000006503642f67ac8d913f4c25c5b62cc5ea3fd5cb1ee7e185e1bf917e2e59ddbaefbf42e2bcd4c3c1acbfe8e5e0509ae9bdbf7bd525bede72c03f342cdec66e70e1bfb05fee707383eabf04f0cc27630cdcbf28fbf3109b20dcbf9d1821a6028eb23f6ea5bb3264fedd3fc103e5921017de3f710000000000000065ef706b0bbfb0cc3f72fde3d6bdc4eabf010000000000e03f17bf4847dde8ee3f850693c17d90d03f010000000000a43c890693c17d90c03f18bf4847dde8debfaa4c58e87ab6ebbfc8d488abd70af4bf0a3c1246250cf4bf207c1a4976a38d3f067deb8d8f4a0840cd9ad9e039510840",
    "69910000000000000070aca9789af00de7bfe1ad174c9456e5bfa8e650465463c8bf5121ee674d72e6bf941e86aef8eae2bfe193b9d41d7ad9bf26066149d18be5bf54fb8f2ffe26e2bfcee9999c3059debf066cfecaf609873f0aab4bced69de9bf6f381385ad2ce3bf66de9b2a4372ea3f1b01b5898594e0bfb3da2e7f4032cc3fd1ce50c70feed63f4c6893631c5bedbf2ce5ff7aa431c63f7100000000000000655df96d18b6c3e9bf3d34f86965ebe2bfa8f79832def5a73fab958fee6e39cd3f52bef4a4876fd8bfa80c03aebca8ecbf06d086671b84e1bfea2ac37193bbe63f887ce20d3950dcbf00b42de1a78cd53fa45413c159b8d53f725e62ec6f7ebf3f343df4c90b67d63ff25324012498d63f",
    "697100000000000000650a925969eb7be73f1829ba3b6338e13f03a229d3b387da3f1a13436ca99be0bf9a8ebfd331d0ea3f76f55866709fc5bfbc452060440cdc3f20d9d654f556b73fac8f803b6f9decbfc4ca4ff666b9d23f2c529e3f58ced23f27430cc8628ab73fcd7b272f0447d33f9233ed23de5dd33ffd0000000000000069c30000000000000075210000000000000062ec934b9bfe40ca3fd9524e83a93d0b40182d4454fb21f9bf182d4454fb21f93f910000000000000070058f047dd910e93f35de0c363afedd3f6a1de4408523da3fb76d068dfd52e93fd534d541d1d7e0bf56778c6e48e6d33f36f7fda98199913f8d9d5c6b66c7efbf7615d77a99b7bdbffe6c6882897be8bfa1c410701ac0ddbf055ca059d884dcbfad4b6a92adbde8bfa641d324e1f6e03feeb548879b47d6bf08996498da07513f58aa5a4e76e6ef3f041be6174d32b43f290000000000000063bc452060440cdc3f20d9d654f556b73fac8f803b6f9decbf1253ab2375fc0f40d3cccccccccc0840",
    "6929000000000000006305d0408bd5ef07bed0491a5480b6ea3d000000000000f03f89dfba6d4b13663f07c91841d694aa3f61000000000000007050a0f9b9a9789dbf049d93a8649355bf742ae77099fcef3fc72ebf7d780da8bf84ac8434ff9f7cbff9bab156c1f6ef3f515ca0fc5b25a5bff5114b4c7bcd99bfc5bcb42e68f6ef3f65fbbbb770a897bfa420b3c9b1fe93bf402cea4840fcef3f",
    "697900000000000000709b08f6c42c8eedbfe89f20a4e3f1c7bf2b6069e31c6ad5bf90eef94d4097eebf8e932cb05850c63f90fbefeb9938cebf7892151c3078d8bf49307a298f36ed3f9e540db6e249c23faa71c19e6249e53ffd19a15372d1e7bf3ac519e93b3faebf46af1f0ad720b03f5d41da594b91eebff8fd0426ef7fd2bf5b00000000000000692100000000000000620000000000000000182d4454fb211940182d4454fb21f9bf182d4454fb21f93f290000000000000063e211cfd79887c7bfe88ff56a163fc6bfaa2b395887f5eebfd5a26bb49565bc3f3a74adae4c6ad53f",
    "6995000000000000007529000000000000006300000000000000000000000000000000000000000000f03f0000000000001040182d4454fb2109405b0000000000000075290000000000000063b063fcce408cedbfe5c9598b058cd8bf09a8b317a618913f8c0350bb7744453ea194e96967161a3f210000000000000062d1d991d342480c40d1d991d342480c4080599426da18913f80599426da18913f710000000000000065136d2a5eb19a92bf0000000000000000ccb944daa5feefbf70a4342d5f88d83f6391c932088eedbfd5e80c3ad0877cbfecbb3780c88cedbf4008de976889d8bffb8b9bf4c32e913f5bf01661b521f9bf5bf01661b521f9bf0000000000000000382ca1273147cd40382ca1273147cd40",
    "6921000000000000006273b6c5e1088deb3f73b6c5e1088deb3fedd36c4e815ae5bfedd36c4e815ae5bf21000000000000006273b6c5e1088deb3f0a908b9d18cdef3f182d4454fb21f9bf182d4454fb21f93f",
    "69210000000000000062300cab61aee7f83f004edd46485cf93f0f74904c79268dbf0f74904c79268d3f530000000000000069210000000000000062d5cda6d904faf83f51af4e4ed509f93f3dedca609b3fa13f37aa6c888a72a43f210000000000000062903aea5f7206f93f125df6328b16f93f3c7c9cd593efa23f88b290364af2a43f",
    "692100000000000000620000000000000000182d4454fb211940182d4454fb21f9bf182d4454fb21f93f21000000000000006232d327695fa60b4032d327695fa60b40ee0673427300cbbfee0673427300cbbf",
};
constexpr int NGOLDEN = 78;
