{64, "f35c17a15969aa4b"},
{64, "df5334c9cfec8b57"},
{64, "edd0ee133481787b"},
{64, "c7bc877a92e804eb"},
{200, "c9ec82e9de05f4a4c58ab7bc6aa35773be4e24d89bd27885a3"},
{200, "e596a4bbd1ceac6ab8b4b858022956930e0a122560b3159987"},
{340, "f64bc9ea9050ae1b56c6f659d6ee1d0cdad7909ac1340f3e404f4852ad244d26c5a8689fff76aaeab8ebf"},
{340, "cd52e33619aa2aba9f704cc8e38534b9f25025b2fec597c70b61c15c629cc0eba33b9b82fc7d450e43fc3"},
{360, "cf76cffea731e6568d855659d77462bd38ac5f9dfb4493c55f303e368eb56280766b8fd422710346151eb4e467"},
{360, "e9baae2daad3c7cdaf3e2a48d6c41ffe61e558778bb632f1de14c4a889379098e2b40061808fd68e00fa002e2f"},
{520, "d1ee23aecf8a43ed66e7492521047e8dc4e75bc98f9a66db2342533fdc1ae07e1cf09bcff019d17724e3cd9929f44618b5800420c07af6c36dbf7bbe2b971fd29b"},
{520, "e380af333c3f829f68e96dd603c1c1659560ad37f8abd2b6e5c938301d8744a3a9732b6fca27793f6cafbdfbd53b9a359b782d28a30ad844f7b8f98ea9acd3aa27"},
{520, "d32c4c2c8845aaa2d84fc030c44620a4d8857f6b25e17d075292e0bed6316d50cdc58459d17bd0dd21b53f256dac9f0d7c9b52854c30d027a8db2f313037720a23"},
{660, "e008ccc2812091ff5a5fe8c4df91c8a037c585ccad67430dee535b5cb87d3ac5c208490c404fb95533d1b99453d65e32a488f5d56e483770937a4157ebb11a91dad36de32ac034aff86068cff60c0ded99103"},
{660, "f53a0f985cd31be510b835c2a2bd146a0aff60726caf85f9461e0ae5987c7b36adce7224562cf6e508e2a3dad291717ae57436216c0b5c15fe8e5b8f45bfc5822113a47f008c4a360966a3c168655023d6dab"},
{660, "fe96bbc5327d33771d4cbbf28dfbc864989a084c1973d010af9f46356513d7842e6b1144b875d17328ec4d4781eb0a4a0e5681a974f12edff4f3935337829997939f6b7000fffdb92be0128a5005d583a882b"},
{860, "c9c6407e720870a3d954f09a68c8952cd6076d9883558d607326f21734933493a932e92ea57bb0ea42216d8f6dd4db3debcb73427357f2ded93308674e284128aea63dee5b4367dee981ce1c287b7eedaf44c3bebcaecde332e2f40381ee594e3ead7f449481f3e80aa1427"},
{860, "c658988fea9a621d03f579c71c0d092f739e2ba116cf4117252cfb5ebb622d6573d0d074cfbdf276ad26e609adf2242b84d10bfa514212f74163b5aa686502b36918acfa3288847e73ebe18117617b902715b52c860f926f5aa136f5b05ca590a92c8925e9a58850cbe925b"},
{860, "d97d5a4bb9cd6c3d30a03b04ca118453fd1f3c347d32d0ee25862ddde4e724b245a1634ce8b78c083e00bb30b27dc6993ba0449df51564cf7b15b8e305eeff270b507e82a0766bdbd00fe9f8d4f552668b0378d0cd02aec75f4bc5a6b90ea81f03e62970b3e19bfbd8d9617"},
{1024, "f11fabbb57329af990b803ae0809c92f2f087692b57e6a7e541fabba388a4de8f9c1a83e2eb80adc2218e6565c820b32032561c3a7b3ea5b18b4dbb49aee2331e99b5bebab4e1ca06e26ba0167a4823c86c82987cacd80a5361358d1f03585ff4fbf025907833daee8bdc33c44a4514a415c992fc0d9468c3339af1fdba1f9f7"},
{1024, "df182973c791942a30783bfad2ad6b953e70512c0ace77f452f449b53e05043f9cd4166cde9da6cb8f774b6e5ca6b08ec9971495734a6ec50a68e416f7c8b3a2fecba055a060afe882b557efcc69d5757186d863c6dbad7326cab20f9102f1b81ea2f45c604f88fbedb4f8e24b2d9d3bef226d8d852ef345c61bc8fcdf15e547"},
{1024, "fd1c0a6ac0d244cd5082424b4ef90e35ca488f6eeedecc5f0fb1fc0d4b2193bada256c97c4fc5e163fd6eadb867686974562a96d81f19fca52fa5ea5e0720e1ac661b7a595e24aead841740facd530dc9352cf7a6804cecc727e08ae426054afdb8fd28abc31682e4712c6d8ba22afa726a514dc32b76444878a6578a7247f23"},
{1024, "f512e238e4583283d7fba5b867e1b155811342323e660d73fbb9776beb576a99ea04e7f1acea3e95f985ba78a9467958403e7ef67893c97328e1950a6c447c699c0f0c224d7cc124748828565808e27cfa61374e5e113ab253fe47d3c5a36d34e9d2470981ea0522f2f5249a7c864b13997fe1929b37353b9af618bdbbc15243"},
{1024, "d9d96b2eae65bbf67b86e4182e18ed1e77a7a64b766e685a7f7f4906bc2654b5eb3dfd23ad0a4f9d9e596f3b81e8912a9bcb4aa19152dcffb7cd78b6b472fc4a4a3a824184c44628007862a44ce815d4e02c5cae398f853725e91050fb7f4f373a5626b40e69cb12f43e078cc1ba3f93e6548a024c1864c152242dd7ba30e883"},
{1024, "f212c65fa1619bcc7338984ca407c0f963de9943bf006ff4bf014ae80c2ca4120f3d417150c2d14885beb5bc7928f26ee393a5f2475b0b7da6d0a529e43fb12d47fa8449833a9f843c00f8b7a4ba689425a3a229ab21c73c04f83292484f196424dae3cdaa7eadb16bf6d433b328c996208925355e5158c4865447dfdfc1bf93"},
{1024, "d092d6f8963c36769201dffc89f50a33014012ff99c35e69fa1c3962e8215dacb2bb536435037ff3e60d4e881e4133dcb21db451f3dd5900064c9c3167065bf3cec915c324235964a2b710f7ecb8033d54703fba5bf6ccd4828657433832d060f1ba7926941a5aa99b4ef5916a03f63c27da23ab5e581d843bae80c42bd0eee3"},
{1024, "f883bb5a25ba0e78f25e1837116e2d0565e0a924dccab3a00ccac1d233343abaf08578dacdaaa628b7d244e098c5110f949d9fa4ca735920e7f7426462950c725aad65122455d4103a26270a7aaaf325c969ad435a37161cede0e30afcb81e84c40b8c13d8f5a3ef6ef6f21a70ad928b68c379aa2625d15b4a3add239c80640f"},
{1320, "d5a339167cd83d6bfe46ab9a6c3dae7f0b93c950782c527b93ae2ab19346153d68fc97f65e811dcfab0ee7c6985484b6c98dfeb52f91ce077ed182d0665088be583cf3b4af2de67dc0f0afeff07654802b86528eb367af6e0d0992801b631b49987e6656abb6da1f12a71b7cc43ad8884168441db0c5fa7d39c7e8b25219335c84ea57a6e619a7b73ee7a1f6488da649ab85ba288aaa337bfd94e4e4d91016ad70f9bb76db"},
{1320, "e67a23b15401d02ba53bbf772ffb2e296468f5c92e1e304176d50ec97b1f03a3d7a5b3111c3a3c98f13908b507cb5790d20624af3725c3c2491a94d369f93b209f5bcfebe11ca46df4b97aa6567bb7fcce52bbfec6e6210fa63f7bcbd6eae84f44df62741fdb5bfe763727f5d17089f45bb13885d1b6857fa9f342d3563b148363b9c2bfa44c6125cf08afb856617eccd508a08ea75272cfd02ba50bb74e77d1378ff0a363"},
