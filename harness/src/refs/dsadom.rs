//! DSA domain parameters of the four FIPS 186-4 sizes, made with `openssl genpkey -genparam -algorithm DSA`.
/// (L, N, p, q, g)
pub const DOMAINS: [(usize, usize, &str, &str, &str); 4] = [
    (1024, 160, "d70d8eef8a29fb6d309bdee4e5719c5142c3ab387c64986eac06dd52cad1ceab2c560fefdfe66b6eb9dbd62c5e580f7e5e9355c156c549163224436e7b497ae1fe3fa28f36e8b553cc267233869f80db455a7972a8ec7f7cd76574c0e81d302f811c692d18b32e8bc68efab4fbace418adf791e98b6340a42688e23a053da053", "89eaf04614698edbc37cabbc4773b6278770b435", "78fb483e663bd74c681cde9a635b2d2b9cdd44e4e4eb1737c45f19263804ea2d6f68b263c6c25454f31b2adc81a976f9cd8decaeee1f654e6e2095c9b8fcc8221f6628f777189fc8fb09990cc5bd59150d9d381f73785d82737c98d37589372768545be4891bdc9a88c1047a6ea08a5c6d0684301e2208f29651e2d586cecd05"),
    (2048, 224, "b9ea6f186b458df3f9c96b43955a061e9767c016132ca303e87ac751a30a42ed0f6efe7e042fbcc64f6b09031b93c823a4b7b19746eee7c04bc3b1215cfc1fa7f775bf3533fe39347424c3f355984529a9e0279594ed360929f629a8dd5e36969856094148f76bdb41b6698ee298c339e1c05d10bfbeb9685e32dcfd6aaa62da85295daba1d9b85794112025089c35e6c51be5cdbd672a99d9b195c3f446a84036154b83e859110409db9557e732f3039fd73972844d2c97b449a2ad717094233ef80340a359c769a0e57a739a43252991aacfc95f1957dbd59e8222fb352f50f18fcffc6734698a8c0f7da837b5a60ceb9adb605b609cd09240f2dda1dce959", "8065949e7e3d19871b773038ebe7658cb760778858881efa8e6eeb45", "882f0a37630f2dea5ac01a4360e7db664e6697bdff246c07bfefc0649f2c91e3f95cc340f8642d4e470a0767e5e1f98ec56c6a895715563b43948b874df5e88f12ca6c7d2532f4c3788615db37396aeeb878eff31387b17ebcadb675ec646d7d036450aaf13833a788671291dd4372bf2eedcc2d03a330a859d76fbd4ed4796ba349dd98f4db1b3a3800e56f489d07a02b86da40bb8393b6d1988fa5bc7159870e5f20f7423e7d99ed11036557de5d60452fc12337372887cb65e0e2bba04ab34db0de7f05c4652df2ef8a2b391b52b154a874e3ae592828bed1ded7d741a7deba1f6541a224793bac31c1297874ddcbb4bc33548d386ac77a5fc48e5d49cfb5"),
    (2048, 256, "a31bddc01482491649144bfe29201508ef241398e9189cd928df43f760a5e73d6267d7b9bd7612d2ef1d67c6d0c959a8c87547c63266ab6fab1e7734ebd0d0f198f5589d1e33f00b27bf3e117c80246846ef7969c0f26cac1cfc1a46eef74a058a9b3bd81a1a9424f34fde3624863627d7e8b959760a9068879cc7b27d7ac3500680ae972922ee7d054199877394653411261eca206bc02e5c37b6f6c564da21f618b037be6722df0c620ef431faaf93d9fa6cf70740cc615fee8d959c99270eca87b1be33b1f1eaa530b9e61d3370564bd3e701ff9320c846fda67fd3927b04f36e1381e36033a6df8a0895eb85167402b044dd8d4e1519a6fd0e08c87289df", "f617f35ee9a5215a6060abe791cf1180d53f6c2474f24059beae03e2f4d82519", "1e3f14a0ae902e3b967196091952b01d93cb48d896576bf4d69883ce416add9cc2ec0ae24ad2ec4688d09ecc9c24c269eeb252ec38625531ce6260f73a8d51abdf1ae07f62d02c72f76a570c18d426184a8308030b96d0fa7aa911a6ee507f2330a211f52de3fc584a0adf4f7174370794d60f48d1098a45c2cf610b32203ea94e78db1caed026e661b44d6e0e5062b2bf19bef3bab2d29b7b605155f176fa8687b90383d4942de3b7499601e62180c2f1f669a527670ece66c16157798d14adf4da0a70dd22b8becb106c811d5714694ac69bdde9118a316be83b5f5e66033257f9c89b295c719dc7efeadcb5f383d3edb77f62d42aeaa5186f351e5883d726"),
    (3072, 256, "fab618a1fdb6c69680c8d8915af408caa545e05cf7f79506b80291fce4fb576e3469df73f84229cc186cb57356cd879a3ec27bb14eb486202e7af20169ff2e1e2fc49256264860ec4003bb50beb6b3fd4636879ab90979ccd44e887af6dcf63dd4411baaaf2d1c399bf5ae6bc169ba4ebb3ae408627b38ba1727f93f91a2a270a7fb608d371363b2d1925ddcb8c7fcd88cff1ebc84ebeef0906079d71d60be5a94e98f28401d5cdf6e5dbf91e9b15dc77f5af08dfbc0b9f90576c7a5e7d5d84ab22416b00e2c7bc4c2e592b39b43039a10d5da4b14a2d27a18fc9945a3c45505c431c2c615d4e7af7c43fc487058a9a18ec0860786597f9b1addabb2d52184f514ede44552475a7a683ea1d57c623a370abd924d9da7c515b51f28fb2d241a842d7dd3bbcd2a2cb8615191d38f90cf55ca61344c3393fc7bc5cd6a4e6f93949b6487df24f447d2ed636b22e5bff255a0c6f127e94c645c66722014819dcd1abea4b5b0cf37f64752135c3ba25f700c3f724a43872ad78b856eb34b7d061180f7", "8f3818e55ffd7f11536fbf2cf52cfc50dce61545f2d9ca25bc9a45b2f7aff24f", "32135ba3a0094da7cfca3830276b99ed7b9f70a8990dd6ba603c3466d16700335775a996caff76b54cbeba646c202056672d8dadc421f547a435addce1f46550137ef622f5cf2286a216af0d969dfc03429548b5b457c5cd0257f5bbd2cfa07e195c941410199ad4821aab7e74fff65b5b9e7dc38740703271c5206e18dbfe0e6bb2e4c276db3eebcb49c45e62ad94283f7c8e9036e9ef35f0a6184538c4ade43708515b0878159c5b253db7f5d78f3c9581da2f62f5ee24779cc067b62b45dd663621e46adb5d63d047a451b6e0e0b188b84c76018595bba6882fe48353ebfa3cd84189c3083d1723f19a85ab967c20147f2e04f75f5a9b5823a96f87efce14d98903ed9470a59dffea5a23204b9e23dce47ccadd959b575a1461605ac154e5d219a146ea1b90da97d9102ced8fefb03917f651d09aa3efd27826e90a524e8d3586047ca65d0c34012c0bb7858166f297ea9466b4fab8a0978fb71f8d0990f842797f9dd8c15a6860a441f35cb5b8486d063ca0269fac3f8eec6d8ae2fd8cac"),
];
