"""Brainpool seeds with embedding degrees around the bound (tools/gen_bpidx.py); reach only."""
SEEDS = [(True, 27, '920c3de988239867c5dd967b08f1100bfa3222c4', 60), (False, 35, 'da1c0162387e3cae01b62820e90a23643a03873e', 60), (True, 20, '244626e4006505447a1049172b530a1536681492', 60), (True, 13, 'ed509b48156377d975742884d54567698cf78e49', 60), (False, 19, '9603bab9035396774d75e861f7d2b356be60031b', 60), (False, 30, 'bbc085c98ffb7f33937b8e80968a577f98326e26', 60), (True, 23, '2c2b3287120c9aa2febe6fbf71ace95ef96aa17b', 60), (False, 31, '47aef53a11b34a5697b7ed9061cdf4000d509813', 60), (True, 27, '1fa4e23dab2402095811744336ab2b092cdf50d5', 60), (True, 30, 'f07e7d99a5005cbeaba0bc1abf117f627ab3b668', 60), (False, 27, '17479f36610b3537f0776dc3320c410a063bba85', 60), (True, 18, 'aed6c45b9ea7f8fc41cf25eb297ef88a25acd750', 60), (False, 28, 'ca0dc313f51a2f991150c53a569d3c82d71fc4a1', 60), (True, 29, '6fc71f7bcaa00f62ca6cb62cb1a3d9e3a7ed4395', 60), (True, 15, '0b6e6059b51f99c952e0a3b28a8202db80889748', 60), (True, 36, '63eab0f159a6aa23a1f25e3040fd58e02e8f05e6', 60), (False, 15, 'b9d718576292d3b234be30d78f0eb49b3776509a', 60), (False, 28, 'ac6e122394ed5563bca114d44cfc9d7d4ae45893', 60), (False, 29, '2b2ac57c28934bb301d83f4b78e2bd15289837f4', 60), (False, 16, '045818d5b4bb165550514480a5bafb60c78c1e7a', 60), (False, 14, '3925541857bf6bd59661ef5766f400b0c0ed8f7a', 60), (True, 30, '30cfdb813c8804ae0611db9ccd2c32824f11a5dc', 60), (False, 33, 'cd0b1aa9df8aa717bf7f5f37785984461534b66a', 60), (False, 26, 'fb6baadfbe4f0d5aa3f597af8a98df04e2b99c13', 60), (False, 27, '3c2101bf9f0108eb284e236ed6a61bfd6a43a4f5', 60), (False, 12, 'c4f56173d7f0ab2faa3757721d697cd0066213bd', 61), (False, 14, 'c8866fc636b9222701a08af96bd58636e472af5a', 61), (True, 14, '46b24fa80b3a3e11c528a23a10e9c26b4b8f1aac', 61), (False, 14, '21852fa8323cf7a8386fe8765274809ab94876cc', 61), (False, 14, 'a38501c2dc6a17536f5f0aac9b150026110e892f', 61), (True, 21, 'fcd07b12f4ba5a3123e30d14e1b2996737914e8d', 62), (False, 36, 'ba0c70ee5342bb0723755fa4348b07e23fe9f570', 62), (True, 17, '34e608d74efa8ce6999e44e80902409a0fc16ca8', 62), (False, 24, 'dc7905bfdefe27622dccbc9a07d019b13ed8e47e', 62), (False, 30, '9774e5914a730db1ae73c50d131039dcbe0385f2', 62), (False, 20, '86ee2fc38ffc63ab9ad7eb16c71a42aece364c7b', 62), (False, 14, '87512c1ff6323958f3e4e07e6a618a17aa67c5cc', 62), (False, 26, '4657505d0b513b4f6304cd3335818e1e0a2592ff', 62), (False, 18, '826e745550d873f2fb587a0da7a7bfc7d880da52', 62), (False, 23, 'cf703b7756f2ca13089e063f0101440ccd1532cd', 62), (True, 34, '830805ff7384084b20c189bd2fb08ca6a7d0a210', 62), (True, 34, '932033004f625c317ae0ecb13ee610b9e1aa41a6', 62), (True, 19, 'f6fa8069f315ac319d37057d1fad4195723b72ab', 62), (False, 19, 'b20d9c9e46339dad43d9a7e3b1675f0d85492782', 62), (False, 22, 'df13ffd800c354ae3ca5e74e212628227612efce', 62), (True, 28, '35c1860020e8643efb366f4c6e516e45455217da', 63), (False, 30, '34e63d72fd2cf80cffeae143ae415aba4055f452', 63), (True, 27, 'b60ceafc44be43664fb6106f25efa623c3971d67', 63), (True, 26, '85d0568f5263af1688a1340f04ba3295654ce78c', 63), (False, 21, '7b5bd402d7786b975602329c31366815c723d98c', 63), (False, 16, '4b817e24c26fc92708a9b789ede69b965fae8c1b', 63), (False, 33, '209dfe260fbd27f66bbfe4f2c2bec2840d67b061', 64), (True, 27, 'a96364797cf97859cbff3228bfffed86604b6d86', 64), (True, 30, '108bc733bc88f69c9164b5c54a8c9eb71822da02', 64), (True, 35, 'dc00b92206989d5292cc03242649c69a6e4e4cbc', 64), (True, 20, '47b38bd7cba70f0528794d8211e334dd39bf072c', 64), (True, 19, 'af180e0e94e23e254e93789c1998ba68ee43dacc', 64), (False, 28, '72ab3e5d71a0fc2282b20a59e4f30f1d3b6ebed0', 64), (False, 34, 'ea095abef427f18303f69f75cbde0bfaf8d2f9da', 64), (True, 35, 'b21435e75eacc9207caf4d23a9c15bb88ddb824a', 65), (False, 19, '3336384bfe5cefa7822c98dd74ea1d36f50f48ab', 65), (True, 32, 'e82dc2a9d32617d009997b5834fc899cece8aa55', 65), (False, 15, '33962f9100b061a5ed579a169f1383b67bfbf5da', 65), (True, 14, '063baca181369e9797dd5e0efa461f9a377b1ce4', 66), (True, 33, 'bbc06bbb408e38756a0c56f0421abbccd8348ab7', 66), (False, 36, '216d70bd928ffec9a0a300dc6ac0e23666100a05', 66), (False, 17, 'fdde6f177f931fdc0f3b530bc80bc53099083b8b', 66), (True, 33, '03a60d6842532bc8773c28a4c5b46a44ebddc958', 66), (False, 32, 'ffe2b9f765f895756d8a32c72eba7184ccf3b134', 66), (False, 27, '22197c77984fbd652aacba426a6213e1b9126cea', 66), (True, 15, 'c273cb4bc15301f8178a00ad4870d6783d18c9fa', 66), (False, 20, 'e6db7f451edb0e3bba9c018741c803960bd1c710', 66), (False, 21, '58d0fd0458a602b84f52f641baf3480d965227d9', 66), (True, 35, '632b56ca263d3c2c912604933857170ad7a8dbf7', 66), (True, 16, 'a0293956b96377dc0ea85846289d32b821a07d18', 66), (False, 27, '5f30f39c98c492ff747213c4738a0f216cdf3716', 66), (True, 12, '349bed03ca454ca88ef9f8d9cc0848a59b06970c', 66), (True, 31, '3f18a9590f93012c5f7962ba7c85d4c6aab51012', 66), (True, 15, '96127acbc48c426880493217496b92f7d8ffca9d', 66), (False, 30, '0361a32e35b77eb3bf05487de309e37ecb0bb778', 66), (False, 35, '7103bf1b7ac4461f02695567c7d177fc19a7a719', 66), (True, 30, '398df04f2288f85afdea1d13d521fc65ade53077', 66), (True, 24, 'f11eded7ddfaaac42f6f9d3f940c423e2b13e033', 66), (True, 20, '91b7b133805416fd71bdf7f4d8847ac720e461d9', 66), (False, 21, '8d461211dd85171ab3504b38e3ffab8cc7c824e4', 67), (True, 12, '801774694b97d667bad8213a6d06ee5b1cf6cb0b', 67), (True, 12, '12b87d6bd72faa4eabb14c69e72812d664b55aea', 67), (False, 34, '23dd8325f21bc123b1ce60b0c3316f52c8a02df2', 67), (True, 32, 'a3879af4a22dd404528f87d946a95dad5f640897', 67), (True, 19, '96f702835142a90e8bbe3609ab2f0175353534f1', 67), (False, 17, '90642abc2af2681d605f51b21ada49e0edc94ac6', 67), (True, 13, '7ab28d83d0a5856be86d13bab999abecb167617d', 68), (True, 13, 'a524c1b3ba7674fa365d1a92ed6363510db2dabd', 68), (True, 32, 'e998d0a114bcf7639b737ce02719bd2db287367f', 68), (True, 18, '223bb1308d468c305662c870d4bc34b1c025b665', 68), (False, 34, '528a50721231245a26cd5c88e9ae8cc7d0a23c9e', 68), (False, 22, '5b084fd90f056e97098188cff0ec4dfdaee01d8e', 68), (False, 15, '39e9cd12b4c2f78d49628e06786b6ccc3636e641', 68), (True, 21, 'dd10a4cd11fb546730d02b2b4ae4e6f6ed255d9c', 69), (True, 12, '4373c0aec597015d4845145359a03cb20c9ece79', 69), (False, 12, 'd4881d51a9a9551da4e82c5c44ccc84af47416eb', 69), (False, 18, '53767841d031de5e8d6ac230dc9ff0dc060b6e64', 69), (True, 26, 'df777ac9a12251bda9e23fe1b3ba5d0e969e5481', 69), (True, 33, '53e5b832941643750ee503c34465c32de5161446', 69), (True, 25, '50c5355a8eebafb2eb46112bbcf2158c5c118932', 69), (False, 18, '7dc20e072a00fc76ccdee098d04d42e93f3e0866', 69), (True, 35, 'f8e5fd086c13ec381943834009f78ecf5d5d758a', 69), (False, 30, '35b4940fdc288535df813bebf5a1eeab6dcaa163', 69), (False, 33, 'bcee7fb1543c41b5646618914a3eacf0a622053d', 70), (True, 29, '1f0c39dcb1a21f4b1d52e1dcf0230dcef1102201', 70), (False, 25, '0088b9a48eaa60261127967c039d03d75b130043', 70), (True, 32, 'b062be3e75acca2d29c3b1a3af12f5c4780a4366', 70), (False, 21, 'b9719c16b26d6cc69e2d7a6322cf7486940f18f6', 70), (False, 35, 'cc25866f0d040f6e95f145382d1f32c519535be7', 70), (True, 25, '9d29f0a92b92dbf7e4cb07ab6c87a829dbab2820', 70), (True, 23, '25dbf8c17bd2aa5c99e5643f06cce67cf527dc4a', 70), (False, 25, '6e2654569b0dadbfbd9239b916cb5c466a965d2c', 70), (True, 34, '09802fa6c313e0df8cf903269cc663d6fb63c8a9', 70), (True, 21, 'de1cce0b06d989729a51b52b74ee0ff109c78139', 70), (True, 33, 'd0c499d8ad627efea32bf89560ecaa89bd1b55f9', 70), (False, 20, '5b0636a934dd945c56fcdea27ab7896f7e10f969', 70), (False, 15, 'a7df7f295ff5e178a7a2fb2d20c77adee2f4e45e', 70), (True, 35, '329af2e48241ee1b4980ca8106be4322c6969520', 70), (True, 23, 'da90244da02d480046dfe86f6cd9d29ec210da8e', 70), (True, 21, '0b17451f2d5ff2e58ab57925e3f209296d94052e', 71), (True, 29, '46ef3a7fbca24f20f226dc2a8fb1e01241a4e235', 71), (False, 18, '145d533bba6965e702a9eda13a215553299fc556', 71), (False, 35, '93e553e407197bf163694ce2095969974e18adf1', 72), (False, 17, 'a107b56674856b99e11fbcdee32d78127597c6a2', 72), (True, 26, '407135b1021afdfd4e57f2b87b65c3521ac33b4f', 72), (True, 30, '187a8288057da77e5994a48ddb287d3499f32231', 72), (False, 22, '101b0b6a06a53ed5c0cf67dc08888974404107ea', 72), (False, 22, 'd3f3cb2261781c3079619b980d9edc6742e592df', 72), (False, 32, '59095b510f5bb0857baaaf7539d5d9ece615953f', 72), (False, 23, 'e6a850c7835f6b42f4fb8b0f10ff3e4975136944', 72), (False, 13, 'c5237035fe74d494e15b042f4f3fef1c004e1cf3', 72), (False, 36, '506d4524f6f2d6e7f04a158c4892ad1aa5d91fef', 72), (False, 34, 'bdf11df62cf760ca9cde8067d18e2905750e494a', 72), (False, 21, '1de9754438ccde3ea7861e2fbcdbbf1b13f3d2b4', 72), (False, 25, 'b810a440b8d3e47be34654184c7cf3b4be91abde', 72), (True, 14, 'dc6bf1e1a399f82a65aa9c8279f248b08cb4a0d7', 72), (True, 29, 'bbf5ac12c9bba7c88369aa5f2b29d418e64bd139', 72), (True, 29, '9d9e5133d229fb551bf261f0552a1a3892efbe4e', 72), (False, 31, '4b439c6d493bbc85531b2c5d96e56f40a6cf7a3a', 72), (False, 19, '1c6800d50a3ad413030fd7979239bfa78d116ed9', 72), (False, 13, '8b763f634ffe0196352d6f27b98713be5462a18d', 73), (True, 17, '0f0812583d2c163680428d4c8da8e8b1ffb69554', 73), (False, 18, 'c04551325b20235fed75db3011c5e15ea0bd6084', 73), (True, 23, '88efcd5eccfe81818951ce456066fa377db89077', 73), (False, 22, 'c65233ab465bb8d7f51994841a67b2f9c4fa5577', 74), (True, 16, 'e11a909cbe0fa792f539becf48f1384c19776fcf', 74), (False, 27, '4f0d8bc7a7f7b0fe3706ee667e286872a8d5bcf8', 74), (False, 25, '53878687388e3af4747d91f005d69120b1855bf3', 74), (False, 26, 'afb4bf60f4f57a9c031c8ef7cb8aa7ab136685f6', 74), (True, 23, '78a6283cefde1363273ea1dcacbd6b3ba72e14f8', 75), (True, 33, 'af95fc1900a3a342eaad541300423efe346abbc2', 75), (True, 29, '63f5fe6b558bd3a1f03350229c7c0352d5ac3848', 75), (True, 15, '21622e4a842bdea800ab9dc4f6a22462ae6acac0', 75), (False, 32, '07a648b8af0e854355cf4b01d2de5938d0a354dc', 76), (False, 32, '08f4d0f21790e4c373b413457f0b87d8aa31e960', 76), (True, 27, '7e4212151856b1a62b76a3945d7bb8ecd31eb5b5', 76), (False, 35, '840fefec9cf1f6c8cbd4c35d6c4ff7f1d0177bf2', 76), (False, 29, 'fc8d4b592d06a38bdff980c4c9e4abc0880bd783', 77), (True, 31, '35d5a5720c68c8fc46b6bcdd09d09fa18429017e', 77), (True, 23, '4dadbfb008b4f16f30a407e9923e267ef117f274', 78), (False, 28, 'df4475a7544fab97bcf2262293728acd78b5bd22', 78), (False, 30, '943767ee225aa9cd0ce7266040b7cfa8fa92f71c', 78), (True, 15, 'a419e3e95b8e8d5b9ef435a60befaecfb0977121', 78), (True, 34, 'e97363041b3fab5c25817a5a8e45ff89a4acb3d6', 78), (True, 21, '11059277a6ec19ef4cf936adf955d87a7428bd21', 78), (False, 26, '63cdc748a4ccab85d46db1ec478d058f598d576c', 78), (True, 26, '91a2e9a61d81c1c1a8fb178feb8bea89f7af0320', 78), (False, 27, '77ee07461148f780dd19f27b0d6cb4f6eacb566a', 78), (False, 25, '7dc8a05d5952618369e85f6b9741ba416c535630', 78), (True, 17, '0ca5b4cd9c19a28b8d78b4bb09d29550e020e3b5', 78), (False, 35, '4b9051396725657db133c90ddaebdf84a7038be7', 78), (False, 21, '11142c765b002955db81d27991573827c7a750d5', 78), (True, 32, '868f076daa70a392bcdedb269319a6c3285d0646', 78), (True, 22, '2f6dafad1be13aab3883b0ebf06ded58c677ba39', 78), (False, 13, 'e867c8bff58b004b9c4d125dc99ded4741589bc4', 78), (True, 30, 'd0f65df5f5f19f929da64a50710a128790b59d11', 78), (True, 30, '4704e2dd86c2f3992fc2ff2d7de7710bff5fc6d1', 78), (False, 18, 'fdb65125dd9d00304815086bd86607bde31d2d8f', 78), (True, 32, 'ff4808cb97f62b4ecef110130d1b1a143c631297', 79), (False, 36, '470dd2da7630c98e3691a23fd75004e45add81a8', 79), (True, 26, '20cafed8aad9c30252d3cfca5ff7ecb2998a865a', 80), (True, 25, '754dc6d35c41dd802dca4fa67d9cbdc4400cd25f', 80), (True, 25, '042b4d3de2715b7000039aa7e78d9e53873ff737', 80), (False, 33, '00917b4c28f32e43e1a632a19a71dfe35f320f93', 80), (False, 12, '3b0f4c19c3d858f63d127511fffeb8d191b7d08b', 80), (False, 12, 'fcfbeda9545aaf8da1b23ab898b72b6c732fddea', 80), (True, 31, 'f3cee4e4e484795a515bd634cc8c2c3128486235', 80), (False, 12, 'a9dcc33ff74cb73ba8477d1f6e648fd3817c2739', 80), (False, 34, '6568470c234c2bc2d108a7ecfac0a45518ee6b59', 80), (False, 15, 'b55056528494ab5ae505fe9d9d48dcbba7801bc9', 80), (False, 21, '80cba6e26365b868a0b6f7664113ccd3dee542b6', 81), (True, 22, '97069798919c7340c3a5c114980bcf6c75b6a43e', 81), (False, 22, '1aa23518c4119e6aaa971af5b94e5d17fdb9bd47', 81), (True, 28, 'd5050eaece3a664743710cf10ee7aed3f04abb9d', 82), (False, 21, '5fc53fc43ff9863fa6c9a1e0c91012095e4614fb', 82), (True, 14, 'e6d401e00daac5d842f5431115fe7ac31e5cceaf', 82), (False, 36, '017ea955d042f7d54a0196e3e41381715d45a5e3', 82), (False, 21, '9b18d42b39043f2aeb1fa9e6db8a82da5b321a99', 82), (True, 25, 'f3aefb6f07fc60297a67a88f38798e9792f6cc76', 82), (False, 14, '2ef50194a858e207f280aceb16369fb1dde93a78', 82), (False, 13, 'a0a6b307bd391f222f81faeaf731f3fab122b99b', 83), (False, 14, 'd77150e099f6436f92aa93945879a8115115569c', 83), (False, 14, '03097ab0dd4e8f0de9100a4ee1cdcf313ff9d1aa', 84), (False, 27, '4a8118962fd1ac95fa539f0630272554f3282e0c', 84), (False, 14, '29164166c6240f505ae313b75073a0c9d45ed446', 84), (True, 35, '668dea1a315ac64af88af2349d2800360f86b5ee', 84), (False, 23, '464fc104927fdaf510ca596156911c93f457638d', 84), (True, 21, '4ae47d79f505209d6f31b9cfd281ec62aadc3d89', 84), (False, 13, 'c7b9ad1ecc8a8236b62f2544ac93570ed32eaac5', 84), (False, 32, '465f7d587991d2415823120c64194485abf286f9', 84), (False, 27, '5e3cba8e8ae9c9d0e4de81aef6a0e42dfab2fe2b', 84), (True, 21, '0f013f4e73961f8efaa83536d3d779d524301b87', 86), (True, 17, '473a11860abcd4f09d0ee74bad15075ed238a043', 86), (True, 29, 'c7f953b88143db986b6c517f83fc2c128ffcc04d', 86), (False, 24, '5d17528443549dd3afe6c39619cedcc5ba0ce65a', 86), (False, 34, 'a7cc0766ae7f1201293fc3551522d82dc46b3233', 87), (True, 34, 'e0a8a29fee4d943543dcca2879aca22c440211fd', 87), (False, 31, 'a76e8f4d9d9dc69dc4bf038d38e5822f78a9fe3a', 87), (False, 12, '5bcb10cdae1d511dd77135decd17ea9a3f9b86e9', 87), (True, 24, 'eea8c066c4aa682d0dfdc2735820e9622dabbc88', 87), (False, 18, '64361760a90fe5ac367f1ad43b865c93282cbc38', 88), (True, 24, '193466be3372a34d2f1ee369c3fd936d99c0dbf1', 88), (False, 20, '65ed8a6f216200fb6d7fb1fe24cb0a916e4d0f12', 88), (True, 27, 'f5ac4a53c6eca8354d79cf5f38bc5922e586099d', 88), (False, 29, '35811612228e83591222c4e1e55b4d6397ceda59', 88), (False, 18, 'a96b314752eb2464caf29f7b1ea3ba1481209a54', 89), (True, 11, 'f77e467b9a03818d1517b5aecbf1c7851d20b745', 89), (True, 11, 'a7fddd078425955745b93f89354805f198eb9ef2', 89), (True, 11, '3900565be0d529adc0a484eda42735be47d62a41', 89), (False, 34, 'abb1fdba8c0ddea4a3346eed1a4f03fddca80f00', 90), (True, 29, '1d56a70d53c09dca85fa6194895f9b6d8e104ad2', 90), (False, 17, 'a177eb6ec47e1bcd103f3569b6006f1209a0472e', 90), (True, 23, '79985d77440120d36539afd12caa3c43cafb38ef', 90), (False, 30, '61453a9b0064e00973815df7691fad26c2e2e87e', 90), (False, 32, 'ad676d315a6c25b47b3fb7f2493892c29215a1d0', 90), (False, 35, '03fda952f9553fb232f9f35aa5df21c0e3b024b3', 90), (True, 32, 'c04b71950f6a6f5dbf7a0b1f0e19a94622ee22fc', 90), (False, 17, '7c1e769c7925ef1ac41ad56157b33af83bfe1be4', 90), (True, 16, '31a4343fb990c768e3e051b45dbee3a214c73a98', 91), (True, 34, '2d266c03ce08016d42dbb93803a017be4276351c', 91), (False, 26, '2ee66e2153fb2ed1b9534807300961c3855a7d8d', 92), (True, 32, '204d01f8672acb6e133883e16529347d93b98dc6', 92), (True, 16, '4a0905d3d483b7493ac07aa907176f452d6031f1', 92), (False, 22, 'fc07da9f655e55bb9185291d8367829dcce61c35', 92), (False, 29, 'ffef27d18ca0d1a1df95f3513a84ac67039bf1a0', 93), (True, 11, '5809765334f1526e8e673236682635ffda46b2a2', 94), (True, 36, '5154ca37d494ba87417ff050027e4b649fcc19db', 94), (False, 17, 'bfd4ab6dc3abe4cbdb4572985ee9276c221bdff2', 94), (True, 30, '3c874d9908afdd56a31ae16153564427b98e4f32', 94), (False, 24, '545218ddf743f1202fbe158f63a07ea507df994b', 94), (True, 11, 'f460a89adf202388944f9bce416b25c73c5eeb2c', 94), (True, 14, '476ed0ffab30318b2d602c63605897a72cf0d4fb', 94), (True, 33, '3d3023f0dcfb4b41f4c8973e4c7ce0874178f584', 94), (False, 36, '3f4af283ff3906d592117d606da3c349e3b2c5f3', 95), (True, 31, '32a6d034653769b6ef152aeb3e7f040fdf1dc130', 95), (True, 36, '1f7592b971c4d8d422c6114aa6ef31c0de752a40', 95), (True, 31, 'bcc0a4145832bef8f4f1909deb7ce6caa30486ad', 95), (False, 25, 'ffef92b90356269f3f4701b7b79e1edef3b655d4', 96), (False, 25, 'e815183568db006835a20debd167a647feec8166', 96), (False, 33, '44960c9574188f3a7548193f1e3f0f92de72a6a3', 96), (True, 24, 'd947189a12a9c14b11acc81f13b0e8a67624ac61', 96), (False, 20, '1cf1708338708a7c0795bfc141b90012b4bcc8ad', 96), (True, 18, '2524089a56ed46f985aab0d1c7be956a0c4b6b93', 96), (False, 35, '7872d3d8903b14d77a611059f545d83646b37b0d', 96), (True, 33, 'bd632b6dd66431d42cb49de4671e40cbedb3728e', 96), (True, 25, 'a88f71c7b8ccfbeab539efc645157fd7522ea9b5', 96), (False, 34, '6797db73cb3a95fad9f98fa793791e2f23563c27', 96), (True, 31, 'cc972c86b8629d147432e5596fd3dfaa88ffdf97', 97), (False, 25, '5024e53f7e4922a98eb09fa7098f46b049e9eb33', 98), (False, 36, 'c79abc939012c7996550a80c6a0e73d17ea05fe0', 98), (False, 29, '63025c3145d98effedcdf0008b13d446cee72ab5', 99), (True, 28, 'c52ef6db1ed8c436fc83d256e744a7e76a358c44', 99), (True, 28, 'a55d4bff95fbf0ffa8ff4eb910303d5c355294aa', 100), (True, 19, 'b1c0a7ae6c0787a22279e97f7b16c860ae76addf', 100), (False, 21, '3de48acc4dc77039ae78a34270c23fe02c9bfdba', 100), (False, 17, '7a8da604d40961518bd3a3978343742912e07a98', 100), (True, 25, '29aa765e9b50eb939728cfde917160c397f4f643', 100), (False, 23, 'e2437177ef6735f08f7cbc7f4b1e0d788ae8cf4f', 101), (False, 22, 'bcea20e0c497449db20fe04d1a4a17e177183b11', 102), (False, 23, 'b9c67697b68090e29b90a04b2a585a9bd701ef04', 102), (True, 13, 'f4ae98f91153025bdff87e002d4a7b0212ce629b', 102), (True, 18, '9893ff24786c225422e155b36b5e8fad58df4cff', 102), (True, 30, 'd783c932baaba435234f112e8e7a40f7d15de670', 102), (False, 18, '858226033a86fe2aef4eaaecb8a5d621a5b99297', 102), (True, 33, '989bfdba40f39bf8d8b1fad490eaa161e4adfa3c', 102), (True, 33, '0d005c94a2400865b8726882817a8c74646bc578', 102), (True, 29, '0878f6db004cdaf00ed91a324f0fa9db4b6a3fea', 103), (True, 24, 'ed78dfa2459e4c1eb0f8e9b42d131494bba6aca7', 103), (True, 26, '8fdb2e1cb70de075634165c6ff4d37fa4a458a85', 104), (False, 35, 'a6ca2d78cd51b258a69a832a8c681f95005010f8', 104), (False, 17, '94d3d5443229e1b2bfcc134721238de41269d900', 104), (False, 28, 'ec9523de6bfa3f87de1dde9a7293a6a8126ed0c8', 104), (True, 28, 'a9594f4da09c4472af442e5bb4018afc2732ceb8', 105), (True, 25, '5aa20d6773ff2b9fccc819d870cc4ab75c0c96a4', 106), (False, 29, '2edf218ee5bffd7f21631587cc09582fea700cef', 106), (False, 23, '027628744d2d3f512cfdec2e107863a7dd2051e6', 106), (False, 35, '29308de7883f195ed41fbf674ec00bdd2c799390', 106), (True, 20, '6065ce9b3e98bef195a52b8783db7b2d14abbb3e', 106), (True, 29, '3720c6945542996d4cd8e08ca81177bb9922afac', 107), (True, 21, '4589a7171618a9fe79feb06639f8f4c96db77b10', 108), (False, 31, '4971a5daa35ed31a07f2ea674ba14c1c0af3630f', 108), (False, 34, '4bac9755e861cee36d57db1f01c5287572af5114', 108), (False, 13, '781cb9b5a5c8c9667eb4b8cf613e18d6794c8918', 108), (False, 26, 'a672bed45a27edb7878954c5d102c55cb093abe4', 108), (False, 23, '2861092e07766fa45d122a0874f4e690c27c076b', 108), (False, 20, '3eccf66b1dd75f7c7ba136e2edab6187a41d0443', 108), (False, 14, '5413181570806c63eea399e906ce35dd54312c72', 108), (False, 30, '28e1062c4d4c5937d76e1043a7998c6ed225f290', 108), (True, 25, '34f41a87f82fec4e77f5a3bedbcae0331e03d44c', 108), (True, 31, 'd082f7716e568186323cd9fab9dbc4de0d3e2b5d', 108), (False, 20, 'a24c3617117bb01dc7256cb589c32b8adf1367dc', 108), (True, 34, '732fc76122d29ad7becbc985846819a2036d10dd', 109), (False, 16, '5f150f663d18891f584011d0c3b4b683ac2ac262', 110), (False, 32, '3a21cd54207dade9775bdfc0766a6f81394410a4', 110), (False, 29, '293300403387eec5849115eee126adac4dad457a', 110), (False, 18, '645f75bbbb10ca0bcb6f0d9a336b01f8cd5b0f4a', 110), (False, 34, '5eb19b5ef2a93ee27bdc770faa00bf5c3fb62a1e', 111), (True, 32, 'b4030a07518938458f1a92bad78aef8557154736', 112), (True, 17, 'e5229e4e152f00aed514ef1e48213802f4540f88', 112), (True, 27, 'c230604826b550adce24e25cf3c9ec00ebd9cc31', 112), (False, 32, 'f4631885ee425c3bf612e3da47dd3e7a141432a0', 112), (False, 19, 'a6a62c2fe044aadef7465159cd8ffa60e9ae9d23', 112), (False, 24, '94f76c2688cfe6af133892516c84dd20d56cfe2c', 112), (False, 34, '7ced0ced2fdf78610e29c73289c7d09bcec4cc2d', 112), (True, 36, '2f080ba337506b9fda90fc69df127c7b7e57932c', 112), (False, 15, 'e89e7808c6881a35134d6df8b540ced6903f9ada', 114), (True, 26, '65941ed4891d538017b091942719d1afbdc214af', 114), (False, 12, '2f3be0ca803ed5b7988ba55957ad3ff5c0468509', 114), (False, 12, '1e0718d2337b1ac97d5d2a1e0f380d93e396867d', 114), (True, 35, 'c72d1edcd15296416df122f52a69e4a4015b1b46', 114), (True, 24, 'f954bfe0b2e2f2711b0377f9b2e9667920141660', 114), (True, 25, '211bd8d943f7d929f1d6fd1dcefc04239f11f000', 114), (True, 25, 'd394d275a77c4cee9346ba7c68bae67b0b5322da', 115), (True, 19, 'b54b3785cd2ce3d1fb76867bcd95a38b312cd7be', 115), (True, 28, '276f1234884116f5a25f0e7021772f530847701d', 115), (True, 13, 'b83adbea3a2e2cf0b717a4775cd65628c462913d', 115), (False, 31, '006f954a5c4a9407d03af1b2300f7c0ea3290e77', 115), (False, 10, '5e699185751f5feb146c3606a7eabb544689b316', 116), (False, 10, 'c824051c7858c332dffb8c5e75ce3c1ae4d84f9d', 116), (False, 10, '8b0f48e02c754902edfd82e7600d43601634e74e', 116), (False, 10, '95d9ad91602cc7092cf49ae22933eb1cf5d7ee4d', 116), (False, 10, '2588aa5df274f0db37defa808e9255c5bbb06c82', 116), (False, 10, 'ced42f63163892a8d678ea764215493c7a004be6', 116), (False, 10, '224e4c6f31dc1e05f23efc8a89c9a1465efc25ff', 116), (False, 10, 'c087aaec4c59078bac0f9644f32406eb7f62b5b7', 116), (False, 10, '721df8ac5a559fee5233faa3327e66c0c1f9b29d', 116), (False, 10, '09cfd9e79cd61d5c9627f763cf0a4a78e63faece', 116), (False, 10, '74eccd1d10306665e2733183427189c695fac53c', 116), (False, 10, 'ee7dfe3155b80729ffdf54d50a720c4937233bda', 116), (False, 14, '32e19440e2cd86a11017478c0bb904c73a14e7aa', 117), (False, 31, '3fd934a604b0d2457d7715690dd96ba07fccc479', 118), (False, 18, '191828102a404860c33fa54cff4d18eda690559e', 118), (True, 13, '538edc3a1701d7258db4b0afd217672cb62d8d1e', 119), (True, 22, '8736daeb1d1f93bd2a18308b5ba6ca1b2bea36bf', 120), (True, 31, '6ed0b1b6ad44e68dd235f367ba9cae68f6674944', 120), (False, 29, 'ec790f51a71f0c080ec539326c0f1b36abc544ed', 120), (True, 35, 'd9901f5cc860cc07635841ad1ba0f4c8ac3d6923', 120), (False, 36, 'e36624a7dabfe9d5d0e1a5686dfedada732597c5', 120), (False, 36, '6726467ce2d2aeff7adf2c7de75e84c57c43b0e7', 120), (True, 29, '3714ad58c76e713026b646b8f9df00dcc864083d', 120), (True, 26, '5a7f282532ca0b3f4b33be2a71ef24c53e8b18f6', 120), (True, 16, '3c21f0eb6e29e9cb0f41224290654106d6c0b4f7', 120), (False, 19, 'f54766d448b24253853c0d5f6390bad1c81b9ba6', 120), (True, 33, 'f0cdb6446c680b242a15d70ee3a59771f6efd0e8', 120), (False, 18, 'b1989bdb255fb477cd7b6e0b7e79a5e2779643c1', 121), (False, 33, '1b51eb7ddf385a0ea8cb2bcddc3bf5c93a31cc40', 121), (True, 14, '15011f8231e625c5ef99970e3b7ffe01e80f90bc', 122), (False, 36, '160ec8571516cdb6fac24febb76d5db07ef2d5aa', 122), (True, 32, '44d7ac12d7069d45c63e48cfaf2a48d36bc2db96', 122), (False, 34, 'c4b9ee852253dfc54d9f0dfa10e2e0713b99fbc3', 123), (False, 27, 'ede19ece5a2e6a997166c54b930575711e69b4b0', 123), (False, 30, 'a63d4c433d72ed8757e4beab727defd4a841268a', 123), (True, 27, 'f4327e069f1e906ac7d78eac11b542b5f50adf35', 123), (False, 11, '0cc62b66f8a1ad2f72df16ec9273b35e34a7881c', 124), (False, 11, '583cd18a1f5ca8e3a620a7499174a9f8db3bdcf4', 124), (True, 16, 'a220f0d34fade8c9a1a3ea00157e1029f777be63', 124), (True, 11, '35396d5c53ba485e362753ec1ebc64614fd6af2f', 124), (True, 11, '603d2387bd6b9ba2f9b530a25200b99b01f7ae7d', 124), (True, 36, 'c4b2d598450f1705ad03572aa984053738a9c05c', 124), (False, 28, '831c8f63a9ec3f1cbbf5548f573c98d5bb9f68e8', 124), (True, 11, '4fe97c2114d3bd6376393e873325299ab68de421', 124), (False, 36, '2fe101ade33ed2a1f27d42e8e663541c37b5a17c', 126), (False, 18, '72b871da90dce4390e49880ab1672c56fd626325', 126), (True, 21, '1377f8fb5f89d1171fb9f66d09edf7070ef1410b', 126), (True, 35, '08db4591b9ca2ec6dba05958738b087f9ec8fd91', 126), (True, 12, '6c7a7b4db0f37b0d35325f00e0343cc48aa19d3b', 126), (True, 33, '0cce6963564e01baa063b2bfc3376667982b79fe', 127), (False, 23, 'b90d6ed7d3e0bba796e4235c62b865c51c68d161', 128), (False, 22, 'cca997e192b0398ab31a60e4ca5d5a0c6e54dc68', 128), (False, 22, 'c1724374e973ba652e705227082a88dca960f914', 128), (True, 24, '5832bf7acd25fca80199db9c0176c2af5b123b49', 128), (False, 17, '31a22e3d4e1cb20c2f74c353ac9148dd98837632', 130), (True, 22, '1004b550fe724efb770640722769e143b1819547', 130), (False, 23, '8aa15486bf8ad4fd14797d89c7bb2550325f797d', 130), (False, 31, '52950df189a5c6134cee53bde2baa40078c7e789', 131), (False, 33, '740ff8f66e293bf643ca8adc0c7e6266d11c2fb5', 131), (False, 17, '5d8a1d26ec504ee484f9d5eb174f09ec18d40eea', 132), (False, 28, '538ab32c5d647e74727bde4741805569f303e3fd', 132), (True, 21, '706392ab4d8dcb1ebfbf6694de6c51bd86029344', 132), (False, 17, '9e8a0147558a9f70398e54d2644848c1938654f2', 132), (True, 33, '416f319d972395459352827131e13264a51177ef', 132), (True, 16, '688393f7f8a2279498f3b0a1c4d8347a44fc93cf', 133), (True, 30, 'ee85b2eb1f4fc7b197ee97f3c9b1dfe31d054d37', 133), (True, 16, 'c77c76add3ab22c0bae25b8e7504353f6104cec2', 134), (True, 26, '69d3ebcbd01aea678229a21052ea2277f9a40fc8', 136), (True, 17, '7eb1c4f9af87d49e6b6b0b2fe60f84b6850c5930', 136), (True, 18, '39a1c68bc222983035a4efbfa80f94c1235275cd', 136), (True, 29, '564fb41c00849ae1e3220f7bc6ef282c94c45151', 138), (True, 31, '14db36ff671f400be7c5bdeacd7b70d58f613f6d', 138), (False, 26, 'dc7feee8361289b18e41e9e429417985e40ec8cb', 138), (True, 14, '28b82fa49b4ba269ba7ed5b73ca57daf81085dcd', 138), (True, 26, '79a3b757c286ad4f4a03947c5c9e67f85cf375bb', 138), (True, 29, 'e8e85a777fe1f97c0b431bace95a812edb2e64cc', 138), (False, 34, '72185428c6def03e7a70825e0084cb77cf4e6ece', 138), (True, 16, '0ffe6445aed4fe393a3f4d81f23ce296b09fe190', 138), (True, 28, '0fa84c7c159601c24d5c6f95dc48716fc0091014', 141), (False, 25, 'ed4f02e618bcdb522626e56e23981660664b4e5a', 141), (False, 35, '7b76f1b254fc5281322515a53a89591eb7b9387b', 142), (True, 19, '3a8c8c6560e7c0459a89c1b0e7a6155f4c3270e1', 142), (True, 36, '5b737b2d2e474e75c1d9e04331c32ad9fdf1fa7e', 142), (False, 31, '0f7cd18232cd46d0b8eccd5d70782c087dda09ad', 142), (True, 36, 'b8888ae1476fe3179e59c08a21675da1c198cb7b', 143), (True, 31, '5e97a71b345db9a15e5a9535924041b8e8948be3', 143), (False, 28, '00d525e76e001e6997fd224b321dab41b370f7f5', 144), (True, 26, '1bf9b3fbacbe5531dd44abe4172457f402975688', 144), (True, 15, '98fdbdb84a233960a5df2d94075b8a952a46e858', 144), (False, 15, 'bbe9180d0287268e47c9035e4336ec50168c99a5', 144), (True, 35, 'a44682c6fb604c180fcd8b2454c6956933851d6e', 144), (False, 27, '69dbc60fef7dfb64aae7b4454693774fcbde885e', 144), (True, 15, 'a2d06b44de6ffe50af617a7a0f4804235a06eee5', 144), (True, 32, '7eeef256beb8397324db24a0227486da70487958', 144), (False, 26, '461579119dd65df25d1df894945543994bcd67eb', 145), (True, 26, 'c4e1dd917f61910178f602c35a0e59fae53f08a3', 145), (False, 27, '3616acceb3a67592353d45c81b33e080ed74948b', 145), (True, 33, 'a15db68f34190ee3fe5a30001b2ad84f20c9e130', 147), (True, 30, 'f5126b20d195446e9fbc1427bb617fd4eaf35ed7', 147), (True, 25, '9f0903656ca02d2099bf7cf4c872fe266b2c5bd1', 148), (True, 21, '0d9b598aec574e06ce7efc7e2568533e4fa178f3', 148), (False, 18, '046b27d6589c4e2aa4a90b27494fae5eb3bc15f5', 148), (False, 20, '33d2c4c952f2e74f74196e4755fb8715f4e0d95d', 148), (False, 14, 'a017f11be3f919bb104ed6124c0c5d804b804d47', 150), (False, 29, '934e9b53b3a12948e20e82a7dea61a2dadb6ebc8', 150), (True, 30, '3be957670884fd16636abf8ce7e3f52c0cbf404d', 152), (True, 35, '1548d9c9847c620c5c7d6db16e254415ce825983', 152), (True, 26, '52d95b7378958c46f8312a9e6df125ccbe204e77', 152), (False, 35, '6bdc519b4e7ac4ae5f90ec3e34fba905266efb28', 152), (False, 25, '25c289e316ed00eddd5eaabe4ebed848bfbf8519', 152), (False, 26, '5e88b200355dabf52a92c6186c18a441485f64e9', 154), (True, 25, '721d74a2f89cf0c8c853be355a2351942c8b9a27', 154), (True, 21, 'aa2e61f4615bbffcbee93e00a60644267133038f', 155), (False, 30, 'd1aff050e1e610b029b4465fec582f6fc1d2337a', 156), (False, 12, 'cfc5634e4e3cba7a1051c0306e7b52cefa5a5ef2', 156), (True, 18, '425ce9c6c3aace116c367ebe9521dd9cf11f3119', 156), (False, 29, '87865fa34c96813ac1d1ec38543aa3ae6b398876', 158), (True, 25, 'e57cf571787433b1f42b2fe7a22a7131e8fbfe3b', 158), (False, 27, 'ea745a01c106b68611a2a57a05adbd3aca43ff55', 158), (False, 26, 'e9211ebbed55aa6561ae2149d8fab97bc711eaac', 160), (False, 35, '864c2e8bd7aad1678b0b528874077ae46f04d97d', 161), (True, 30, '24cb0b4e3825a7e1e80d240312f378a184c65027', 162), (False, 19, '047b896506a9f33940e7fb0b2fabaeaacf09cfe3', 162), (True, 11, 'a5281d31751db157e0885b96bfc7cfadfe4e4460', 162), (True, 11, 'ac617318ffc76d8ca0aee32f713bf54e63ebcc5f', 162), (False, 11, 'c51ad46d2c7f8a95888c6e8b8752fc185f30f35b', 162), (True, 13, 'dee1dadca0af7d739612ab9edc3eab899120bca6', 162), (False, 36, '18a93b36cd1c374773075bbb072eac05138739f5', 162), (True, 11, 'baa1883b734ccf93a461cfd6c870fce08a206a16', 162), (False, 11, '6861d7f6515f0a4072b1a2f56732113005bde299', 162), (True, 11, '4e696220a828bd62c2ea1680e2e46ad31536a844', 162), (True, 15, '70e43c88bf20cc21a7ec0d9735997573921e093b', 164), (True, 26, '716b285026c0043fe2cce4013b4f70190a417cdf', 164), (False, 35, '5ded993b3a53c3fd55f0a45ce2b45d396ffd6f3a', 164), (False, 32, '0afc12fc27c1fe7a086e2404b11bb79f9a45193f', 165), (True, 26, '4ee87b196fd78bd3e55f070d67d9513726603a73', 165), (False, 16, '0766110902b44edab30049e7eb5826814288a9a1', 166), (True, 33, '12efc1e1eec269b73ec81b9c5c76cca23c5f9cb9', 166), (True, 24, '0dd35d11688181a813d1ea49ed469bf4d5cf2dc4', 168), (False, 27, 'ab3789b3654678b564ffc93fc6877f35de27df45', 168), (True, 30, 'a8b4e410ecc7d4f6fb7c3fcb7ee444bbc200b7c6', 168), (False, 17, '29c986f950faf6f6a2e89bf2f20a96fba5d40278', 168), (False, 24, '9cb56acabc3160f7fc902b96e02084e4dfedbbcc', 168), (True, 17, 'f48bffaa0cdbcb75e658e1c51eb37d48436ed184', 171), (True, 31, 'f3158c0c66dd779403c54c71fca055362169df82', 174), (True, 28, '81cd058b531cc2ac2f4eeca2cec6510374f232a6', 174), (False, 12, '24e14b524d1f9c8b58c058232d892ff45fc90fa2', 174), (False, 12, '62bc5e456161ddcc6c5d12c11c8ff42cc943c829', 174), (False, 34, '7e22a786b5208949a285c5e214e177310e90a7d8', 174), (True, 12, 'd4f7fd331e6695f67eb1b5bc260384ec374eb282', 174), (True, 32, '71c70f9372117bcf62cda222d2a19a7f375f9ca8', 176), (True, 35, 'c1fbe94cb8378d8291cbe386f112cfd037b5dbac', 176), (True, 30, 'f5ba59a44e6c8962706e516b267e391ca5891cea', 177), (False, 33, '661cad18aaed2c48da9acd1690e2e3685438cf32', 180), (False, 28, 'f42bea3d9a725524539975a06aa9ea29c35873cc', 180), (False, 10, 'b43e80b2ad929c78107e3be3d282a6f5479ceb25', 182), (False, 10, '31a0039f2d2480331a0b51a25bd01a245c441de2', 182), (False, 10, 'f646229171a8c3b3351383421e19026df6cda92e', 182), (False, 10, '3e73147bfdd828eecb2c5a71901ca1c7260b693b', 182), (True, 25, '7cd501814774f04b6ea75fdb19e6a641c1dade95', 182), (False, 10, 'dfac97fde85b3b2eb8bf4e08da4b3710fca8b49d', 182), (False, 10, 'f1eed29111faa5f590b4f373f5f43d268559bba2', 182), (True, 13, '36391003c7eb03d85f3f7dbcb51805da885a8e4f', 182), (True, 17, 'd1e5817865510f8f4334d723beda238910d1a434', 183), (False, 34, '1bc3fdd9a2a891f3ce8d9e21d5a68ae24bf45451', 184), (True, 33, '9e996246f4d3835c41d74a3ce30481a56606a99b', 186), (True, 18, '94fad1a5d75db463f99dfc47f89e4135eca06994', 186), (False, 22, 'e78da28a737c650142a552648c40cc2894d488b9', 186), (False, 22, '3750fd7de4854e0d2f601e5935b8c63a6fc9fa1d', 186), (False, 24, '14788e8624b465def1895e9e31a3621c43e98b94', 187), (True, 14, 'b86ff71ea00ef3a8f793ae6926c468a32ac5716d', 188), (True, 33, '3b1ab4e95cc5ec35428c876de4901df340cfbcfc', 189), (True, 20, '94e38f93184255aa068ebc85cecb532e101b63b2', 190), (False, 23, '8b080a1d2c96f945ff9e8d762a87bb429bb1cc7a', 191), (False, 17, '3ce16a20180b81960f1656b4211544010ad1c4d3', 195), (False, 32, 'af17b62fd71ef8445f2a36e8920f29c70da85499', 195), (True, 23, '504ea4e64013f3743751e0adb5da51075f924cb9', 196), (False, 33, 'ae433b71b8ecfe833a614c6ce6ab5199de931896', 198), (False, 18, 'c92f3b2ab6806507ed55b22c38c5367535a3103d', 198), (False, 14, 'f085fc45c7cbfbac83444c9fa7316b47f23f1654', 198), (False, 14, '15006be31b8f0a27c7f2523f1ad8ac7c42c0066a', 198), (False, 34, '16954faa712750511964169604f54fdd0d20ebd8', 200), (True, 13, '73ebb0a4e0c1b6c843a7b0779cf3619d74de39bf', 200), (True, 25, '6d9bd277ba9b1a0e03c01f19867cdc6c00b2d77b', 202), (False, 36, '7973d6998d8e1d7acc851fe4298c0fd6a4ccad1a', 202), (False, 28, 'c84f5f48627167c8a21927484996d8e5e3153776', 204), (False, 26, 'd98c791a46ffe1b1d1ebc497b370814d5306ea3b', 204), (False, 23, '06bf41aac72eff663303589122c8a77ecff82d1a', 204), (False, 24, 'bac95cccbd5ae578dad92c12acc741ba65442d6c', 205), (True, 35, 'a700a03083b67f052c9b288aeb579aec61cead55', 209), (True, 20, '1b53d85fbaaa418ba5a97fd2e2c71ba1c08e3f27', 210), (False, 23, '133b9d2c4129da84cd92bbb36204517f2451af80', 210), (False, 19, 'a9db614e1e9aef8c2e26b0543f95e0473ad688b8', 210), (False, 36, 'bc18a27272544684f9695f0d9beb313d4c380d6d', 210), (True, 36, '85e53d7eb1e24310bfcb8a6ed526afff4c29697d', 211), (False, 29, 'f034c1d3122b91d694d71cbb153e19fa6541b63d', 211), (True, 15, '33f6f764c79adce1e82952bab988fc8ece470ca4', 213), (False, 32, 'f6f8715b1e1540fee329cbd50eb58f1f45c31a00', 213), (False, 20, '56c6d016633d0b19ee2d52b0e39fccba34323b4d', 213), (True, 18, '821028ec49e80f039064b07ddcc8a5f9a0d10936', 214), (False, 20, '9069260d8d7551a7a3c20fd78c483b016b5401b9', 216), (True, 25, '762d502ac57622bf9e7a0fa130788c479b2a12e2', 216), (False, 17, '47cf54b70e1f7da4d48a944bdcec531276edc977', 216), (False, 21, '33574931ddf5ef51a51427bf7f5ecf300ca24805', 217), (False, 29, '272dff49582fa8b0f4761693b1ff496345ef3852', 218), (False, 34, '5cd3713e26e45d74f5a391bc2441e8a14d1cb28a', 218), (True, 28, 'd3dc27d19af7b372fc5bd62d111d9f6157a58c57', 220), (True, 26, 'ab9a6b4f36005caf51884d17d9681b47cf6e2694', 220), (False, 21, 'c721cd89d29fc00a9d7de0066d92c4cb4e15e22e', 222), (False, 19, 'a39b396b66f94d2f874e13adadb6419ba473d7fc', 222), (False, 19, 'ea48a62748456e1f5d99dc266a4e53f2f1cc1af9', 222), (True, 25, 'd1064aa573813b356c8b8f3f81a653fa6cc2a6d2', 223), (True, 29, '2542cff6071001c5c02e3a7aa1515f1e6c394ce7', 224), (True, 13, 'e918c0117660a11771e7ebb1a7619e9bcd497fc9', 224), (True, 32, '75844fa5dd13a92437fdfd6eed527d1dafd17b14', 224), (True, 13, 'd812f3bca8831b83091d59c84f452e5ef5b6d3a5', 224), (True, 22, '3b4304d967e6eb9e854fdb9264e14ec5337757a5', 224), (True, 12, '97af7b3cd799898eac4f81f5c8e7e4e5d3eb5a23', 226), (True, 26, '491eb0988e7ec15cc6c2d99789db15973ca7d3f3', 229), (True, 27, '5b4e6012868befb0d3bdc69856c1294de2a1bcfd', 231), (True, 35, 'cb7cd9c1ac5c769a175e67db5a6617e5f35d6a11', 232), (True, 20, '0a72e1230f00672790627802d9dfe7be1ddb7a6c', 234), (False, 35, '7ce60b85522ccf5f5f2964c445f17f77bd3049fb', 234), (True, 22, '15034a53178e1396e197b197c65f73d2762970ae', 234), (False, 17, '41752acf99d94afb9349a0c58a2570c3a86c5e75', 234), (False, 27, 'a1ef9cd28749ba3bf9f1699a5f9b482a030b398c', 240), (True, 16, '857dc63a90e1650d9ba0690eeddffc85165f5b94', 242), (False, 19, '83410ac6401e59e49674ca322d06e802a2321045', 244), (False, 36, 'af1bb949a5f38da3ae09090855b0272d774b4468', 245), (False, 36, '9017813478e135ea3146cfa9d1a34b35aeb950c9', 246), (False, 35, 'e8740ef21096e9b2d1e768f4f63dfe6af28e40f2', 246), (True, 33, 'd8bc1f271194e1e464ecb61e99ccba01e7d5d8ed', 249), (False, 22, 'becfd19a88f9558817a6f87e844bdf948a50b6b2', 250), (True, 16, 'f0666ec259ba95e64fabefd72dbc498718401a45', 252), (False, 26, '50dcfebaf4f4144c9ffda74a60f8a5a1616cebf8', 252), (True, 27, '908c09eb2a4ad636b916cf4c14f4ce048f6d1ef6', 252), (True, 21, '3aa67f69c0f17260fd7b1fd5ee7ed9b7851b5119', 254), (True, 17, '16879b78d8e6e20a1b012765519c36f93c539514', 255), (False, 13, '95cf4e40df9e5dd6ced6d4c28b0df63f76065d7c', 255), (True, 13, '6d940882f097a68691809bfc6dcd3b07fd42de04', 255), (True, 21, '0a446a0b10f747d3e95f7c2ea3d7f9e83d4daf96', 258), (True, 23, '600f3f5136f357b3db804ded070ba2fca002d706', 260), (True, 36, 'cbd66488ddf2ab464bcc8a159b06f4ed511dd1f7', 263), (False, 26, '7f70ecd8a2365b0f4f42460095433402e7fa5a36', 264), (False, 27, '6997481634a0fadb8a6b3f0e766f0dad6f5e5a1e', 266), (True, 21, '9e28deb80ec419defcab5e1508a2196aae3ab3cd', 266), (True, 12, '521a71531e74f0830e5a4900cedd4baefbfd7895', 267), (True, 36, '950d2e962ec2ddb0449251490ce8356eccc02d31', 267), (True, 12, 'b67bcf3a5adb73106727bb2203a33a7df9acb1df', 267), (True, 16, 'ded99ae5a9e40e57e9c65fee7e1c22f49b9e1674', 270), (False, 12, 'b4ae9b91b7d881e2c82e16dd573f657ba6ec032e', 274), (True, 12, 'b9e9e3fa8a9db7e829a6bd88557cbaaf77d3225e', 274), (True, 22, '4b0ef919cb9d85a031e9cf3c41e2b298efddba5d', 274), (True, 12, '1c4cd585e4ffebbeb6b42a91510359f7c0ddb5fe', 274), (True, 23, 'ab900d2ea0af4f2efcff0996dd85a68aa5b3e20a', 280), (True, 18, '5d41cd7c9e1d2817a9589d0537fc62410e93ea85', 285), (True, 14, 'd4afd79a48932ed3e9083b1fae0197874071c7ad', 294), (False, 35, 'd89d57b513af3f77f6247ab376b3f5f5e8bb9f1f', 294), (True, 33, 'ab4d3c83f7c7b75fafa6ff31c1f8ae348743b0f4', 294), (False, 31, '0e6c893091cdaaaf4643e92482dc8e7db8476f98', 296), (True, 17, '60896a0325419136b6cc9495716f51cacb83631f', 298), (False, 10, '5b14b2767ce9fdc84431196017ee2b887d9419d8', 306), (False, 10, '85d433fd5b1aac2d3f829fdea1ba104982af6123', 306), (False, 34, '171906a85af1d14d18efc24a368a9248dad8390c', 307), (True, 26, 'e0b98273d928c6f9f634803763d32e95b6635f0d', 308), (False, 30, 'f801cafdc65fe2c440508bfcd4ff4c8b067fd5a0', 314), (True, 32, 'eab21f33d69e04e6df651fd7a43b4c44f4f251c3', 318), (False, 26, 'dee5686814a0fdbeee0e247f1b1156911551003e', 320), (False, 34, '8f3ebbd1e2aad2935662b88aab420d137f88f425', 330), (False, 13, '5c0a1de397dea785eae865ce74d0ab5250d1babc', 337), (True, 35, 'ac812c7a0c724ed473ebdf2480233b46fbfb5c5d', 340), (True, 29, 'b6d502da45b697588c21062eb4827d5dd6c5712c', 340), (True, 22, 'f52fcfe2928ff9c9793360b5edd9063f2644fd2c', 343), (True, 14, 'fc31c1ddc515925d647ea7c28d334bb983c775c6', 346), (False, 35, '50ad12d330d884adf52407cd8795ad0f08ae412f', 348), (True, 34, 'b6ae895127ba7480ea594194d350f3d7a768b07d', 350), (True, 16, 'c50301680d898ef3c65764eba9e94d344dfa119e', 356), (False, 36, '58068a9d8c31406deea3d685611575c2d67393d6', 360), (True, 13, 'd78075f01734a9b51a49d017cfdc81b71cb99eed', 360), (True, 13, '442b38ccd8a157065f860019eaa8f2603be2a176', 360), (True, 13, 'a7158b2e811178d2ca97b61ce974e93a0d17de3a', 360), (True, 13, '5118b37038228439f07a494b8e99f3bd89a5b3ba', 360), (False, 22, '7302c998df5a5d2a354c0448307e6101e50f8d4b', 365), (True, 23, '0bb2d4a5a57e1e2bc3fc640b578545bd2667e11f', 374), (True, 32, 'f95685999489c6779b1687fe5c8bac906eb65dd8', 380), (False, 16, '63d6e995e0f03d473d2563d123f99bcca895e8d6', 382), (False, 16, '16588bdc2dad2ebd7f0cbab8c9db1f772a71560a', 387), (True, 36, 'b5fb08711319ce2406798b1bd88bc6f03f7f4d2f', 389), (False, 25, 'edcf65234c76cbe6b22fde6aa476fa1d56ad2cf8', 392), (False, 33, 'f4700c934195b3d8034558682bbb32a9377f9bd8', 392), (True, 33, 'd8c5aa7eb5a15cd15407d51ac6ee8d04389d0c67', 400)]
