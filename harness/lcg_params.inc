// generated by tools/genlcg.py: LCG(n, type, a, c, m), ICG(n, type, a, b, p)
#if SHARD == 0
L(0, u16, 55017, 1, 0)
L(4, u16, 204, 1, 255)
L(8, u16, 32748, 0, 32749)
L(12, u16, 1, 21834, 43669)
L(16, u16, 24, 15178, 65521)
L(20, i16, 1, 1, 2)
L(24, i16, 119, 1, 127)
L(28, i16, 1, 11637, 16381)
L(32, i16, 9, 5150, 21841)
L(36, i16, 31927, 24966, 32749)
L(40, u32, 2851202461u, 4294967295u, 0u)
L(44, u32, 2u, 2u, 3u)
L(48, u32, 256u, 6514u, 65535u)
L(52, u32, 363u, 32767u, 131071u)
L(56, u32, 2u, 1u, 2147483647u)
L(60, u32, 2147483643u, 0u, 2147483647u)
L(64, u32, 46340u, 542879914u, 2147483648u)
L(68, u32, 2u, 1u, 2674005505u)
L(72, u32, 3221225471u, 1073741823u, 3221225472u)
L(76, u32, 4294967290u, 0u, 4294967291u)
L(80, u32, 1506241125u, 0u, 4294967294u)
L(84, i32, 1, 1, 2)
L(88, i32, 5, 0, 6)
L(92, i32, 1, 0, 32768)
L(96, i32, 82366394, 1073741788, 1073741789)
L(100, i32, 558642511, 0, 1073741824)
L(104, i32, 1, 0, 1431655751)
L(108, i32, 1, 1, 1889443014)
L(112, i32, 36, 1, 2103678340)
L(116, i32, 2147483644, 1073741822, 2147483645)
L(120, i32, 1, 823611347, 2147483647)
L(124, u64, 1ull, 9223372036854775808ull, 0ull)
L(128, u64, 1ull, 0ull, 3ull)
L(132, u64, 1ull, 0ull, 4294967295ull)
L(136, u64, 2310249637ull, 4294967295ull, 4294967296ull)
L(140, u64, 4294967296ull, 1ull, 4294967297ull)
L(144, u64, 301108803671ull, 19283910270ull, 345537418666ull)
L(148, u64, 2305843009213693948ull, 2024060852838543616ull, 2305843009213693951ull)
L(152, u64, 6479572567689488773ull, 0ull, 9001435196087036034ull)
L(156, u64, 3037000499ull, 4611686018427387903ull, 9223372036854775807ull)
L(160, u64, 3037000498ull, 0ull, 9223372036854775809ull)
L(164, u64, 1303864213053612203ull, 9223372036854775832ull, 9223372036854775833ull)
L(168, u64, 12297829382473034299ull, 12297829382473034302ull, 12297829382473034303ull)
L(172, u64, 7549033151682124616ull, 1ull, 13835058055282163712ull)
L(176, u64, 12070256027093532973ull, 0ull, 17984335063781666773ull)
L(180, u64, 13503705625375068367ull, 18446744073709551612ull, 18446744073709551613ull)
L(184, u64, 1ull, 18446744073709551614ull, 18446744073709551615ull)
L(188, i64, 1ll, 0ll, 3ll)
L(192, i64, 36ll, 0ll, 203756795ll)
L(196, i64, 46339ll, 1434110769ll, 2147483648ll)
L(200, i64, 2ll, 3509406610999248918ll, 4611686018427387847ll)
L(204, i64, 1ll, 4611686018427387903ll, 4611686018427387904ll)
L(208, i64, 1603505856479900446ll, 2615710314302834081ll, 5231420628605668163ll)
L(212, i64, 1ll, 0ll, 6917529027641081856ll)
L(216, i64, 6468109579649843407ll, 0ll, 8647976699456082936ll)
L(220, i64, 1ll, 4611686018427387902ll, 9223372036854775805ll)
L(224, i64, 4611686018427387904ll, 4611686018427387909ll, 9223372036854775807ll)
I(1, u16, 2, 4, 5)
I(5, u16, 24, 250, 251)
I(9, u16, 246, 130, 257)
I(13, u16, 9302, 0, 32749)
I(17, u16, 19845, 4129, 36373)
I(21, u16, 43313, 0, 65521)
I(25, i16, 7, 1, 11)
I(29, i16, 10, 1, 257)
I(33, i16, 3523, 8048, 9209)
I(37, i16, 10679, 0, 15121)
I(41, i16, 1254, 0, 32749)
I(45, u32, 4u, 2u, 5u)
I(49, u32, 55u, 1u, 251u)
I(53, u32, 226u, 0u, 257u)
I(57, u32, 485719389u, 1082048928u, 2147483647u)
I(61, u32, 1017607359u, 1u, 3215481799u)
I(65, u32, 3657621729u, 846542850u, 4294967291u)
I(69, i32, 2, 1, 11)
I(73, i32, 143, 0, 257)
I(77, i32, 183184773, 249439770, 611429977)
I(81, i32, 671204844, 124706059, 805410443)
I(85, i32, 257520236, 1301521254, 2147483647)
I(89, u64, 2ull, 2ull, 5ull)
I(93, u64, 135ull, 199ull, 251ull)
I(97, u64, 128ull, 168ull, 257ull)
I(101, u64, 933381464004897333ull, 1659232995561829592ull, 9223372036854775783ull)
I(105, u64, 15688172714116385222ull, 10636146483375658264ull, 18158935847677266833ull)
I(109, u64, 6354285197736146137ull, 18446744073709551556ull, 18446744073709551557ull)
I(113, i64, 7ll, 4ll, 11ll)
I(117, i64, 22ll, 1ll, 257ll)
I(121, i64, 1785706825689057119ll, 0ll, 3094062512589870761ll)
I(125, i64, 2738962812828198008ll, 0ll, 4611686018427387847ll)
I(129, i64, 560931854742150413ll, 8575636369322206834ll, 9223372036854775783ll)
#endif
#if SHARD == 1
L(1, u16, 1, 1, 2)
L(5, u16, 233, 255, 256)
L(9, u16, 32763, 0, 32767)
L(13, u16, 49151, 16383, 49152)
L(17, u16, 1, 0, 65533)
L(21, i16, 2, 2, 3)
L(25, i16, 127, 0, 128)
L(29, i16, 1, 1, 16383)
L(33, i16, 24571, 226, 24576)
L(37, i16, 22676, 1, 32765)
L(41, u32, 4294967294u, 172861742u, 0u)
L(45, u32, 0u, 7u, 11u)
L(49, u32, 38857u, 0u, 65535u)
L(53, u32, 131070u, 116657u, 131071u)
L(57, u32, 16807u, 0u, 2147483647u)
L(61, u32, 2147483646u, 5u, 2147483647u)
L(65, u32, 2147483644u, 0u, 2147483649u)
L(69, u32, 2073233842u, 311039830u, 2863311511u)
L(73, u32, 15u, 0u, 3662414228u)
L(77, u32, 1u, 2719686417u, 4294967293u)
L(81, u32, 65534u, 4294967294u, 4294967295u)
L(85, i32, 1, 0, 3)
L(89, i32, 1021, 0, 11718)
L(93, i32, 32763, 7240, 32768)
L(97, i32, 1073741788, 114172791, 1073741789)
L(101, i32, 877784568, 1073741823, 1073741824)
L(105, i32, 1431655750, 1167593684, 1431655751)
L(109, i32, 1810957060, 944721507, 1889443014)
L(113, i32, 45864, 1514836744, 2103678340)
L(117, i32, 1, 0, 2147483646)
L(121, i32, 34, 0, 2147483647)
L(125, u64, 472801719921279047ull, 5799221234176845176ull, 0ull)
L(129, u64, 2ull, 2ull, 3ull)
L(133, u64, 65535ull, 1ull, 4294967295ull)
L(137, u64, 3645010719ull, 4294967295ull, 4294967296ull)
L(141, u64, 999130139ull, 0ull, 8589934583ull)
L(145, u64, 16777215ull, 281474976710655ull, 281474976710656ull)
L(149, u64, 2305843009213693949ull, 1152921504606846975ull, 2305843009213693951ull)
L(153, u64, 9001435196087036033ull, 6119099575887675622ull, 9001435196087036034ull)
L(157, u64, 4936803434516224368ull, 1ull, 9223372036854775807ull)
L(161, u64, 9223372036854775808ull, 0ull, 9223372036854775809ull)
L(165, u64, 5645695725203122329ull, 8446744073709551615ull, 10000000000000000000ull)
L(169, u64, 1ull, 5060820060751547946ull, 13385924012958003669ull)
L(173, u64, 1ull, 1ull, 17665922030823806526ull)
L(177, u64, 18446744073709551556ull, 1ull, 18446744073709551557ull)
L(181, u64, 4294967295ull, 1ull, 18446744073709551614ull)
L(185, u64, 18446744073709551614ull, 18446744073709551614ull, 18446744073709551615ull)
L(189, i64, 2ll, 0ll, 3ll)
L(193, i64, 203756794ll, 0ll, 203756795ll)
L(197, i64, 783956907ll, 0ll, 2147483648ll)
L(201, i64, 3655810279498696547ll, 0ll, 4611686018427387847ll)
L(205, i64, 4611686018427387902ll, 139594854496247148ll, 4611686018427387904ll)
L(209, i64, 3276703093088484601ll, 182435545583212358ll, 5231420628605668163ll)
L(213, i64, 1ll, 1ll, 6917529027641081856ll)
L(217, i64, 8164448850220368313ll, 0ll, 8647976699456082936ll)
L(221, i64, 9223372036854775804ll, 2ll, 9223372036854775805ll)
L(225, i64, 8294013506866446323ll, 4611686018427387903ll, 9223372036854775807ll)
I(2, u16, 5, 6, 7)
I(6, u16, 195, 250, 251)
I(10, u16, 700, 2910, 17021)
I(14, u16, 11575, 10410, 32749)
I(18, u16, 34565, 0, 36373)
I(22, i16, 1, 1, 3)
I(26, i16, 198, 250, 251)
I(30, i16, 34, 0, 257)
I(34, i16, 3552, 5812, 9209)
I(38, i16, 4469, 3211, 16381)
I(42, i16, 16135, 1, 32749)
I(46, u32, 3u, 6u, 7u)
I(50, u32, 123u, 130u, 251u)
I(54, u32, 119657140u, 0u, 1109333833u)
I(58, u32, 1554467540u, 1u, 2147483647u)
I(62, u32, 3166626660u, 0u, 3215481799u)
I(66, i32, 1, 1, 3)
I(70, i32, 15, 191, 251)
I(74, i32, 213, 256, 257)
I(78, i32, 394223428, 0, 611429977)
I(82, i32, 4708308, 0, 1073741789)
I(86, i32, 885941439, 324275735, 2147483647)
I(90, u64, 3ull, 6ull, 7ull)
I(94, u64, 240ull, 0ull, 251ull)
I(98, u64, 1676567448384878267ull, 0ull, 6433217762542030589ull)
I(102, u64, 3543214972714912713ull, 1701056913092190264ull, 9223372036854775783ull)
I(106, u64, 17758586969082693018ull, 0ull, 18158935847677266833ull)
I(110, i64, 2ll, 2ll, 3ll)
I(114, i64, 91ll, 1ll, 251ll)
I(118, i64, 75ll, 0ll, 257ll)
I(122, i64, 1871028741265463046ll, 1ll, 3094062512589870761ll)
I(126, i64, 1218350261965067303ll, 0ll, 5360152387004623069ll)
I(130, i64, 4072622249507250693ll, 0ll, 9223372036854775783ll)
#endif
#if SHARD == 2
L(2, u16, 2, 0, 3)
L(6, u16, 359, 0, 509)
L(10, u16, 14, 32767, 32768)
L(14, u16, 28235, 29186, 52685)
L(18, u16, 46077, 32767, 65534)
L(22, i16, 2, 4, 6)
L(26, i16, 123, 125, 251)
L(30, i16, 11, 2492, 16384)
L(34, i16, 163, 0, 26347)
L(38, i16, 27425, 0, 32766)
L(42, u32, 1u, 1u, 2u)
L(46, u32, 1u, 0u, 27556u)
L(50, u32, 1u, 20419u, 65536u)
L(54, u32, 16u, 1431721366u, 1431721367u)
L(58, u32, 48271u, 0u, 2147483647u)
L(62, u32, 2147483646u, 275880090u, 2147483647u)
L(66, u32, 2147483645u, 0u, 2147483649u)
L(70, u32, 2863311510u, 0u, 2863311511u)
L(74, u32, 2220122495u, 2098612321u, 3662414228u)
L(78, u32, 2u, 4294967292u, 4294967293u)
L(82, u32, 4294967294u, 2051368058u, 4294967295u)
L(86, i32, 2, 2, 3)
L(90, i32, 11713, 1, 11718)
L(94, i32, 64898, 53179, 65521)
L(98, i32, 3, 1, 1073741823)
L(102, i32, 1, 543353872, 1073741825)
L(106, i32, 1, 805306368, 1610612736)
L(110, i32, 613534880, 0, 1908745417)
L(114, i32, 40014, 0, 2147483563)
L(118, i32, 46341, 1073741823, 2147483646)
L(122, i32, 46, 2147483646, 2147483647)
L(126, u64, 18446744073709551615ull, 2200498453129540867ull, 0ull)
L(130, u64, 612456957ull, 831399362ull, 1721873094ull)
L(134, u64, 3010208509ull, 396792565ull, 4294967295ull)
L(138, u64, 4294967291ull, 3942129660ull, 4294967296ull)
L(142, u64, 5591394819ull, 8589934582ull, 8589934583ull)
L(146, u64, 25214903917ull, 11ull, 281474976710656ull)
L(150, u64, 6ull, 1732074898885742661ull, 3464149797771485323ull)
L(154, u64, 3294986958429860199ull, 0ull, 9223372036854775783ull)
L(158, u64, 1ull, 4611686018427387904ull, 9223372036854775808ull)
L(162, u64, 9223372036854775808ull, 9223372036854775807ull, 9223372036854775809ull)
L(166, u64, 9999999999999999999ull, 0ull, 10000000000000000000ull)
L(170, u64, 10478571760461792859ull, 13385924012958003668ull, 13385924012958003669ull)
L(174, u64, 10ull, 7321942428806411136ull, 17665922030823806526ull)
L(178, u64, 18446744073709551556ull, 8066225916044047676ull, 18446744073709551557ull)
L(182, u64, 15188858966781430793ull, 1ull, 18446744073709551614ull)
L(186, i64, 1ll, 0ll, 2ll)
L(190, i64, 3ll, 1ll, 6ll)
L(194, i64, 1ll, 1ll, 2147483647ll)
L(198, i64, 1ll, 3358802320ll, 4294967291ll)
L(202, i64, 1605733640156338246ll, 0ll, 4611686018427387903ll)
L(206, i64, 1ll, 0ll, 4611686018427387905ll)
L(210, i64, 1ll, 4240730087595825223ll, 6148914691236517199ll)
L(214, i64, 480541406253889922ll, 2146089797604078450ll, 7077282239250697357ll)
L(218, i64, 1ll, 0ll, 9223372036854775783ll)
L(222, i64, 1ll, 4611686018427387903ll, 9223372036854775806ll)
L(226, i64, 9223372036854775803ll, 0ll, 9223372036854775807ll)
I(3, u16, 10, 5, 11)
I(7, u16, 45, 0, 257)
I(11, u16, 7060, 9731, 17021)
I(15, u16, 15883, 32748, 32749)
I(19, u16, 3168, 65520, 65521)
I(23, i16, 3, 4, 5)
I(27, i16, 200, 224, 251)
I(31, i16, 58, 1, 257)
I(35, i16, 1303, 2379, 15121)
I(39, i16, 5017, 16380, 16381)
I(43, i16, 31275, 4361, 32749)
I(47, u32, 9u, 8u, 11u)
I(51, u32, 132u, 1u, 257u)
I(55, u32, 288809617u, 1u, 1109333833u)
I(59, u32, 1658185837u, 0u, 2147483647u)
I(63, u32, 1274958409u, 0u, 4294967291u)
I(67, i32, 4, 4, 5)
I(71, i32, 131, 250, 251)
I(75, i32, 222, 230, 257)
I(79, i32, 52872927, 0, 805410443)
I(83, i32, 406025512, 1073741788, 1073741789)
I(87, i32, 2030980064, 0, 2147483647)
I(91, u64, 9ull, 5ull, 11ull)
I(95, u64, 50ull, 0ull, 257ull)
I(99, u64, 4723511651799718446ull, 4212542064077580112ull, 6433217762542030589ull)
I(103, u64, 4197514405818731889ull, 0ull, 9223372036854775783ull)
I(107, u64, 2978770068715596676ull, 0ull, 18446744073709551557ull)
I(111, i64, 4ll, 4ll, 5ll)
I(115, i64, 111ll, 250ll, 251ll)
I(119, i64, 217ll, 51ll, 257ll)
I(123, i64, 335315828393696256ll, 2198317135885506454ll, 4611686018427387847ll)
I(127, i64, 1566439068389142817ll, 1ll, 5360152387004623069ll)
I(131, i64, 9143643340510125743ll, 1ll, 9223372036854775783ll)
#endif
#if SHARD == 3
L(3, u16, 1, 152, 199)
L(7, u16, 18124, 0, 22369)
L(11, u16, 40, 15629, 32769)
L(15, u16, 53671, 53671, 53672)
L(19, u16, 53623, 0, 65535)
L(23, i16, 111, 0, 112)
L(27, i16, 4, 8370, 8371)
L(31, i16, 29, 16382, 16385)
L(35, i16, 171, 1, 29453)
L(39, i16, 21846, 0, 32767)
L(43, u32, 2u, 0u, 3u)
L(47, u32, 20057u, 0u, 27556u)
L(51, u32, 65531u, 0u, 65536u)
L(55, u32, 1431721362u, 1431524561u, 1431721367u)
L(59, u32, 2147483642u, 1u, 2147483647u)
L(63, u32, 46339u, 2147483647u, 2147483648u)
L(67, u32, 1u, 0u, 2674005505u)
L(71, u32, 2341642649u, 1u, 3221225472u)
L(75, u32, 3038250506u, 0u, 4294967291u)
L(79, u32, 1u, 4294967293u, 4294967294u)
L(83, i32, 1, 0, 2)
L(87, i32, 0, 1, 6)
L(91, i32, 32766, 32766, 32767)
L(95, i32, 65478, 32760, 65521)
L(99, i32, 74658534, 68005131, 1073741823)
L(103, i32, 860488999, 0, 1073741825)
L(107, i32, 1610612732, 805306368, 1610612736)
L(111, i32, 1908745413, 954372708, 1908745417)
L(115, i32, 29, 1073741822, 2147483645)
L(119, i32, 1, 0, 2147483647)
L(123, i32, 16807, 0, 2147483647)
L(127, u64, 1ull, 1ull, 2ull)
L(131, u64, 1337894646ull, 1721873093ull, 1721873094ull)
L(135, u64, 33ull, 0ull, 4294967296ull)
L(139, u64, 1ull, 728431366ull, 4294967297ull)
L(143, u64, 36916511109ull, 1ull, 345537418666ull)
L(147, u64, 281474976710655ull, 281474976710655ull, 281474976710656ull)
L(151, u64, 1861222662ull, 1ull, 3464149797771485323ull)
L(155, u64, 9223372036854775782ull, 1779971772250764398ull, 9223372036854775783ull)
L(159, u64, 5229178691882120667ull, 4611686018427387904ull, 9223372036854775808ull)
L(163, u64, 1ull, 1ull, 9223372036854775833ull)
L(167, u64, 8697934262676644322ull, 6148914691236517151ull, 12297829382473034303ull)
L(171, u64, 3719550785ull, 6917529027641081856ull, 13835058055282163712ull)
L(175, u64, 8ull, 1ull, 17984335063781666773ull)
L(179, u64, 9345195291717219214ull, 0ull, 18446744073709551613ull)
L(183, u64, 1ull, 0ull, 18446744073709551615ull)
L(187, i64, 1ll, 1ll, 2ll)
L(191, i64, 3ll, 4ll, 6ll)
L(195, i64, 2003215949ll, 1ll, 2147483647ll)
L(199, i64, 4ll, 2147483645ll, 4294967291ll)
L(203, i64, 3999590723492255536ll, 0ll, 4611686018427387903ll)
L(207, i64, 2147483647ll, 2305843009213693952ll, 4611686018427387905ll)
L(211, i64, 2479700525ll, 1057438561808012263ll, 6148914691236517199ll)
L(215, i64, 7077282239250697353ll, 1ll, 7077282239250697357ll)
L(219, i64, 1ll, 1ll, 9223372036854775783ll)
L(223, i64, 2ll, 225562282649942739ll, 9223372036854775806ll)
I(0, u16, 1, 1, 3)
I(4, u16, 16, 0, 251)
I(8, u16, 170, 1, 257)
I(12, u16, 10857, 0, 17021)
I(16, u16, 3715, 7180, 36373)
I(20, u16, 34093, 65520, 65521)
I(24, i16, 1, 6, 7)
I(28, i16, 225, 0, 251)
I(32, i16, 623, 0, 9209)
I(36, i16, 5707, 1, 15121)
I(40, i16, 16160, 0, 16381)
I(44, u32, 2u, 2u, 3u)
I(48, u32, 6u, 0u, 251u)
I(52, u32, 152u, 107u, 257u)
I(56, u32, 1006607878u, 1109333832u, 1109333833u)
I(60, u32, 886470067u, 2505257470u, 3215481799u)
I(64, u32, 2887545691u, 349766536u, 4294967291u)
I(68, i32, 2, 6, 7)
I(72, i32, 236, 0, 251)
I(76, i32, 42275098, 241502939, 611429977)
I(80, i32, 369108078, 805410442, 805410443)
I(84, i32, 939980244, 455858070, 1073741789)
I(88, u64, 1ull, 1ull, 3ull)
I(92, u64, 42ull, 74ull, 251ull)
I(96, u64, 59ull, 91ull, 257ull)
I(100, u64, 6232098072288854997ull, 4055428671435842159ull, 6433217762542030589ull)
I(104, u64, 4884680582123399196ull, 11899957295054519074ull, 18158935847677266833ull)
I(108, u64, 4425338580553714915ull, 4374594048332136903ull, 18446744073709551557ull)
I(112, i64, 6ll, 1ll, 7ll)
I(116, i64, 118ll, 0ll, 251ll)
I(120, i64, 67821054564990822ll, 2755890172734387112ll, 3094062512589870761ll)
I(124, i64, 1932232434891475584ll, 4438723119523388380ll, 4611686018427387847ll)
I(128, i64, 2503843686259037152ll, 1540414007373130206ll, 5360152387004623069ll)
#endif
