F+=[("C02","","fma","b69b9b9a746afd317ef071f7f47ff216e98a9708","fma and fmaf128 dropped the sticky bit when the addend is between one and two significands above the product, so a result just off a tie was rounded as a tie")]

F+=[("C28","","parse_any","e6d5ed2","hex float parsing overflowed (panic with overflow checks, misparse without) on decimal exponents near or beyond the limits of i32, e.g. 0x1p4294967299"),
("C28","","parse_any","61a2a24","hex float parsing wrapped huge exponents into range for formats with many significand bits: 0x1p65536 parsed as a small f128")]
F+=[("C29","","i256","5a9a15582332fbe5ce25a85819342f7e6b3a53a6","i256::MAX was negative (-1) and i256::SIGNED was false"),
("C29","","u256","044b514c0e7c2943c74435958385492566e99048","u256 and i256 compared their low limb before the high one, and i256 ignored the sign")]
K=[{"property":"C30","op":"linear_ints","text":"two points more than i32::MAX apart","what":"linear_ints panics when asked for two points of a range longer than i32::MAX, e.g. linear_ints(i32::MIN..=i32::MAX, 2); the repair is one line in crates/libm-test/src/num.rs, a file of the test library, which commits may not change"},
{"property":"C34","op":"spaced","text":"integer argument with two points over the whole i32 range","what":"the same panic of linear_ints, reached through spaced inputs for scalbn and ldexp with two inputs per argument"}]
F+=[("C33","","parse","1a80b37f520722b19665a1aca708ea6943b971f7","util eval panicked on negative hexadecimal integers such as jn -0x2 1.0, which its own prefix test accepts")]
K+=[{"status":"known","property":"C35","op":"ceil","config":"i586","observed":"0x0000000000000000","lo":"0x8000000000000000","hi":"0xbfefffffffffffff","what":"on x86 without SSE2 ceil loses the sign of a zero result (arguments in (-1, -0] give +0); the test library expects this failure on that target (crates/libm-test/src/precision.rs, which commits may not change), so a repair would break its tests there"},
{"status":"known","property":"C35","op":"floor","config":"i586","observed":"0x0000000000000000","lo":"0x8000000000000000","hi":"0x8000000000000000","what":"on x86 without SSE2 floor(-0) gives +0; same cause and same reason as for ceil"}]
