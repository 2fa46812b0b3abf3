// The parsers themselves; included by corpus.rs.
corpus! {
    // --- plain lists and numbers
    sync ints "n" ["1,-2,+3", "11417,0,0,334", "", "7", "1,2,x", "99999999999", "1,,2", "-", "2147483647,-2147483648"] => {
        parser!(repeat_sep(i32, ","))
    }
    sync points "nlm" ["(1,2)\n(3,-4)\n", "(1,2)", "(0,0)\n(5,5)\n(6,6)\n(7,7)\n", "(1,2)\n(3;4)\n", "(1,2\n", ""] => {
        parser!(lines("(" x:i64 "," y:i64 ")" => mk(1, (x, y))))
    }
    sync mixed "nm" ["-5 ff 101 2.5 true\n", "0 DEADBEEF 1 -inf false\n", "1 g 1 1 true\n", "1 a 2 1 true\n", "1 a 1 1e3 truth\n"] => {
        parser!(line(i:i32 " " h:u64_hex " " b:u8_bin " " f:f64 " " t:bool => mk(2, (i, h, b, f, t))))
    }
    sync small "n" ["255 -128", "256 0", "0 127", "12 128", "-1 1", "7 -"] => {
        parser!(a:u8 " " b:i8 => (a, b))
    }
    sync bigs "nm" ["123456789012345678901234567890", "-5,+7", "1,2,3", "x", "-99999999999999999999999,1"] => {
        parser!(a:repeat_sep(big_int, ",") => mk(3, a))
    }
    sync nested_lists "n" ["1 2 3;4 5;6", "1;2;3", "", "1 2;", ";", "10 20;30 x"] => {
        parser!(repeat_sep(repeat_sep(u64, " "), ";"))
    }
    sync one_of_numbers "nm" ["12", "1.5", "true", "ff", "-3", "zz", "1e5"] => {
        parser!({ a:u32 => mk(4, a), b:bool => mk(5, b), c:f64 => mk(6, c), d:u32_hex => mk(7, d), e:i32 => mk(8, e) })
    }
    sync arrow "nm" ["10-20,30-40\n", "1-1,2-2\n3-3,4-4\n", "5-6,7\n", "1-2,3-4"] => {
        parser!(lines(a:u64 "-" b:u64 "," c:u64 "-" d:u64 => mk(9, ((a, b), (c, d)))))
    }
    // --- characters, alternatives, repeats
    sync grid "l" [".#.\n#.#\n", "...\n", "#\n#\n#\n#", ".#x\n", ".#\n\n"] => {
        parser!(lines(char_of(".#")+))
    }
    sync words "m" ["ab cd", "x", "abc def ghi", "ab  cd", "ab c1"] => {
        parser!(repeat_sep(w:string(lower+) => mk(10, w), " "))
    }
    sync choice "m" ["a1bc", "1", "xyz", "a", "12345678901", "a1!", "q"] => {
        parser!({ "a" => mk(11, ()), x:u8 => mk(12, x), s:string(lower+) => mk(13, s) }+)
    }
    sync pairs "am" ["a1b2c3", "abc", "a1", "1", "ab1!", "a1b2c3d4e5"] => {
        parser!((a:alpha d:digit? => mk(14, (a, d)))*)
    }
    sync greedy "am" ["aaab", "ab", "aab", "b", "aaaa", "aabb"] => {
        parser!(a:lower+ b:lower+ "b" c:lower? => mk(15, (a, b, c)))
    }
    sync backoff "am" ["aaaa", "aaa", "a", "", "aaaaaa", "aaaaab"] => {
        parser!(a:(x:alpha* => mk(16, x)) b:(x:alpha* => mk(17, x)) "a" c:(x:alpha* => mk(18, x)) => (a, b, c))
    }
    sync ambiguous "am" ["abab", "aba", "ab", "a", "abba", "ababab", "abx"] => {
        parser!({ "ab" => mk(19, ()), x:lower => mk(20, x), x:lower y:lower => mk(21, (x, y)) }+)
    }
    sync optional "m" ["-5+", "5", "-5", "5+", "+", "-", "x5"] => {
        parser!(a:"-"? b:digit c:"+"? => mk(22, (a, b, c)))
    }
    sync classes "" ["aZ9f1_", "bY7e0!", "aZ9f2_", "AZ9f1_", "aZ9g1_"] => {
        parser!(a:lower b:upper c:digit d:digit_hex e:digit_bin f:any_char => (a, b, c, d, e, f))
    }
    sync unicode "m" ["\u{e9}\u{4e2d}\u{1f600}|a", "x|y", "|", "\u{e9}|\u{e9}\u{e9}", "\u{4e2d}"] => {
        parser!(a:((c:any_char => mk(23, c))*) "|" b:string(any_char*) => mk(24, (a, b)))
    }
    sync nested_rep "am" ["12,3;4", "1", "", "1;2;3", "12,,3", "1,2,3,4,5,6"] => {
        parser!((x:((d:digit+ ","? => mk(25, d))+) ";"? => mk(26, x))*)
    }
    sync stars "am" ["123", "", "12", "1a"] => {
        parser!((d:digit* => mk(27, d))*)
    }
    sync under_string "am" ["a1b2", "a", "a1b", "1", "abc"] => {
        parser!(s:string((a:alpha => mk(28, a)) ((d:digit => mk(29, d))?)) t:string(rest:any_char* => mk(30, rest)) => mk(31, (s, t)))
    }
    sync sep_conv "am" ["a;b;c", "a", "a;b", "a,b", "a;;b"] => {
        parser!(repeat_sep(x:lower => mk(32, x), { s:";" => mk(33, s), s:",;" => mk(33, s) }))
    }
    // --- lines and sections
    sync secs "nl" ["1\n2\n\n3\n", "1\n", "1\n\n2\n\n3\n\n", "1\n\n\n2\n", "1\n2x\n\n3\n", ""] => {
        parser!(sections(lines(u64)))
    }
    sync two_secs "nlm" ["abc\nde\n\n1,2\n3,4\n", "a\n\n1,2\n", "a\n\n", "a\n1,2\n", "\n\n1,2\n"] => {
        parser!(a:section(lines(s:string(lower+) => mk(34, s))) b:section(lines(x:u32 "," y:u32 => mk(35, (x, y)))) => mk(36, (a, b)))
    }
    sync line_alt "lam" ["ab\ncd\n", "ab\n12\n", "12", "ab\n\n", "a1\n", "1\n2\n3\n"] => {
        parser!({ a:line(lower+) => mk(37, a), d:line(digit+) => mk(38, d) }*)
    }
    sync line_mid "l" ["x\nab\n!", "x\n\n!", "xab\n!", "x\nab!"] => {
        parser!("x" "\n" s:line(string(lower*)) "!" => s)
    }
    sync sec_in_sec "nlm" ["a 1\nb 2\n\nc 3\n", "a 1\n", "a 1\n\nb\n", "a  1\n"] => {
        parser!(s:sections(l:lines(k:lower " " v:u8 => mk(39, (k, v))) => mk(40, l)) => mk(41, s))
    }
    // --- collections
    sync hset "cnm" ["1 2 3 2 1", "5", "", "9 9 9 9", "1 2 x"] => {
        parser!(s:hash_set(repeat_sep(x:u32 => Key(x, mk(42, x)), " ")) => sorted_set(s))
    }
    sync hmap "clnm" ["a=1\nb=2\n", "a=1\na=2\n", "a=\n", "x=9\ny=8\nz=7\nx=6\n"] => {
        parser!(s:hash_map(lines(k:string(lower+) "=" v:u32 => (k, mk(43, v)))) => sorted_map(s))
    }
    sync ordset "cnm" ["3 1 2 3 1", "5", "", "9 8 7 6 5", "1 2 x"] => {
        parser!(s:btree_set(repeat_sep(x:u32 => Key(x, mk(44, x)), " ")) => bset(s))
    }
    sync ordmap "cm" ["b1a2", "a1a2a3", "a", "", "z9y8x7"] => {
        parser!(s:btree_map((k:lower v:digit => (Key(k as u32, mk(45, k)), mk(46, v)))*) => s.into_iter().collect::<Vec<_>>())
    }
    // elements that are all different, so that none may go missing
    sync uset "nm" ["1 2 3 2 1", "5", "", "9 9 9 9", "1 2 x"] => {
        parser!(s:hash_set(repeat_sep(x:u32 => Uniq(mk(98, x)), " ")) => in_order(s))
    }
    sync umap "lnm" ["a=1\nb=2\n", "a=1\na=2\n", "a=\n", "x=9\ny=8\nz=7\nx=6\n"] => {
        parser!(s:hash_map(lines(k:string(lower+) "=" v:u32 => (Uniq(mk(99, k)), mk(100, v)))) => in_order(s))
    }
    sync ubset "nm" ["3 1 2 3 1", "5", "", "9 8 7 6 5", "1 2 x"] => {
        parser!(s:btree_set(repeat_sep(x:u32 => Uniq(mk(101, x)), " ")) => in_order(s))
    }
    sync ubmap "m" ["b1a2", "a1a2a3", "a", "", "z9y8x7"] => {
        parser!(s:btree_map((k:lower v:digit => (Uniq(mk(102, k)), mk(103, v)))*) => in_order(s))
    }
    // out of what the user's own collection yields
    sync bagged "nm" ["3 1 2 3 1", "5", "", "9 8 7 6 5 4 3 2 1", "1 2 x"] => {
        parser!(s:btree_set(v:repeat_sep(x:u32 => Uniq(mk(104, x)), " ") => Bag(v, 105)) => in_order(s))
    }
    sync bag_map "nlm" ["a=1\nb=2\n", "a=1\na=2\n", "a=\n", "x=9\ny=8\nz=7\nx=6\n"] => {
        parser!(s:hash_map(v:lines(k:string(lower+) "=" v:u32 => (Uniq(mk(106, k)), mk(107, v))) => Bag(v, 108)) => in_order(s))
    }
    sync bag_deque "am" ["abc", "", "a", "ab1", "abcdefghijklmnopqrstuvwxyz"] => {
        parser!(s:vec_deque(v:((k:lower => mk(109, k))*) => Bag(v, 110)) => s.into_iter().collect::<Vec<_>>())
    }
    sync deque "m" ["abc", "", "a", "ab1"] => {
        parser!(s:vec_deque((k:lower => mk(47, k))*) => s.into_iter().collect::<Vec<_>>())
    }
    // --- user-written parsers
    sync probes "pam" ["abc,de,f", "abcd", "a", "", "abc,", "abcdef,xyz"] => {
        { let q = Probe(48); parser!(repeat_sep(a:q b:q? => mk(49, (a, b)), ",")) }
    }
    sync probe_pair "pam" ["abcd", "ab", "abcde", "abcdefg", "a", "ab1"] => {
        { let (q, r) = (Probe(50), Probe(51)); parser!(a:q b:r c:lower => mk(52, (a, b, c))) }
    }
    sync probe_lines "plm" ["abc d\nxyz w\n", "a b\n", "abcd e\n", "abc\n", "abc d\n\n"] => {
        { let q = Probe(53); parser!(lines(a:q " " b:q => mk(54, (a, b)))) }
    }
    sync via_number "pnm" ["1;22;333", "1", "", "1;x", "4294967296"] => {
        { let v = Via(55, parser!(u32)); parser!(repeat_sep(a:v => mk(56, a), ";")) }
    }
    sync via_section "plm" ["ab\ncd\n\nef\n", "ab\n", "ab1\n", ""] => {
        { let v = Via(57, parser!(sections(lines(string(lower+))))); parser!(a:v => mk(58, a)) }
    }
    sync via_back "pam" ["aaab", "ab", "b", "aaaa", "aaabb"] => {
        { let v = Via(59, parser!((x:lower => mk(60, x))*)); parser!(a:v "b" => mk(61, a)) }
    }
    // --- rule sets
    local list_rules "rnm" ["[1,[2,3],[]]", "5", "[]", "[[[[1]]]]", "[1,2", "[1,,2]", "[1,[2,[3,[4,5]]],6]"] => {
        parser!(
            rule val: Out = { n:u32 => mk(62, n), "[" v:vals "]" => mk(63, v) };
            rule vals: Vec<Out> = repeat_sep(val, ",");
            val
        )
    }
    local arith "rnm" ["1+2*3", "(1+2)*3", "7", "((7))", "1+", "1+2*", "2*(3+4)*5+1"] => {
        parser!(
            rule expr: Out = { a:term "+" b:expr => mk(64, (a, b)), a:term => a };
            rule term: Out = { a:atom "*" b:term => mk(65, (a, b)), a:atom => a };
            rule atom: Out = { n:u32 => mk(66, n), "(" e:expr ")" => e };
            expr
        )
    }
    local palin "ram" ["abcba", "aa", "aba", "", "abab", "abba", "aabbaa"] => {
        parser!(
            rule p: Out = { "a" x:p "a" => mk(67, x), "b" x:p "b" => mk(68, x), c:lower => mk(69, c), "" => mk(70, ()) };
            p
        )
    }
    local two_sets "rm" ["(())|[[]]", "()|[]", "|", "(())|[]", "([])|()", "()|[[]"] => {
        {
            let round = parser!(rule r: Out = { "(" x:r ")" => mk(71, x), "" => mk(72, ()) }; r);
            let square = parser!(rule s: Out = { "[" x:s "]" => mk(73, x), "" => mk(74, ()) }; s);
            parser!(a:round "|" b:square => mk(75, (a, b)))
        }
    }
    local set_in_set "rnm" ["{1;(2)}", "{(1);((2));3}", "{}", "{1", "{(1;2}", "{{1;2};3}"] => {
        {
            let inner = parser!(rule i: Out = { n:u8 => mk(76, n), "(" x:i ")" => mk(77, x) }; i);
            parser!(
                rule outer: Out = { a:inner => mk(78, a), "{" v:many "}" => mk(79, v) };
                rule many: Vec<Out> = repeat_sep(outer, ";");
                outer
            )
        }
    }
    local rules_in_lines "rlm" ["(())\n()\n", "()\n", "(()\n", "()()\n", "((()))"] => {
        parser!(
            rule l: Vec<Out> = lines(r);
            rule r: Out = { "(" x:r ")" => mk(80, x), "" => mk(81, ()) };
            l
        )
    }
    local lines_in_rules "rlm" ["a\nb\n", "a\n", "", "a\n1\n", "x\ny\nz\n"] => {
        parser!(
            rule chain: Out = { h:line(one_line) t:chain => mk(82, (h, t)), "" => mk(83, ()) };
            rule one_line: Out = x:lower => mk(84, x);
            chain
        )
    }
    local rules_probe "rpam" ["abc", "abcdef", "a", "ab,cd", ","] => {
        {
            let q = Probe(85);
            parser!(
                rule s: Out = { a:q r:s => mk(86, (a, r)), "," r:s => mk(87, r), "" => mk(88, ()) };
                s
            )
        }
    }
    local sets_in_rep "rm" ["()[]()", "", "()", "[[]](())", "(]"] => {
        {
            let round = parser!(rule r: Out = { "(" x:r ")" => mk(89, x), "o" => mk(90, ()), "()" => mk(91, ()) }; r);
            let square = parser!(rule s: Out = { "[" x:s "]" => mk(92, x), "[]" => mk(93, ()) }; s);
            parser!({ a:round => a, b:square => b }*)
        }
    }
    local even_odd "rm" ["aaaa", "aaa", "", "aab", "aaaaaaaa"] => {
        parser!(
            rule even: Out = { "a" x:odd => mk(94, x), "" => mk(95, ()) };
            rule odd: Out = "a" x:even => mk(96, x);
            { e:even => mk(97, e), o:odd => mk(98, o) }
        )
    }
    // (the outer one is built after one older than the inner one is gone)
    local one_dropped "rm" ["(()[])", "([]([[]]()))", "", "()", "([](())", "([]]())"] => {
        {
            let old = parser!(rule o: u32 = { "<" x:o ">" => x + 1, "" => 0 }; o);
            let square = parser!(rule s: Out = { "[" x:s "]" => mk(110, x), "" => mk(111, ()) }; s);
            assert_eq!(old.parse("<<>>").ok(), Some(2));
            drop(old);
            parser!(rule r: Vec<Out> = { "(" a:square x:r ")" => vec![mk(112, (a, x))], "" => vec![mk(113, ())] }; r)
        }
    }
    // (copies of rules, and of patterns with rules in them)
    local rules_copied "rnm" ["[1,[2;-3];-4,5]", "[;]", "[1;2]", "[[-1;-2];3]", "[1,2;3", "[1-;2]"] => {
        parser!(
            rule left: Out = { n:u8 => mk(119, n), a:both => a };
            rule both: Out = "[" a:copied(repeat_sep(left, ",")) ";" b:repeat_sep(copied(right), copied(",")) "]" => mk(120, (a, b));
            rule right: Out = { a:copied(n:i8 => mk(121, n)) => a, a:copied(both) => a };
            copied(left)
        )
    }
    // (the others are built while the first is, and one is given up)
    local built_inside "rnm" ["1;(2);", "(1);((2));3", "<1;(2)>", "<<>>", "", "(1;2", "1;;<2;(3>"] => {
        parser!(
            rule outer: Out = { a:(digits_in_parens()) => mk(116, a), "<" v:many ">" => mk(117, v) };
            rule many: Vec<Out> = repeat_sep(outer, semicolon_after_abandoned());
            many
        )
    }
    // --- every number parser on its own
    sync n_u8 "N" ["0", "255", "256", "x", "-1"] => { parser!(a:u8 => a) }
    sync n_u16 "N" ["0", "65535", "65536", ""] => { parser!(a:u16 => a) }
    sync n_u32 "N" ["7", "4294967295", "4294967296"] => { parser!(a:u32 => a) }
    sync n_u64 "N" ["7", "18446744073709551615", "18446744073709551616"] => { parser!(a:u64 => a) }
    sync n_u128 "N" ["7", "340282366920938463463374607431768211455", "a"] => { parser!(a:u128 => a) }
    sync n_usize "N" ["7", "00", "+1"] => { parser!(a:usize => a) }
    sync n_i8 "N" ["-128", "127", "128", "+5"] => { parser!(a:i8 => a) }
    sync n_i16 "N" ["-5", "40000"] => { parser!(a:i16 => a) }
    sync n_i32 "N" ["-5", "+2147483647", "2147483648"] => { parser!(a:i32 => a) }
    sync n_i64 "N" ["-5", "9223372036854775808"] => { parser!(a:i64 => a) }
    sync n_i128 "N" ["-5", "--5"] => { parser!(a:i128 => a) }
    sync n_isize "N" ["-5", "5-"] => { parser!(a:isize => a) }
    sync n_u8_bin "N" ["11111111", "100000000", "2"] => { parser!(a:u8_bin => a) }
    sync n_u64_bin "N" ["101", "12"] => { parser!(a:u64_bin => a) }
    sync n_i32_bin "N" ["-101", "+1", "b"] => { parser!(a:i32_bin => a) }
    sync n_u16_hex "N" ["FFff", "10000", "g"] => { parser!(a:u16_hex => a) }
    sync n_usize_hex "N" ["cafe", ""] => { parser!(a:usize_hex => a) }
    sync n_i64_hex "N" ["-7f", "+7F", "x"] => { parser!(a:i64_hex => a) }
    sync n_i8_hex "N" ["-80", "80"] => { parser!(a:i8_hex => a) }
    sync n_big_uint "N" ["123456789012345678901234567890", "-1"] => { parser!(a:big_uint => a) }
    sync n_big_int "N" ["-123456789012345678901234567890", "+5"] => { parser!(a:big_int => a) }
    sync n_big_uint_hex "N" ["ffffffffffffffffffffffff", "-f"] => { parser!(a:big_uint_hex => a) }
    sync n_big_int_hex "N" ["-ffffffffffffffffffffffff", "z"] => { parser!(a:big_int_hex => a) }
    sync n_big_uint_bin "N" ["1111000011110000", "3"] => { parser!(a:big_uint_bin => a) }
    sync n_big_int_bin "N" ["-1111000011110000", "-"] => { parser!(a:big_int_bin => a) }
    sync n_f32 "N" ["1.5", "-inf", "nan", "1e", "."] => { parser!(a:f32 => a) }
    sync n_f64 "N" ["1.5e300", "INFINITY", ".5", "5.", "e5"] => { parser!(a:f64 => a) }
    sync n_bool "N" ["true", "false", "True", "tru"] => { parser!(a:bool => a) }
}
