foreign_typemap!(
    ($p:r_type) Frost => jint { $out = $p.0 ^ 0x70; };
    ($p:r_type) Frost <= jint { $out = Frost($p.wrapping_sub(2)); };
    ($p:f_type, unique_prefix = "/*frost*/") => "/*frost*/H.Cold" "$out = new H.Cold($p, 2);";
    ($p:f_type, unique_prefix = "/*frost*/") <= "/*frost*/H.Cold" "$out = $p.raw * 2 + $p.extra;";
);
// several Java statements, an alternative, through an optional
foreign_typemap!(
    ($p:r_type) Option<Money> => internal_aliases::JOptionalLong {
        let tmp: Option<i64> = $p.map(|x| (x.0 as i64) * 2);
        $out = to_java_util_optional_long(env, tmp);
    };
    ($p:f_type, unique_prefix = "/*maybe*/") => "/*maybe*/java.util.Optional<H.Money>"
        r#"
        $out;
        if ($p.isPresent()) {
            $out = java.util.Optional.of(new H.Money($p.getAsLong()));
        } else {
            $out = java.util.Optional.empty();
        }
"#;
);
// one direction only
foreign_typemap!(
    ($p:r_type) OnlyOut => jint { $out = $p.0.rotate_left(3) as jint; };
    ($p:f_type, unique_prefix = "/*out*/") => "/*out*/long" "$out = ($p & 0xffffffffL) << 1;";
);
foreign_typemap!(
    ($p:r_type) OnlyIn <= jlong { $out = OnlyIn(!($p as u64)); };
    ($p:f_type, unique_prefix = "/*in*/") <= "/*in*/String" "$out = $p.length() * 10L + 4;";
);
// a Rust type reached through another mapped type
foreign_typemap!(
    ($p:r_type) Chain => Money { $out = Money($p.0.wrapping_add(5)); };
);
foreign_typemap!(
    ($p:r_type) OptBoth => jint { $out = $p.0.wrapping_mul(2).wrapping_add(7); };
    ($p:r_type) OptBoth <= jint { $out = OptBoth($p.wrapping_mul(4).wrapping_sub(7)); };
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optboth*/") => "/*optboth*/H.Cold" "$out = new H.Cold($p, 7);";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optboth*/") => "/*optboth*/@NonNull H.Cold" "$out = new H.Cold($p, 107);";
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optboth*/") <= "/*optboth*/H.Cold" "$out = $p.raw + $p.extra * 7;";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optboth*/") <= "/*optboth*/@NonNull H.Cold" "$out = $p.raw + $p.extra * 107;";
);
foreign_typemap!(
    ($p:r_type) OptMap => jint { $out = $p.0.wrapping_mul(2).wrapping_add(9); };
    ($p:r_type) OptMap <= jint { $out = OptMap($p.wrapping_mul(4).wrapping_sub(9)); };
    ($p:f_type, unique_prefix = "/*optmap*/") => "/*optmap*/H.Cold" "$out = new H.Cold($p, 9);";
    ($p:f_type, unique_prefix = "/*optmap*/") <= "/*optmap*/H.Cold" "$out = $p.raw + $p.extra * 9;";
);
foreign_typemap!(
    ($p:r_type) OptHalf <= jint { $out = OptHalf($p.wrapping_mul(4).wrapping_sub(9)); };
    ($p:f_type, unique_prefix = "/*opthalf*/") <= "/*opthalf*/H.Cold" "$out = $p.raw + $p.extra * 9;";
);
