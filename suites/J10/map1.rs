// merged with merge_type_map: new types, and changes of built-in rules
foreign_typemap!(
    ($p:r_type) Money => jlong { $out = ($p.0 as i64) * 256 + 1; };
    ($p:r_type) Money <= jlong { $out = Money(($p >> 8) as i32); };
    ($p:f_type, option = "NoNullAnnotations") => "H.Money" "$out = new H.Money($p);";
    ($p:f_type, option = "NullAnnotations") => "@NonNull H.Money" "$out = new H.Money($p - 1);";
    ($p:f_type, option = "NoNullAnnotations") <= "H.Money" "$out = $p.raw + 7;";
    ($p:f_type, option = "NullAnnotations") <= "@NonNull H.Money" "$out = $p.raw + 9;";
);
// replaced by the second map
foreign_typemap!(
    ($p:r_type) Frost => jint { $out = -1 - $p.0; };
    ($p:r_type) Frost <= jint { $out = Frost(5 + $p); };
    ($p:f_type, unique_prefix = "/*frost*/") => "/*frost*/H.Cold" "$out = null; if ($p == 0) $out = null;";
    ($p:f_type, unique_prefix = "/*frost*/") <= "/*frost*/H.Cold" "$out = 3 - $p.raw;";
);
// built-in rules: unsigned bytes and dates
foreign_typemap!(
    ($p:r_type) u8 => jshort { $out = jshort::from($p) + 1000; };
    ($p:r_type) u8 <= jshort { $out = ($p ^ 0x55) as u8; };
);
foreign_typemap!(
    ($p:r_type) Over => jint { $out = $p.0.wrapping_mul(2).wrapping_add(3); };
    ($p:r_type) Over <= jint { $out = Over($p.wrapping_mul(4).wrapping_sub(3)); };
    ($p:f_type, unique_prefix = "/*over*/") => "/*over*/H.Cold" "$out = new H.Cold($p, 3);";
    ($p:f_type, unique_prefix = "/*over*/") <= "/*over*/H.Cold" "$out = $p.raw + $p.extra * 3;";
);
foreign_typemap!(
    ($p:r_type) OverIn => jint { $out = $p.0.wrapping_mul(2).wrapping_add(3); };
    ($p:r_type) OverIn <= jint { $out = OverIn($p.wrapping_mul(4).wrapping_sub(3)); };
    ($p:f_type, unique_prefix = "/*overin*/") => "/*overin*/H.Cold" "$out = new H.Cold($p, 3);";
    ($p:f_type, unique_prefix = "/*overin*/") <= "/*overin*/H.Cold" "$out = $p.raw + $p.extra * 3;";
);
foreign_typemap!(
    ($p:r_type) OverOut => jint { $out = $p.0.wrapping_mul(2).wrapping_add(3); };
    ($p:r_type) OverOut <= jint { $out = OverOut($p.wrapping_mul(4).wrapping_sub(3)); };
    ($p:f_type, unique_prefix = "/*overout*/") => "/*overout*/H.Cold" "$out = new H.Cold($p, 3);";
    ($p:f_type, unique_prefix = "/*overout*/") <= "/*overout*/H.Cold" "$out = $p.raw + $p.extra * 3;";
);
foreign_typemap!(
    ($p:r_type) OptBoth => jint { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptBoth <= jint { $out = OptBoth($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optboth*/") => "/*optboth*/H.Cold" "$out = new H.Cold($p, 5);";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optboth*/") => "/*optboth*/@NonNull H.Cold" "$out = new H.Cold($p, 105);";
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optboth*/") <= "/*optboth*/H.Cold" "$out = $p.raw + $p.extra * 5;";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optboth*/") <= "/*optboth*/@NonNull H.Cold" "$out = $p.raw + $p.extra * 105;";
);
foreign_typemap!(
    ($p:r_type) OptSet => jint { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptSet <= jint { $out = OptSet($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optset*/") => "/*optset*/H.Cold" "$out = new H.Cold($p, 5);";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optset*/") => "/*optset*/@NonNull H.Cold" "$out = new H.Cold($p, 105);";
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optset*/") <= "/*optset*/H.Cold" "$out = $p.raw + $p.extra * 5;";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optset*/") <= "/*optset*/@NonNull H.Cold" "$out = $p.raw + $p.extra * 105;";
);
foreign_typemap!(
    ($p:r_type) OptMap => jint { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptMap <= jint { $out = OptMap($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optmap*/") => "/*optmap*/H.Cold" "$out = new H.Cold($p, 5);";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optmap*/") => "/*optmap*/H.Cold" "$out = new H.Cold($p, 105);";
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optmap*/") <= "/*optmap*/H.Cold" "$out = $p.raw + $p.extra * 5;";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optmap*/") <= "/*optmap*/H.Cold" "$out = $p.raw + $p.extra * 105;";
);
foreign_typemap!(
    ($p:r_type) OptIface => jint { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptIface <= jint { $out = OptIface($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optiface*/") => "/*optiface*/H.Cold" "$out = new H.Cold($p, 5);";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optiface*/") => "/*optiface*/H.Cold" "$out = new H.Cold($p, 105);";
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*optiface*/") <= "/*optiface*/H.Cold" "$out = $p.raw + $p.extra * 5;";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*optiface*/") <= "/*optiface*/H.Cold" "$out = $p.raw + $p.extra * 105;";
);
foreign_typemap!(
    ($p:r_type) OptHalf => jint { $out = $p.0.wrapping_mul(2).wrapping_add(5); };
    ($p:r_type) OptHalf <= jint { $out = OptHalf($p.wrapping_mul(4).wrapping_sub(5)); };
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*opthalf*/") => "/*opthalf*/H.Cold" "$out = new H.Cold($p, 5);";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*opthalf*/") => "/*opthalf*/H.Cold" "$out = new H.Cold($p, 105);";
    ($p:f_type, option = "NoNullAnnotations", unique_prefix = "/*opthalf*/") <= "/*opthalf*/H.Cold" "$out = $p.raw + $p.extra * 5;";
    ($p:f_type, option = "NullAnnotations", unique_prefix = "/*opthalf*/") <= "/*opthalf*/H.Cold" "$out = $p.raw + $p.extra * 105;";
);
