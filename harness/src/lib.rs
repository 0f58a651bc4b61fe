//! Harnesses: each `h_*` function is one entry point for symbolic execution and for native replay.
pub mod sx;
#[cfg(feature = "native")]
pub mod native;
pub mod build;
pub mod grammar;
pub mod msg;
pub mod names;
pub mod nest;
#[cfg(feature = "c12")]
pub mod parts;
#[cfg(feature = "c12")]
pub mod rules;
pub mod wire;


macro_rules! harnesses {
    ($($feature:literal $module:ident { $($name:ident),* $(,)? })*) => {
        $(#[cfg(feature = $feature)] pub mod $module;)*
        $($(
            #[cfg(feature = $feature)]
            #[no_mangle]
            pub extern "C-unwind" fn $name() { $module::$name() }
        )*)*
        pub fn lookup(name: &str) -> Option<fn()> {
            $($(
                #[cfg(feature = $feature)]
                if name == stringify!($name) { return Some($module::$name); }
            )*)*
            let _ = name;
            None
        }
    };
}

harnesses! {
    "c01" c01 { h_c01_interface, h_c01_error, h_c01_member, h_c01_interface_long, h_c01_interface_far, h_c01_error_long, h_c01_error_far, h_c01_member_long, h_c01_member_far }
    "c02" c02 { h_c02_well_known, h_c02_unique, h_c02_bus, h_c02_well_known_long, h_c02_well_known_far, h_c02_unique_long, h_c02_unique_far, h_c02_bus_long, h_c02_bus_far, h_c02_class }
    "c03" c03 { h_c03_path, h_c03_path_long, h_c03_path_far, h_c03_default }
    "c04" c04 { h_c04_append, h_c04_prefix, h_c04_long, h_c04_many }
    "c05" c05 { h_c05_all, h_c05_shape, h_c05_str, h_c05_put, h_c05_text, h_c05_deep, h_c05_weave, h_c05_long }
    "c06" c06 { h_c06_bytes, h_c06_window, h_c06_cut, h_c06_tmpl, h_c06_rule }
    "c07" c07 { h_c07_body, h_c07_tmpl, h_c07_window, h_c07_header, h_c07_stream }
    "c09" c09 { h_c09_body, h_c09_tmpl, h_c09_sig, h_c09_window, h_c09_two }
    "c10" c10 { h_c10_body, h_c10_sig, h_c10_tmpl, h_c10_value }
    "c13" c13 { h_c13_declared, h_c13_array, h_c13_fields, h_c13_limit, h_c13_limit_fields, h_c13_seed }
    "c14" c14 { h_c14_variants, h_c14_types, h_c14_weave, h_c14_mixed, h_c14_keys, h_c14_array_type, h_c14_length }
    "c08" c08 { h_c08_header, h_c08_body, h_c08_types, h_c08_long }
    "c11" c11 { h_c11_body, h_c11_types, h_c11_header, h_c11_long }
    "c15" c15 { h_c15_decode, h_c15_declared, h_c15_encode, h_c15_many, h_c15_twice }
    "c17" c17 { h_c17_text, h_c17_words }
    "c16" c16 { h_c16_rules, h_c16_args, h_c16_index, h_c16_text }
    "c18" c18 { h_c18_rule, h_c18_args, h_c18_list, h_c18_many, h_c18_far }
    "c19" c19 { h_c19_reply, h_c19_long }
    "c20" c20 { h_c20_make, h_c20_split, h_c20_long, h_c20_many }
    "c21" c21 { h_c21_array, h_c21_struct, h_c21_type, h_c21_deep, h_c21_odd, h_c21_tmpl, h_c21_sig }
    "c22" c22 { h_c22_text, h_c22_pair, h_c22_long }
    "c23" c23 { h_c23_bytes, h_c23_body, h_c23_tmpl, h_c23_window, h_c23_cut }
    "c24" c24 { h_c24_name, h_c24_name_far, h_c24_type, h_c24_type_shape, h_c24_type_deep, h_c24_type_long, h_c24_first, h_c24_boolean, h_c24_zero, h_c24_header_zero, h_c24_array, h_c24_array_end, h_c24_length, h_c24_unsigned, h_c24_fd, h_c24_variants, h_c24_text, h_c24_field_name, h_c24_field_type, h_c24_field_twice, h_c24_field_code, h_c24_missing, h_c24_rule_value, h_c24_rule_key, h_c24_rule_wide, h_c24_field_shape, h_c24_rule_index, h_c24_arg, h_c24_mismatch, h_c24_encode, h_c24_encode_long, h_c24_empty }
    "c25" c25 { h_c25_bytes, h_c25_window, h_c25_number, h_c25_tmpl, h_c25_declared, h_c25_rule, h_c25_long, h_c25_many, h_c25_rule_long }
    "c26" c26 { h_c26_one, h_c26_text, h_c26_long, h_c26_list, h_c26_all, h_c26_form }
    "c27" c27 { h_c27_header, h_c27_body, h_c27_double, h_c27_type, h_c27_basic, h_c27_rule, h_c27_hash }
    "c28" c28 { h_c28_text, h_c28_path, h_c28_match, h_c28_values, h_c28_deep }
    "c29" c29 { h_c29_window, h_c29_tmpl, h_c29_encode, h_c29_text, h_c29_path, h_c29_match, h_c29_make, h_c29_failed }
    "c12" c12 { h_c12_fields, h_c12_name, h_c12_window, h_c12_new }
}
