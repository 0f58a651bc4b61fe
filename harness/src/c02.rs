use crate::{grammar, name_harness, sx};
use dbus_message_parser::value::{Bus, UniqueConnectionName, WellKnownBusName};
use std::convert::TryFrom;

name_harness!(h_c02_well_known, h_c02_well_known_long, h_c02_well_known_far, WellKnownBusName, grammar::well_known);
name_harness!(h_c02_unique, h_c02_unique_long, h_c02_unique_far, UniqueConnectionName, grammar::unique);
name_harness!(h_c02_bus, h_c02_bus_long, h_c02_bus_far, Bus, grammar::bus);

fn class(b: &Bus) -> (bool, &str) {
    match b {
        Bus::UniqueConnectionName(u) => (true, u.as_ref()),
        Bus::WellKnownBusName(w) => (false, w.as_ref()),
    }
}

/// Classification of a generic bus name, for every conversion.  param 0: length.
pub fn h_c02_class() {
    let n = sx::param(0);
    let s = sx::vec(n);
    sx::ascii(&s);
    let text = unsafe { std::str::from_utf8_unchecked(&s) };
    let colon = n > 0 && s[0] == b':';
    let got = [
        Bus::try_from(&s[..]),
        Bus::try_from(text),
        Bus::try_from(String::from(text)),
    ];
    for (i, g) in got.iter().enumerate() {
        match g {
            Ok(b) => {
                let (u, t) = class(b);
                sx::check(u == colon, 10 + i as u32);
                sx::check(t == text, 20 + i as u32);
                sx::check(*b == *text, 30 + i as u32);
                sx::check(b.as_ref() as &str == text, 40 + i as u32);
                sx::reach(if colon { 1 } else { 2 });
            }
            Err(_) => sx::reach(3),
        }
    }
}
