//! Shared harnesses for the textual names.
#[macro_export]
macro_rules! name_harness {
    ($fn:ident, $long:ident, $far:ident, $ty:ident, $oracle:expr) => {
        /// All byte strings of length param 0; conversions from &[u8], &str and String.
        pub fn $fn() {
            let n = sx::param(0);
            let s = sx::vec(n);
            let want = $oracle(&s);
            let got = $ty::try_from(&s[..]);
            sx::observe(got.is_ok() as u64);
            sx::check(got.is_ok() == want, 1);
            if want {
                sx::reach(1);
            } else {
                sx::reach(2);
            }
            if let Ok(text) = std::str::from_utf8(&s) {
                sx::check($ty::try_from(text).is_ok() == want, 2);
                sx::check($ty::try_from(String::from(text)).is_ok() == want, 3);
            } else {
                sx::check(!want, 4);
            }
            if let Ok(v) = got {
                sx::check(v.as_ref() as &str == unsafe { std::str::from_utf8_unchecked(&s) }, 5);
            }
        }
        /// For merged exploration of long strings: param 1 selects the conversion; text
        /// conversions are given ASCII strings.
        pub fn $long() {
            let n = sx::param(0);
            let s = sx::vec(n);
            let conv = sx::param(1);
            if conv != 0 {
                sx::ascii(&s);
            }
            let got = match conv {
                0 => $ty::try_from(&s[..]).is_ok(),
                1 => $ty::try_from(unsafe { std::str::from_utf8_unchecked(&s) }).is_ok(),
                _ => $ty::try_from(unsafe { String::from_utf8_unchecked(s.clone()) }).is_ok(),
            };
            let want = $oracle(&s);
            sx::check(got == want, 1);
            sx::reach(if want { 1 } else { 2 });
        }
        /// A beginning followed by a repeated unit, up to a length far beyond the limit, with one
        /// symbolic byte.  params: length, conversion, beginning, unit.
        pub fn $far() {
            let n = sx::param(0);
            let conv = sx::param(1);
            let mut s = sx::param_bytes(2);
            let unit = sx::param_bytes(3);
            s.truncate(n);
            while s.len() + unit.len() <= n {
                s.extend_from_slice(&unit);
            }
            s.resize(n, b'k');
            let i = [0, 1, n / 2, n - 2, n - 1][sx::pick(5)];
            s[i] = sx::u8();
            if conv != 0 {
                sx::assume(s[i] < 128);
            }
            let got = match conv {
                0 => $ty::try_from(&s[..]),
                1 => $ty::try_from(unsafe { std::str::from_utf8_unchecked(&s) }),
                _ => $ty::try_from(unsafe { String::from_utf8_unchecked(s.clone()) }),
            };
            let want = $oracle(&s);
            sx::check(got.is_ok() == want, 1);
            sx::reach(if want { 1 } else { 2 });
            if let Ok(v) = got {
                sx::check((v.as_ref() as &str).as_bytes() == &s[..], 5);
            }
        }
    };
}
