use crate::{grammar, name_harness, sx};
use dbus_message_parser::value::ObjectPath;
use std::convert::TryFrom;

name_harness!(h_c03_path, h_c03_path_long, h_c03_path_far, ObjectPath, grammar::object_path);

pub fn h_c03_default() {
    let d = ObjectPath::default();
    sx::check(d.as_ref() as &str == "/", 1);
    sx::check(grammar::object_path((d.as_ref() as &str).as_bytes()), 2);
    sx::check(ObjectPath::try_from("/") == Ok(d), 3);
    sx::reach(1);
}
