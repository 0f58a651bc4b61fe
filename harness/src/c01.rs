use crate::{grammar, name_harness, sx};
use dbus_message_parser::value::{Error, Interface, Member};
use std::convert::TryFrom;

name_harness!(h_c01_interface, h_c01_interface_long, h_c01_interface_far, Interface, grammar::interface);
name_harness!(h_c01_error, h_c01_error_long, h_c01_error_far, Error, grammar::interface);
name_harness!(h_c01_member, h_c01_member_long, h_c01_member_far, Member, grammar::member);
