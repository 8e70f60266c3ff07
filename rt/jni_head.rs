#[path = "jni_c_header.rs"]
mod jni_c_header;
use jni_c_header::*;
mod log {
    macro_rules! vp_log { ($($t:tt)*) => { { let _ = format_args!($($t)*); } } }
    pub(crate) use vp_log as error;
    pub(crate) use vp_log as warn;
    pub(crate) use vp_log as info;
    pub(crate) use vp_log as debug;
    pub(crate) use vp_log as trace;
}
