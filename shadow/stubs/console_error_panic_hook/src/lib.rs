pub fn set_once() {}
pub fn hook(_i: &std::panic::PanicHookInfo) {}
