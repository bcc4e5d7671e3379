//! The entry points of the symbolic engine, and their table for the replay program.

macro_rules! entries {
    ($($name:ident = $path:path),* $(,)?) => {
        $(#[no_mangle] pub extern "C" fn $name() { $path() })*
        #[allow(dead_code)]
        pub static TABLE: &[(&str, fn())] = &[$((stringify!($name), $path)),*];
    };
}

entries! {
    h_step_m = crate::step::step_m,
    h_step_s = crate::step::step_s,
    h_decode = crate::step::decode,
    h_entry_m = crate::exc::entry_m,
    h_entry_s = crate::exc::entry_s,
    h_entry_fault_m = crate::exc::entry_fault_m,
    h_entry_fault_s = crate::exc::entry_fault_s,
    h_entry_odd_m = crate::exc::entry_odd_m,
    h_entry_odd_s = crate::exc::entry_odd_s,
    h_pending2_m = crate::exc::pending2_m,
    h_pending2_s = crate::exc::pending2_s,
    h_pending3_m = crate::exc::pending3_m,
    h_pending3_s = crate::exc::pending3_s,
    h_pending_many_m = crate::exc::pending_many_m,
    h_pending_many_s = crate::exc::pending_many_s,
    h_exc_time_m = crate::exc::time_m,
    h_exc_time_s = crate::exc::time_s,
    h_rte_m = crate::exc::rte_m,
    h_rte_s = crate::exc::rte_s,
    h_stopped_m = crate::exc::stopped_m,
    h_stopped_s = crate::exc::stopped_s,
    h_stop_pending_m = crate::exc::stop_pending_m,
    h_stop_pending_s = crate::exc::stop_pending_s,
    h_both_m = crate::misc::both_m,
    h_both_s = crate::misc::both_s,
    h_pend_m = crate::misc::pend_m,
    h_pend_s = crate::misc::pend_s,
    h_taken_m = crate::misc::taken_m,
    h_taken_s = crate::misc::taken_s,
    h_nopanic_m = crate::misc::nopanic_m,
    h_nopanic_s = crate::misc::nopanic_s,
    h_nopanic_exc_m = crate::misc::nopanic_exc_m,
    h_nopanic_exc_s = crate::misc::nopanic_exc_s,
    h_user_m = crate::misc::user_m,
    h_user_s = crate::misc::user_s,
    h_history_m = crate::misc::history_m,
    h_history_s = crate::misc::history_s,
    h_fetch_taken_m = crate::misc::fetch_taken_m,
    h_fetch_taken_s = crate::misc::fetch_taken_s,
    h_fetch_m = crate::misc::fetch_m,
    h_fetch_s = crate::misc::fetch_s,
    h_sr = crate::misc::sr,
    h_registers = crate::misc::registers,
    h_words = crate::misc::words,
    h_fresh = crate::misc::fresh,
    h_from_memory = crate::dec::from_memory,
    h_unreadable = crate::dec::unreadable,
    h_refused_m = crate::dec::refused_m,
    h_refused_s = crate::dec::refused_s,
    h_run_m = crate::loops::run_m,
    h_run_s = crate::loops::run_s,
    h_run_pending_m = crate::loops::run_pending_m,
    h_run_pending_s = crate::loops::run_pending_s,
    h_asm = crate::asm::assemble,
    h_text = crate::text::text,
    h_form = crate::text::form,
    h_form_other = crate::text::form_other,
    h_text_m = crate::text::executed_m,
    h_text_s = crate::text::executed_s,
    h_helpers = crate::helpers::helpers,
    h_slice = crate::slices::slice,
    h_iter = crate::slices::iter,
    h_ffi_step_m = crate::ffi::m::step,
    h_ffi_step_s = crate::ffi::s::step,
    h_ffi_text_m = crate::ffi::m::text,
    h_ffi_text_s = crate::ffi::s::text,
    h_ffi_run_m = crate::ffi::m::run,
    h_ffi_run_s = crate::ffi::s::run,
    h_ffi_misc_m = crate::ffi::m::misc,
    h_ffi_misc_s = crate::ffi::s::misc,
}
