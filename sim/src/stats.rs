//! Counters of what the runs did, kept in the shared file so they survive crashes of workers.

macro_rules! stats {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy)]
        #[repr(usize)]
        pub enum St { $($name),*, COUNT }
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}

stats! {
    runs, steps, ops, ops_panicked, thread_switches, atomic_ops, cell_ops, payload_accesses,
    // Faults that really happened.
    f_alloc_refused, f_realloc_refused, f_realloc_in_place, f_realloc_moved,
    f_stale_load, f_spurious_cas_failure, f_thread_stalled,
    f_panic_clone, f_panic_drop, f_panic_eq, f_panic_closure, f_panic_iterator, f_panic_scope,
    f_envelope_undelivered, f_iter_abandoned, f_drain_leaked, f_container_leaked,
    f_scope_body_panicked, f_scope_init_panicked, f_scope_drop_panicked, f_unrepresentable_size, f_reentrant_drop,
    f_many_handles_forgotten, f_cross_scope_use, f_invalid_index, f_reentrant_callback,
    f_run_while_unwinding,
    // Rare conditions that were hit.
    p_weak_locked_seen, p_spin, p_get_mut_granted, p_get_mut_refused, p_unwrap_granted,
    p_unwrap_refused, p_make_mut_in_place, p_make_mut_moved, p_make_mut_cloned,
    p_make_mut_failed, p_last_drop_by_other_thread, p_upgrade_some, p_upgrade_none,
    p_upgrade_none_in_destructor, p_count_during_concurrency, p_fence_handed_over,
    p_envelope_received, p_group_weak_only, p_sole_true, p_sole_false, p_fair_phase, p_count_limit,
    p_to_heap, p_to_stack, p_to_stack_refused, p_vec_grow, p_vec_shrink, p_retry_ok,
    p_zero_capacity_boxed, p_scope_depth3, p_scope_destructor, p_text_prefix_after_fault, p_elements_lost,
    p_length_over_255, p_length_over_65535,
    foreign_soft,
}

pub const N: usize = St::COUNT as usize;
